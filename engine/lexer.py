"""What a source line is read as."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import atom, State, Trace, bv, boolv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import natives
import objfile
import rt
import strs
from objfile import World, fields, is_ok


class Line:
    """A line of fixed length whose bytes are known, or any of a class."""

    def __init__(self, I, shape, name="", cls=20, step=1):
        self.cells, self.care = [], 1
        for i, c in enumerate(shape):
            if isinstance(c, int):
                self.cells.append(const(c, 8))
                continue
            v = fresh(f"{name}char{i}", 8, cls + step * i)
            ok = B.not_(v[7])
            if callable(c):
                ok = B.and_(ok, c(v))
            self.cells.append(v)
            self.care = B.and_(self.care, ok)

        def sel(i):
            k = to_int(i)
            if k is not None:
                return ("b", self.cells[k]) if k < len(shape) else bv(0, 8)
            r = bv(0, 8)
            for j in range(len(shape)):
                r = merge(eqc(i, j), ("b", self.cells[j]), r)
            return r
        self.value = ("a", (bv(len(shape), 64), ("A", I.u8(), None, ("fn", sel))))


class Lexer:
    def __init__(self, F, shape):
        self.F = F
        self.w = World(F, faults=False)
        self.I = I = self.w.I
        self.line = Line(I, shape)
        self.second = Line(I, list(b"next:")).value
        self.io = B.var("line cannot be read", 0, 0)
        self.w.st.g = self.line.care
        self.models()

    def reg(self, pat, f, need=False):
        rx = re.compile(pat)
        n = 0
        for i in self.F.insts.values():
            if rx.fullmatch(i["nm"]):
                self.I.models[i["nm"]] = f
                n += 1
        if need and not n:
            raise MissingAnchor(pat)

    def models(self):
        F, I = self.F, self.I
        self.digits = strs.install(I)
        cell = ("S", "lines")
        self.w.st.mem[cell] = bv(0, 2)

        def next_line(I, st, inst, args, site):
            k = rt.narrow(st.g, st.mem[cell][1])
            first = eqc(k, 0)
            st.mem[cell] = ("b", vite(first, const(1, 2), const(2, 2)))
            line = rt.result(self.io, self.line.value, atom("io error"))
            return st, rt.option(B.not_(eqc(k, 2)), merge(first, line, rt.ok(self.second, atom("io error"))))
        self.reg(r"<std::io::Lines<vharness::AnyFile> as std::iter::Iterator>::next", next_line, True)
        self.reg(r"alloc::fmt::format|std::fmt::format", lambda I, st, inst, args, site: (st, rt.vec_empty(I, I.u8())))
        self.reg(r"core::fmt::rt::Argument::<.*>::new_.*|core::fmt::rt::Argument::new_.*|std::fmt::Arguments::(new|from_str).*", lambda I, st, inst, args, site: (st, atom("text")))
        self.reg(r"<std::boxed::Box<str> as std::clone::Clone>::clone", lambda I, st, inst, args, site: (st, rt.deref(I, st, args[0])))
        self.reg(r"std::io::_eprint", lambda I, st, inst, args, site: (st, UNIT))


def run(F, shape, earlier=False):
    """earlier: an error was reported before."""
    L = Lexer(F, shape)
    L.earlier = earlier
    I = L.I
    t = F.ty_named("telda2::source::SourceLines<AnyFile>")
    v = I.fresh(t, "source")
    fs = list(v[1])
    for i, x in enumerate(F.tys[t]["v"][0]["f"]):
        if "Option<" in F.tys[x[1]]["s"] and "Error" in F.tys[x[1]]["s"]:
            fs[i] = ("e", (0,), ((), (U,)))
            if earlier:
                te = F.ty_named("telda2::source::Error")
                e = list(I.fresh(te, "error before")[1])
                for j, y in enumerate(F.tys[te]["v"][0]["f"]):
                    if F.tys[y[1]]["s"] == "u32":
                        e[j] = L.ln0 = ("b", zext(fresh("line of the error before", 16), 32))
                    elif "Option<" in F.tys[y[1]]["s"]:
                        e[j] = ("e", (0,), ((), (U,)))
                fs[i] = ("e", (1,), ((), (("a", tuple(e)),)))
        if F.tys[x[1]]["s"] == "u32":
            L.ln = ("b", zext(fresh("lines before", 16), 32))
            fs[i] = L.ln
            L.at_ln = i
        elif "Option<" in F.tys[x[1]]["s"]:
            L.at_err = i
    L.obj, L.ty = o, t = ("S", "source lines"), t
    L.w.st.mem[o] = ("a", tuple(fs))
    I.objty[o] = t
    k = next(k for k, i in F.insts.items() if i["nm"] == "telda2::source::SourceLines::<vharness::AnyFile>::parse_next_line")
    fs, rv = I.call(L.w.st, k, [rt.P(o)])
    return L, fs, rv


# ------------------------------------------------------------------- the specification
BYTE_REGS = {n: i for i, n in enumerate("r0b r1l r1h r2l r2h r3l r3h r4l r4h r5l r5h r6b r7b r8b r9b r10b".split())}
WIDE_REGS = {n: i for i, n in enumerate("r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 rs rl rf rp rh".split())}
ESCAPES = {"r": 13, "t": 9, "n": 10, "0": 0, "\\": 92, "'": 39, '"': 34}
TEXT = {"include": "DirInclude", "global": "DirGlobal", "globl": "DirGlobal", "ref": "DirReference",
        "reference": "DirReference", "seg": "DirSeg"}
ANY = ("any",)       # (the documentation leaves it open)


def is_(b, ch):
    return eqc(b, ord(ch) if isinstance(ch, str) else ch)


def blank(b):
    r = 0
    for c in (32, 9, 10, 11, 12, 13):
        r = B.or_(r, eqc(b, c))
    return r


def text_is(bs, s):
    if len(bs) != len(s):
        return 0
    r = 1
    for b, c in zip(bs, s):
        r = B.and_(r, is_(b, c))
    return r


def digit(b, radix):
    """(is a digit, its value)"""
    ok, v = 0, const(0, 4)
    for i, c in enumerate("0123456789abcdef"[:radix]):
        for x in {c, c.upper()}:
            h = is_(b, x)
            ok = B.or_(ok, h)
            v = vite(h, const(i, 4), v)
    return ok, v


def natural(care, bs, radix):
    """(is a sequence of digits, its value)"""
    if not bs:
        return 0, const(0, 1)
    w = clog2(radix ** len(bs)) + 1
    ok, v = 1, const(0, w)
    for b in bs:
        k, d = digit(b, radix)
        ok = B.and_(ok, k)
        c = B.and_(care, ok)
        if not c:
            return 0, const(0, 1)
        t = const(0, w)
        v = rt.narrow(c, v)
        for j in range(5):
            if radix >> j & 1:
                t = bdd.add(t, ((0,) * j + v)[:w])[0]
        v = rt.narrow(c, bdd.add(t, zext(rt.narrow(c, d), w))[0])
    return ok, v


def number(care, bs, radix, bits, least, most):
    """(is a number from least to most, its value)"""
    rows = [(1, bs, 0)]
    if bs:
        plus, minus = is_(bs[0], "+"), is_(bs[0], "-")
        rows = [(B.and_(B.not_(plus), B.not_(minus)), bs, 0), (plus, bs[1:], 0), (minus, bs[1:], 1)]
    good, val = 0, const(0, bits)
    for c, ds, neg in rows:
        k, v = natural(B.and_(care, c), ds, radix)
        k = B.and_(c, k)
        if not B.and_(care, k):
            continue
        bound = -least if neg else most
        w = max(len(v), bound.bit_length()) + 1
        v = rt.narrow(B.and_(care, k), zext(v, w))
        k = B.and_(k, B.not_(bdd.ult(const(bound, w), v)))
        v = (v + (0,) * bits)[:bits]
        if neg:
            v = bdd.sub(const(0, bits), v)[0]
        good, val = B.or_(good, k), vite(k, rt.narrow(k, v), val)
    return good, val


def character(care, bs):
    """What one (possibly escaped) character at the front is: (condition, value or error, bytes used)"""
    if not bs:
        yield 1, None, 0
        return
    esc = is_(bs[0], "\\")
    yield B.not_(esc), bs[0], 1
    if len(bs) == 1:
        yield esc, None, 0
        return
    other = esc
    for ch, v in ESCAPES.items():
        h = is_(bs[1], ch)
        yield B.and_(esc, h), const(v, 8), 2
        other = B.and_(other, B.not_(h))
    h = is_(bs[1], "x")
    yield B.and_(other, B.not_(h)), None, 0
    h = B.and_(esc, h)
    if len(bs) < 4:
        yield h, None, 0
        return
    plus = is_(bs[2], "+")
    yield B.and_(h, plus), ANY, 4
    h = B.and_(h, B.not_(plus))
    k, v = natural(h, bs[2:4], 16)
    yield B.and_(h, k), tuple(v[:8]), 4
    yield B.and_(h, B.not_(k)), None, 0


def literal(care, bs):
    """What an operand that is no register is: (condition, kind, value)."""
    left = 1

    def case(c, *r):
        nonlocal left
        c = B.and_(left, c)
        left = B.and_(left, B.not_(c))
        return (c,) + r
    rows = []
    for prefix, radix in (("0x", 16), ("0b", 2), ("0o", 8), ("", 10)):
        ds = bs[len(prefix):]
        h = text_is(bs[:len(prefix)], prefix)
        if not B.and_(care, B.and_(left, h)):
            continue
        inner = []
        if prefix and ds:
            # (a sign after the prefix; a b that may be a digit)
            sign = B.or_(is_(ds[0], "+"), is_(ds[0], "-"))
            if radix == 16:
                sign = B.or_(sign, is_(ds[-1], "b"))
            inner.append((sign, ANY, None))
        sb = is_(ds[-1], "b") if ds else 0
        sw = is_(ds[-1], "w") if ds else 0
        for s, bits, kind in ((sb, 8, "Byte"), (sw, 16, "Wide")):
            c = B.and_(B.and_(care, left), B.and_(h, s))
            if c:
                k, v = number(c, ds[:-1], radix, bits, -(1 << bits - 1), (1 << bits) - 1)
                inner.append((B.and_(s, k), kind, v))
                inner.append((s, "Label", None))
        quoted = B.and_(is_(bs[0], "'"), is_(bs[-1], "'")) if len(bs) > 1 else 0
        if not prefix and quoted:
            for c, v, n in character(care, bs[1:-1]):
                if v is ANY:
                    inner.append((B.and_(quoted, c), ANY, None))
                elif v is not None and n == len(bs) - 2:
                    inner.append((B.and_(quoted, c), "Byte", v))
            inner.append((quoted, None, None))
        c = B.and_(B.and_(care, left), h)
        k, v = number(c, ds, radix, 32, -(1 << 31), (1 << 31) - 1)
        inner.append((k, "Number", v))
        inner.append((1, "Label", None))
        out = h
        for c, kind, v in inner:
            c = B.and_(out, c)
            out = B.and_(out, B.not_(c))
            rows.append(case(c, kind, v))
    return [(c, k, bs if k == "Label" else v) for c, k, v in rows if B.and_(care, c)]


def operand(care, bs):
    left = 1
    rows = []
    for kind, table in (("ByteReg", BYTE_REGS), ("WideReg", WIDE_REGS)):
        for n, i in table.items():
            c = text_is(bs, n)
            if B.and_(care, c):
                rows.append((c, kind, const(i, 4)))
                left = B.and_(left, B.not_(c))
    return rows + [(B.and_(left, c), k, v) for c, k, v in literal(B.and_(care, left), bs)]


def trimmed(care, bs):
    """(condition, bytes without the blanks around)"""
    n = len(bs)
    allb = 1
    for a in range(n):
        first = B.and_(allb, B.not_(blank(bs[a])))
        tail = 1
        for z in range(n, a, -1):
            c = B.and_(B.and_(first, tail), B.not_(blank(bs[z - 1])))
            if B.and_(care, c):
                yield c, bs[a:z]
            tail = B.and_(tail, blank(bs[z - 1]))
        allb = B.and_(allb, blank(bs[a]))
    if B.and_(care, allb):
        yield allb, []


def string(care, bs):
    """(condition, the bytes a string is, or None)"""
    if not bs:
        yield 1, []
        return
    for c, v, n in character(care, bs):
        c = B.and_(care, c)
        if not c:
            continue
        if v is None:
            yield c, None
        elif v is ANY:
            yield c, ANY
        else:
            for d, rest in string(c, bs[n:]):
                d = B.and_(c, d)
                if d:
                    yield d, (rest if rest is None or rest is ANY else [v] + rest)


def directive(care, bs):
    """bs: what follows the dot."""
    n = len(bs)
    none = 1
    for k in range(n + 1):
        here = B.and_(none, is_(bs[k], " ") if k < n else 1)
        if k < n:
            none = B.and_(none, B.not_(is_(bs[k], " ")))
        if not B.and_(care, here):
            continue
        word, arg = bs[:k], bs[k + 1:]
        other = here
        for w in ("string", "byte", "wide", "word", "entry") + tuple(TEXT):
            c = B.and_(here, text_is(word, w))
            if not B.and_(care, c):
                continue
            other = B.and_(other, B.not_(c))
            if w in TEXT:
                yield c, TEXT[w], ("text", arg)
            elif w == "entry":
                yield c, "DirEntry", None
            elif w == "string":
                for d, v in string(B.and_(care, c), arg):
                    d = B.and_(c, d)
                    yield (d, None, None) if v is None else (d, ANY, None) if v is ANY else (d, "DirString", ("bytes", v))
            else:
                one = w == "byte"
                for d, kind, v in literal(B.and_(care, c), arg):
                    d = B.and_(c, d)
                    if kind == "Number" or kind == ("Byte" if one else "Wide"):
                        v = tuple(v[:8 if one else 16])
                        yield d, "DirByte" if one else "DirWide", ("byte", v) if one else ("wide", v)
                    elif kind == "Label" and not one:
                        yield d, "DirWide", ("label", v)
                    elif kind is ANY:
                        yield d, ANY, None
                    else:
                        yield d, None, None
        yield other, None, None


def instruction(care, bs):
    """(condition, "Ins", (name, operands)): operands are [(condition, number, kind, value)]."""
    n = len(bs)
    none = 1
    for k in range(n):
        here = B.and_(none, is_(bs[k], " "))
        none = B.and_(none, B.not_(is_(bs[k], " ")))
        c0 = B.and_(care, here)
        if not c0:
            continue
        args = bs[k:]
        m = len(args)
        # counts[i][j]: j commas before place i
        comma = [is_(b, ",") for b in args]
        rows = []
        bad, open_ = 0, 0
        before = {0: 1}
        for s in range(m + 1):
            # an operand starts at s: s = 0 or a comma at s - 1
            if s:
                nxt = {}
                for j, c in before.items():
                    for d, jj in ((B.and_(c, comma[s - 1]), j + 1), (B.and_(c, B.not_(comma[s - 1])), j)):
                        if B.and_(c0, d):
                            nxt[jj] = B.or_(nxt.get(jj, 0), d)
                before = nxt
            start = comma[s - 1] if s else 1
            inside = start
            for e in range(s, m + 1):
                span = B.and_(inside, comma[e] if e < m else 1)
                if e < m:
                    inside = B.and_(inside, B.not_(comma[e]))
                if not B.and_(c0, span):
                    continue
                for tc, bs2 in trimmed(B.and_(c0, span), args[s:e]):
                    tc = B.and_(span, tc)
                    for oc, kind, v in operand(B.and_(c0, tc), bs2):
                        oc = B.and_(tc, oc)
                        if not B.and_(c0, oc):
                            continue
                        if kind is None:
                            bad = B.or_(bad, oc)
                        elif kind is ANY:
                            open_ = B.or_(open_, oc)
                        else:
                            for j, bc in before.items():
                                oj = B.and_(oc, bc)
                                if B.and_(c0, oj):
                                    rows.append((oj, j, kind, v))
        counts = [(B.and_(here, c), j + 1) for j, c in before.items()]
        good = B.and_(here, B.and_(B.not_(bad), B.not_(open_)))
        yield good, "Ins", ("ins", bs[:k], rows, counts)
        yield B.and_(here, open_), ANY, None
        yield B.and_(here, B.and_(bad, B.not_(open_))), None, None
    if B.and_(care, none):
        yield none, "Ins", ("ins", bs, [], [(none, 0)])


def spec(care, bs):
    """(condition, kind of line or None (an error), payload)"""
    for tc, t in trimmed(care, bs):
        c0 = B.and_(care, tc)
        if not t:
            yield tc, "Comment", None
            continue
        com = B.or_(is_(t[0], ";"), is_(t[0], "#"))
        if len(t) > 1:
            com = B.or_(com, B.and_(is_(t[0], "/"), is_(t[1], "/")))
        yield B.and_(tc, com), "Comment", None
        dot = B.and_(tc, is_(t[0], "."))
        if B.and_(care, dot):
            for c, k, p in directive(B.and_(care, dot), t[1:]):
                yield B.and_(dot, c), k, p
        left = B.and_(tc, B.and_(B.not_(com), B.not_(is_(t[0], "."))))
        lab = B.and_(left, is_(t[-1], ":"))
        yield lab, "Label", ("text", t[:-1])
        left = B.and_(left, B.not_(lab))
        if B.and_(care, left):
            for c, k, p in instruction(B.and_(care, left), t):
                yield B.and_(left, c), k, p


class Compare:
    def __init__(self, L, fs, rv):
        self.L, self.F, self.I, self.rv = L, L.F, L.I, rv
        self.g = fs.g
        F = L.F
        self.lv = {v["name"]: (i, v) for i, v in enumerate(F.tys[F.ty_named("telda2::source::SourceLine")]["v"])}
        self.ov = {v["name"]: i for i, v in enumerate(F.tys[F.ty_named("telda2::source::SourceOperand")]["v"])}
        for n in ("Label", "Ins", "Comment", "DirInclude", "DirString", "DirByte", "DirWide", "DirGlobal", "DirReference", "DirSeg", "DirEntry"):
            if n not in self.lv:
                raise MissingAnchor(f"source line {n}")
        self.lw, self.ow = clog2(len(self.lv)), clog2(len(self.ov))
        self.st = fs
        self.err = I_read(L.I, fs, L.obj)[1][L.at_err]
        self.diffs = []
        t = F.ty_named("telda2::source::Error")
        fld = F.tys[t]["v"][0]["f"]
        k = [i for i, x in enumerate(fld) if F.tys[x[1]]["s"] == "u32"]
        x = [i for i, x in enumerate(fld) if "Option<" in F.tys[x[1]]["s"]]
        if len(k) != 1 or len(x) != 1:
            raise MissingAnchor("parts of an error")
        self.eln, self.enext = k[0], x[0]

    def errors(self, c):
        """(condition, line) of the errors reported."""
        todo, n = [(c, self.err)], 0
        while todo:
            c, o = todo.pop()
            c = B.and_(c, self.some(o))
            if not c:
                continue
            n += 1
            if n > 8:
                raise Unsupported("more errors than lines")
            e = o[2][1][0]
            if e[0] == "p" or len(e[1]) == 1 or len(e[1]) == 2:         # (a box)
                p = self.I.as_ptr(self.st, e)
                for g, ob, path in rt.targets(self.I, self.st, p):
                    d = B.and_(c, g)
                    if d:
                        todo.append((d, ("e", (1,), ((), (self.I.read_path(self.I.load_obj(self.st, ob), path),)))))
                continue
            yield c, e[1][self.eln][1]
            todo.append((c, e[1][self.enext]))

    def note(self, c, what):
        if c and B.and_(self.g, c):
            self.diffs.append((what, B.and_(self.g, c)))

    def some(self, v):
        return eqc(v[1], 1)

    def bytes_differ(self, c, v, want):
        if v is None or v[0] == "u":
            return c
        n = rt.narrow(c, rt.vlen(v))
        r = B.and_(c, B.not_(eqc(n, len(want))))
        c = B.and_(c, B.not_(r))
        for i, b in enumerate(want):
            if not c:
                break
            x = rt.get_where(self.I, c, v, const(i, 64))
            r = B.or_(r, objfile.differ(c, x[1], b))
        return r

    def line_differs(self, c, v, kind, p):
        """v: the SourceLine delivered"""
        i, _ = self.lv[kind]
        r = B.and_(c, B.not_(eqc(rt.narrow(c, v[1]), i)))
        self.note(r, f"a line is read as another kind of line than {kind}")
        c = B.and_(c, B.not_(r))
        if not c or p is None:
            return
        pay = v[2][i]
        what, x = p[0], p[1]
        if what == "text":
            self.note(self.bytes_differ(c, pay[0], x), f"the text of a {kind} line is not the text of the source")
        elif what == "bytes":
            self.note(self.bytes_differ(c, pay[0], x), "a string is not the bytes that the source writes")
        elif what == "byte":
            self.note(objfile.differ(c, pay[0][1], x), "a byte is not the number of the source")
        elif what in ("wide", "label"):
            e = pay[0]
            ok = is_ok(e)
            bad = B.and_(c, B.not_(ok) if what == "wide" else ok)
            self.note(bad, "a word is a label in place of a number or the other way round")
            c = B.and_(c, B.not_(bad))
            if c and what == "wide":
                self.note(objfile.differ(c, e[2][0][0][1], x), "a word is not the number of the source")
            elif c:
                self.note(self.bytes_differ(c, e[2][1][0], x), "the label of a word is not the one of the source")
        else:
            _, name, rows, counts = p
            self.note(self.bytes_differ(c, pay[0], name), "the name of an instruction is not the one of the source")
            n = rt.narrow(c, rt.vlen(pay[1]))
            for d, m in counts:
                d = B.and_(c, d)
                if d:
                    r = B.and_(d, B.not_(eqc(n, m)))
                    self.note(r, "an instruction has operands lost or invented")
                    c = B.and_(c, B.not_(r))
            for d, j, k, x in rows:
                d = B.and_(c, d)
                if not d:
                    continue
                o = rt.get_where(self.I, d, pay[1], const(j, 64))
                if o[0] != "e":
                    self.note(d, "an operand is missing")
                    continue
                r = B.and_(d, B.not_(eqc(rt.narrow(d, o[1]), self.ov[k])))
                self.note(r, f"an operand is read as another kind of operand than {k}")
                d = B.and_(d, B.not_(r))
                if not d:
                    continue
                y = o[2][self.ov[k]][0]
                if k == "Label":
                    self.note(self.bytes_differ(d, y, x), "the label of an operand is not the one of the source")
                elif k in ("ByteReg", "WideReg"):
                    while y[0] == "a":
                        y = y[1][0]
                    w = max(len(y[1]), 4)
                    self.note(objfile.differ(d, zext(y[1], w), zext(x, w)), "an operand is another register than the one named")
                else:
                    self.note(objfile.differ(d, y[1], x), "an operand is not the number of the source")

    def run(self, rows):
        L, F = self.L, self.F
        io = L.io
        want2 = bdd.add(L.ln[1], const(2, 32))[0]
        want1 = bdd.add(L.ln[1], const(1, 32))[0]
        none = B.not_(self.some(self.rv))
        self.note(none, "the lines end early")
        ok = B.and_(self.g, B.not_(none))
        pair = self.rv[2][1][0]
        ln, line = pair[1]
        has = self.some(self.err)

        def failed(c, where):
            self.note(B.and_(c, B.not_(has)), "an error in a line is not reported")
            d = B.and_(c, has)
            for want in ([want1] if where else []) + ([L.ln0[1]] if L.earlier else []):
                miss = d
                for e, x in self.errors(d):
                    miss = B.and_(miss, B.not_(B.and_(e, eq(rt.narrow(e, x), want))))
                self.note(miss, "an error is reported for another line" if want is want1 else "an earlier error is lost")
            c = B.and_(c, ok)
            if c:
                self.note(objfile.differ(c, ln[1], want2), "the line after an error has another number")
                self.line_differs(c, line, "Label", ("text", [const(x, 8) for x in b"next"]))
        failed(B.and_(self.g, io), False)
        n = 0
        for c, kind, p in rows:
            c = B.and_(B.and_(self.g, B.not_(io)), c)
            if not c or kind is ANY:
                continue
            n += 1
            if kind is None:
                failed(c, True)
                continue
            if L.earlier:
                self.note(B.and_(c, B.not_(has)), "an earlier error is lost")
                d = B.and_(c, ok)
            else:
                self.note(B.and_(c, has), "a correct line is reported as an error")
                d = B.and_(c, B.and_(ok, B.not_(has)))
            if d:
                self.note(objfile.differ(d, ln[1], want1), "a line is given another number")
                self.line_differs(d, line, kind, p)
        self.compared = n
        return self.diffs


def I_read(I, st, o):
    return I.load_obj(st, o)


def check(F, shape, earlier=False):
    """(differences, panics, blocks, cases compared) for the lines of a shape"""
    L, fs, rv = run(F, shape, earlier)
    site = [L.I.site(k, 0) for k, i in F.insts.items() if i["nm"].startswith("telda2::source::SourceLines::<vharness::AnyFile>::") and i.get("body")
            and i["nm"].rsplit("::", 1)[1] in ("parse_next_line", "inner_parse_line")]
    if fs is None:
        return [("a line never ends", {}, site)], [], L.I.blocks, 0
    C = Compare(L, fs, rv)
    rows = list(spec(B.and_(L.line.care, fs.g), L.line.cells))
    ds = C.run(rows)
    out, seen = [], set()
    for what, c in ds:
        if what not in seen:
            seen.add(what)
            out.append((what, describe(L, c), site))
    pn = []
    for g, s, what, stack in L.I.panics:
        # (fewer than 2^32 lines)
        if B.and_(g, L.line.care):
            pn.append((what, [s], describe(L, g)))
    return out, pn, L.I.blocks, C.compared


def describe(L, c):
    a = B.sample(c, 0)
    t = []
    for cell in L.line.cells:
        t.append(sum(B.at(b, a) << i for i, b in enumerate(cell)))
    return {"line": repr(bytes(t).decode("ascii", "replace"))}
