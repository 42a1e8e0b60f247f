"""str methods on short ASCII texts, byte by byte."""
import re
import bdd
from bdd import B, const, to_int, eq, eqc, vite, zext
from interp import atom, bv, boolv, UNIT, U, Unsupported, merge
import natives
import rt

LIMIT = 24          # longest text handled


def white(v):
    return B.or_(eqc(v, 0x20), B.and_(bdd.ult(const(8, 8), v), bdd.ult(v, const(14, 8))))


def ascii_white(v):
    return B.and_(white(v), B.not_(eqc(v, 11)))


def ptr(I, st, v):
    v = I.as_ptr(st, v)
    while v[2] is None:
        x = rt.deref(I, st, v)
        if rt.is_vec(natives.strip(x)):
            return rt.slice_of(I, st, v)
        v = I.as_ptr(st, x)
    return v


class Text:
    """The bytes of a slice and where it ends."""

    def __init__(self, I, st, v):
        self.I, self.st = I, st
        self.p = ptr(I, st, v)
        self.n = rt.narrow(st.g, rt.slice_len(self.p))
        m = to_int(self.n)
        if m is None:
            m = LIMIT
            if B.and_(st.g, bdd.ult(const(LIMIT, 64), self.n)):
                raise Unsupported("a long text")
            while m and not B.and_(st.g, B.not_(bdd.ult(self.n, const(m, 64)))):
                m -= 1
        elif m > LIMIT:
            raise Unsupported("a long text")
        self.m = m
        self.b = [rt.narrow(B.and_(st.g, self.inside(i)), self.byte(i)) if B.and_(st.g, self.inside(i)) else const(0, 8)
                  for i in range(m)]
        for i, b in enumerate(self.b):
            if B.and_(st.g, B.and_(self.inside(i), b[7])):
                raise Unsupported("a text beyond ASCII")

    def inside(self, i):
        return bdd.ult(const(i, 64), self.n)

    def byte(self, i):
        return rt.slice_get(self.I, self.st, self.p, const(i, 64))[1]

    def cut(self, lo, hi):
        g = self.st.g
        return rt.sub_slice(self.I, self.st, self.p, rt.narrow(g, lo), rt.narrow(g, hi))


def pattern(I, st, inst, v):
    """The characters a pattern matches, as a condition on a byte, or the text it is."""
    v0 = v
    if v[0] == "b" and len(v[1]) == 32:
        return lambda b: eq(zext(b, 32), v[1]), None
    for t in reversed(inst.get("args") or ()):
        if not isinstance(t, int):
            continue
        x = I.T[t]
        if x["k"] == "closure":
            def match(b, t=t):
                s, r = natives.call_closure(I, st, t, v0, [("b", zext(b, 32))])
                return r[1][0]
            return match, None
        if "is_whitespace" in x["s"] or "is_ascii_whitespace" in x["s"]:
            return (ascii_white if "ascii" in x["s"] else white), None
    if v[0] == "p":
        return None, Text(I, st, v)
    raise Unsupported("a text pattern")


def at(t, k, p):
    """Where text p stands in text t from place k on (p of known length)."""
    r = 1
    m = to_int(p.n)
    if m is None:
        raise Unsupported("a pattern of unknown length")
    if k + m > t.m:
        return 0
    r = B.not_(bdd.ult(t.n, const(k + m, 64)))
    for i in range(m):
        r = B.and_(r, eq(t.b[k + i], p.b[i]))
    return r


def install(I):
    def reg(pat, f):
        rx = re.compile(pat)
        for i in I.F.insts.values():
            if rx.fullmatch(i["nm"]):
                I.models[i["nm"]] = f
    S = r"core::str::<impl str>::"

    def first(t, ok):
        n, r = t.n, const(0, 64)
        for i in reversed(range(t.m)):
            r = vite(B.and_(ok(t.b[i]), t.inside(i)), const(i, 64), r if i < t.m - 1 else t.n)
        return r if t.m else t.n

    def last(t, ok):
        """One past the last byte that is ok (0: none)."""
        r = const(0, 64)
        for i in range(t.m):
            r = vite(B.and_(t.inside(i), ok(t.b[i])), const(i + 1, 64), r)
        return r

    def trim(lo, hi, cls):
        def f(I, st, inst, args, site):
            t = Text(I, st, args[0])
            keep = lambda b: B.not_(cls(b))
            a = first(t, keep) if lo else const(0, 64)
            z = last(t, keep) if hi else t.n
            # (all blank: empty, at the end)
            z = vite(bdd.ult(z, a), a, z)
            return st, t.cut(a, z)
        return f
    for nm, lo, hi in (("trim", 1, 1), ("trim_start", 1, 0), ("trim_end", 0, 1), ("trim_left", 1, 0), ("trim_right", 0, 1)):
        reg(S + nm, trim(lo, hi, white))
        reg(S + nm.replace("trim", "trim_ascii"), trim(lo, hi, ascii_white))

    def matches(I, st, inst, args, site, lo, hi):
        t = Text(I, st, args[0])
        c, p = pattern(I, st, inst, args[1])
        if c is None:
            return NotImplemented
        keep = lambda b: B.not_(c(b))
        a = first(t, keep) if lo else const(0, 64)
        z = last(t, keep) if hi else t.n
        z = vite(bdd.ult(z, a), a, z)
        return st, t.cut(a, z)
    reg(S + r"trim_matches::<.*>", lambda *a: matches(*a, 1, 1))
    reg(S + r"trim_(start|left)_matches::<.*>", lambda *a: matches(*a, 1, 0))
    reg(S + r"trim_(end|right)_matches::<.*>", lambda *a: matches(*a, 0, 1))

    def begins(t, c, p):
        if c is None:
            return at(t, 0, p), const(to_int(p.n), 64)
        return (B.and_(t.inside(0), c(t.b[0])) if t.m else 0), const(1, 64)

    def ends(t, c, p):
        r = 0
        k = 1 if c is not None else to_int(p.n)
        if k is None:
            raise Unsupported("a pattern of unknown length")
        for n in range(k, t.m + 1):
            here = eqc(t.n, n)
            if here:
                r = B.or_(r, B.and_(here, c(t.b[n - 1]) if c is not None else at(t, n - k, p)))
        return r, const(k, 64)

    def with_pattern(f):
        def g(I, st, inst, args, site):
            t = Text(I, st, args[0])
            c, p = pattern(I, st, inst, args[1])
            return st, f(I, st, t, c, p)
        return g

    def strip_prefix(I, st, t, c, p):
        r, k = begins(t, c, p)
        return rt.option(rt.where(st.g, r), t.cut(k, t.n))

    def strip_suffix(I, st, t, c, p):
        r, k = ends(t, c, p)
        r = rt.where(st.g, r)
        return rt.option(r, t.cut(const(0, 64), rt.narrow(B.and_(st.g, r), bdd.sub(t.n, k)[0])))
    reg(S + r"starts_with::<.*>", with_pattern(lambda I, st, t, c, p: boolv(rt.where(st.g, begins(t, c, p)[0]))))
    reg(S + r"ends_with::<.*>", with_pattern(lambda I, st, t, c, p: boolv(rt.where(st.g, ends(t, c, p)[0]))))
    reg(S + r"strip_prefix::<.*>", with_pattern(strip_prefix))
    reg(S + r"strip_suffix::<.*>", with_pattern(strip_suffix))

    def places(t, c, p):
        for i in range(t.m):
            yield i, B.and_(t.inside(i), c(t.b[i])) if c is not None else at(t, i, p)
        if c is None and to_int(p.n) == 0:
            raise Unsupported("an empty pattern")

    def find(st, t, c, p, last=False, start=None):
        """(found, place)"""
        r, pos = 0, const(0, 64)
        ps = list(places(t, c, p))
        for i, h in (ps if last else reversed(ps)):
            if start is not None:
                h = B.and_(h, B.not_(bdd.ult(const(i, 64), start)))
            pos = vite(h, const(i, 64), pos)
            r = B.or_(r, h)
        return rt.where(st.g, r), rt.narrow(st.g, pos)

    def finder(last):
        def f(I, st, t, c, p):
            r, pos = find(st, t, c, p, last)
            return rt.option(r, ("b", pos))
        return f
    reg(S + r"find::<.*>", with_pattern(finder(False)))
    reg(S + r"rfind::<.*>", with_pattern(finder(True)))
    reg(S + r"contains::<.*>", with_pattern(lambda I, st, t, c, p: boolv(find(st, t, c, p)[0])))

    def once(last):
        def f(I, st, t, c, p):
            r, pos = find(st, t, c, p, last)
            k = 1 if c is not None else to_int(p.n)
            e = bdd.add(pos, const(k, 64))[0]
            return rt.option(r, ("a", (t.cut(const(0, 64), pos), t.cut(e, t.n))))
        return f
    reg(S + r"split_once::<.*>", with_pattern(once(False)))
    reg(S + r"rsplit_once::<.*>", with_pattern(once(True)))

    def split_at(I, st, inst, args, site):
        t = Text(I, st, args[0])
        k = rt.narrow(st.g, args[1][1])
        st = rt.guard(I, st, bdd.ult(t.n, k), site, "split_at beyond the text")
        if st is None:
            return None, None
        return st, ("a", (t.cut(const(0, 64), k), t.cut(k, t.n)))
    reg(S + r"split_at", split_at)

    # ---- an iterator over parts: (whole text, place, parts left or None, pattern, done)
    def split(I, st, inst, args, site):
        n = 1 if "splitn" in inst["nm"] else 0
        limit = args[1] if n else bv((1 << 32) - 1, 64)
        return st, ("a", (ptr(I, st, args[0]), bv(0, 64), boolv(0), limit, args[1 + n], ("a", (bv(0, 1),))))
    reg(S + r"splitn?::<.*>", split)

    def next_part(I, st, inst, args, site):
        (g, o, path), = rt.targets(I, st, args[0])
        it = I.read_path(I.load_obj(st, o), path)
        if it[0] != "a" or len(it[1]) != 6:
            raise Unsupported("an iterator over parts")
        whole, at_, done, limit, pat, mark = it[1]
        t = Text(I, st, whole)
        t.n, at_ = rt.narrow(st.g, t.n), rt.narrow(st.g, at_[1])
        done, limit = rt.where(st.g, done[1][0]), rt.narrow(st.g, limit[1])
        c, p = pattern(I, st, inst, pat)
        r, pos = find(st, t, c, p, start=at_)
        one = eqc(limit, 1)
        r = B.and_(r, B.not_(one))
        none = B.or_(done, eqc(limit, 0))
        k = 1 if c is not None else to_int(p.n)
        nxt = vite(r, bdd.add(pos, const(k, 64))[0], t.n)
        part = t.cut(at_, vite(r, pos, t.n))
        new = ("a", (whole, ("b", rt.narrow(st.g, vite(none, at_, nxt))), boolv(rt.where(st.g, B.or_(none, B.not_(r)))),
                     ("b", vite(none, limit, bdd.sub(limit, const(1, 64))[0])), pat, mark))
        st.mem[o] = I.write_path(I.load_obj(st, o), path, new, 1)
        return st, rt.option(B.not_(none), part)
    reg(r"<std::str::SplitN?<.*> as std::iter::Iterator>::next", next_part)
    reg(r"<std::str::SplitN?<.*> as std::iter::IntoIterator>::into_iter", lambda I, st, inst, args, site: (st, args[0]))

    # ---- numbers
    def digits(I, st, t, radix, bits, signed, neg_ok=True):
        """(is a number of the type, its value)"""
        W_ = bits + 6 if bits <= 16 else bits + 4
        first_is = lambda ch: B.and_(t.inside(0), eqc(t.b[0], ch)) if t.m else 0
        plus, minus = first_is(ord("+")), first_is(ord("-"))
        # (a sign of its own is no number; without a signed type - is no digit)
        neg = minus if signed else 0
        sign = B.or_(plus, neg)
        ok = B.not_(eqc(t.n, 0))
        ok = B.and_(ok, B.not_(B.and_(sign, eqc(t.n, 1))))
        acc = const(0, W_)
        most = const((1 << bits) - 1, W_) if not signed else const((1 << (bits - 1)) - 1, W_)
        least = const(1 << (bits - 1), W_)
        limit = vite(neg, least, most)
        for i in range(t.m):
            b = t.b[i]
            here = B.and_(t.inside(i), B.not_(sign) if i == 0 else 1)
            here = B.and_(B.and_(st.g, ok), here)
            if not here:
                continue
            b = rt.narrow(here, b)
            dec = B.and_(B.not_(bdd.ult(b, const(0x30, 8))), bdd.ult(b, const(0x30 + min(radix, 10), 8)))
            val = bdd.sub(b, const(0x30, 8))[0]
            if radix > 10:
                low = bdd.sub(tuple(b[:5]) + (1,) + tuple(b[6:]), const(0x61 - 10, 8))[0]
                lo = tuple(b[:5]) + (1,) + tuple(b[6:])
                alpha = B.and_(B.not_(bdd.ult(lo, const(0x61, 8))), bdd.ult(lo, const(0x61 + radix - 10, 8)))
                alpha = B.and_(alpha, b[6])
                val = vite(alpha, low, val)
                dec = B.or_(dec, alpha)
            here = B.and_(here, dec)
            ok = B.and_(ok, B.or_(B.not_(B.and_(t.inside(i), B.not_(sign) if i == 0 else 1)), dec))
            if not here:
                continue
            a = rt.narrow(here, acc)
            s = const(0, W_)
            for j in range(radix.bit_length()):
                if radix >> j & 1:
                    s = bdd.add(s, (0,) * j + a[:W_ - j])[0]
            s = rt.narrow(here, bdd.add(s, zext(rt.narrow(here, val), W_))[0])
            over = B.and_(here, bdd.ult(rt.narrow(here, limit), s))
            ok = B.and_(ok, B.not_(over))
            here = B.and_(here, B.not_(over))
            acc = rt.narrow(B.and_(st.g, ok), vite(here, rt.narrow(here, s), acc)) if B.and_(st.g, ok) else acc
        v = tuple(acc[:bits])
        if neg:
            v = vite(neg, bdd.sub(const(0, bits), v)[0], v)
        return rt.where(st.g, ok), v

    WIDTH = {"u8": (8, False), "i8": (8, True), "u16": (16, False), "i16": (16, True), "u32": (32, False), "i32": (32, True)}

    def parsed(I, st, t, radix, ty):
        bits, signed = WIDTH[ty]
        cases = []
        for r in (2, 8, 10, 16):
            c = B.and_(st.g, eqc(radix, r))
            if not c:
                continue
            s = st.fork(eqc(radix, r))
            tt = t
            ok, v = digits(I, s, tt, r, bits, signed)
            cases.append((c, ok, v))
        if B.and_(st.g, B.not_(B.or_(B.or_(eqc(radix, 2), eqc(radix, 8)), B.or_(eqc(radix, 10), eqc(radix, 16))))):
            raise Unsupported("a number in another radix")
        good, val = 0, const(0, bits)
        for c, ok, v in cases:
            good = B.or_(good, B.and_(c, ok))
            val = vite(B.and_(c, ok), v, val)
        return ("e", (rt.where(st.g, B.not_(good)),), ((("b", rt.narrow(st.g, val)),), (atom("number error"),)))

    def from_radix(I, st, inst, args, site):
        ty = re.search(r"<impl (\w+)>", inst["nm"]).group(1)
        if ty not in WIDTH:
            return NotImplemented
        return st, parsed(I, st, Text(I, st, args[0]), rt.narrow(st.g, args[1][1]), ty)
    reg(r"core::num::<impl \w+>::from_str_radix", from_radix)

    def parse(I, st, inst, args, site):
        ty = inst["nm"].rsplit("::<", 1)[1][:-1]
        if ty not in WIDTH:
            return NotImplemented
        return st, parsed(I, st, Text(I, st, args[0]), const(10, 32), ty)
    reg(S + r"parse::<\w+>", parse)

    def as_bytes(I, st, inst, args, site):
        return st, ptr(I, st, args[0])
    reg(S + r"as_bytes", as_bytes)
    return digits
