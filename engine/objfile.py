"""Object files: section codecs, the section container, whole objects."""
import itertools
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, bv, boolv, UNIT, U, Unsupported, atom, clog2, join, merge
from facts import MissingAnchor
from report import words
import rt
from rt import FILE

OBJ, FOBJ = ("S", "section"), ("S", "handle")


def W(c):
    return words(B.witness(c))


class World:
    """An interpreter over one file, and a second one for the specification."""

    def __init__(self, F, cursor=None, size=None, faults=True, unroll=400):
        self.F = F
        self.I = Interp(F, unroll=unroll)
        self.I.strmeta = True
        self.I.split = True
        self.E, self.f = rt.install(self.I, size=size, faults=faults)
        self.c0 = cursor if cursor is not None else const(0, 32)
        self.st = State(1, {}, Trace())
        self.f.init(self.st, self.c0)
        self.I.objty[FOBJ] = F.ty_named("AnyFile") if any(t["s"] == "AnyFile" for t in F.tys) else None
        self.st.mem[FOBJ] = ("a", (bv(0, 8),))
        self.fh = rt.P(FOBJ)
        self.out = []

    def spec(self):
        s = World.__new__(World)
        s.F, s.I, s.E, s.f = self.F, self.I, self.E, rt.File(self.I, self.E, self.f.X[:32], self.f.N[:17], False)
        s.f.untils = self.f.untils
        s.f.seen = self.f.seen
        for a in ("until_bits", "short", "until_fixed"):
            if hasattr(self.f, a):
                setattr(s.f, a, getattr(self.f, a))
        s.st = State(1, {}, Trace())
        s.st.mem[FILE] = ("a", (("b", zext(self.c0, 64)), self.st.mem[FILE][1][1] if False else ("b", fresh("old", 8)), boolv(0), boolv(0)))
        return s

    def chk(self, cond, what, sites):
        if cond:
            cond = rt.consistent(self.I, cond)
        if cond:
            self.out.append((what, W(cond), sorted(set(sites))))


def key_of(F, name):
    ks = [k for k, i in F.insts.items() if i["nm"] == "vharness::" + name and i.get("body")]
    if len(ks) != 1:
        raise MissingAnchor(name)
    return ks[0]


def impl_site(F, I, name):
    """The repository function the entry point hands over to."""
    k = key_of(F, name)
    for bl in F.insts[k]["body"]["blocks"]:
        t = bl["t"]
        if t[0] == "call" and "i" in t[1] and "telda2" in F.insts[t[1]["i"]]["nm"]:
            return I.site(t[1]["i"], 0)
    return I.site(k, 0)


def le(x):
    return [x[:8], x[8:16]]


SEGS = {"Unknown": 0xff, "Zero": 0, "Data": 0x10, "RoData": 0x18, "Text": 0x20, "Heap": 0x70}


class Types:
    def __init__(self, F):
        self.t_seg = F.ty_named("telda2::aalv::obj::SegmentType")
        self.vs = [v["name"] for v in F.tys[self.t_seg]["v"]]
        if set(self.vs) != set(SEGS):
            raise MissingAnchor("segment types")
        self.w = clog2(len(self.vs))

    def code(self, v):
        r = const(0, 8)
        for i, n in enumerate(self.vs):
            r = vite(eqc(v[1], i), const(SEGS[n], 8), r)
        return r

    def decode(self, b):
        """(known, value)"""
        known, tag = 0, const(0, self.w)
        for i, n in enumerate(self.vs):
            c = eqc(b, SEGS[n])
            known = B.or_(known, c)
            tag = vite(c, const(i, self.w), tag)
        return known, ("e", tag, ((),) * len(self.vs))

    def assume(self, v):
        return bdd.ult(v[1], const(len(self.vs), self.w)) if len(self.vs) < 1 << self.w else 1


def fields(F, t):
    return [f[0] for f in F.tys[t]["v"][0]["f"]]


def get(F, t, v, name):
    fs = fields(F, t)
    if name not in fs:
        raise MissingAnchor(f"{F.tys[t]['s']}.{name}")
    return v[1][fs.index(name)]


STRUCT = {"entry": "Entry", "flags": "Flags", "stack": "StackSize", "heap": "HeapSize", "seg": "BinarySegment",
          "syms": "SymbolTable", "reloc": "RelocationTable"}
NAMES = {"entry": "_entry", "flags": "_flags", "stack": "_stack_size", "heap": "_heap_size", "seg": "_seg",
         "syms": "_syms", "reloc": "_reloc"}


def put_section(s, T, kind, t, v, bound):
    """Specification: write section v of the kind at the cursor of s."""
    F, f, st, I = s.F, s.f, s.st, s.I
    if kind == "entry":
        f.put_bytes(st, [T.code(v[1][0])] + le(v[1][1][1]))
    elif kind == "flags":
        f.put_lit(st, b"R", get(F, t, v, "readable_text")[1][0])
    elif kind in ("stack", "heap"):
        f.put_bytes(st, le(v[1][0][1]))
    elif kind == "seg":
        f.put_bytes(st, le(get(F, t, v, "offset")[1]) + [T.code(get(F, t, v, "stype"))])
        b = get(F, t, v, "bytes")
        f.put(st, rt.vlen(b), lambda d: rt.vget(I, b, d)[1])
    elif kind == "syms":
        vec = v[1][0]
        te = vec[1][1][1]
        for i in range(bound):
            g = bdd.ult(const(i, 64), rt.vlen(vec))
            e = rt.vget(I, vec, const(i, 64))
            f.put_lit(st, b" ", B.and_(g, B.not_(get(F, te, e, "is_global")[1][0])))
            nm = I.as_ptr(st, get(F, te, e, "name"))
            n = rt.slice_len(nm)
            f.put(st, n, lambda d: rt.slice_get(I, st, nm, d)[1], g)
            f.put_bytes(st, [const(0, 8), T.code(get(F, te, e, "segment_type"))] + le(get(F, te, e, "location")[1]), g)
    elif kind == "reloc":
        vec = v[1][0]
        te = vec[1][1][1]
        for i in range(bound):
            g = bdd.ult(const(i, 64), rt.vlen(vec))
            e = rt.vget(I, vec, const(i, 64))
            f.put_bytes(st, [T.code(get(F, te, e, "reference_segment"))] + le(get(F, te, e, "reference_location")[1])
                        + le(get(F, te, e, "symbol_index")[1]), g)


def seg_tags(I, v, T, t, F, bound, kind):
    """Well-formedness of the segment types in an unknown section."""
    if kind == "entry":
        return T.assume(v[1][0])
    if kind == "seg":
        return T.assume(get(F, t, v, "stype"))
    r = 1
    if kind in ("syms", "reloc"):
        vec = v[1][0]
        te = vec[1][1][1]
        for i in range(bound):
            r = B.and_(r, T.assume(get(F, te, rt.vget(I, vec, const(i, 64)), "segment_type" if kind == "syms" else "reference_segment")))
        r = B.and_(r, bdd.ult(rt.vlen(vec), const(bound + 1, 64)))
    return r


def write_codec(F, kind, bound=2):
    """Differences of one section's writer from its layout."""
    T = Types(F)
    w = World(F, cursor=None)
    I = w.I
    t = F.ty_named("telda2::aalv::obj::" + STRUCT[kind])
    v = I.fresh(t, kind)
    w.st.mem[OBJ] = v
    I.objty[OBJ] = t
    g0 = seg_tags(I, v, T, t, F, bound, kind)
    w.st.g = g0
    site = [impl_site(F, I, f"h_write_{kind}")]
    fs, rv = I.call(w.st, key_of(F, f"h_write_{kind}"), [rt.P(OBJ), w.fh])
    s = w.spec()
    s.st.mem.update({k: x for k, x in w.st.mem.items() if k not in s.st.mem})
    s.st.mem[OBJ] = v
    put_section(s, T, kind, t, v, bound)
    panics = [(g, p[1], p[2]) for p in I.panics for g in (p[0],) if g]
    if fs is None:
        w.out.append(("writing never returns", {}, site))
        return w.out, panics, I
    compare_files(w, fs, s, rv, site, B.and_(g0, fs.g))
    return w.out, panics, I


def differ(g, x, y):
    r = 0
    for a, b in zip(x, y):
        if a != b:
            r = B.or_(r, B.and_(B.and_(g, a), B.not_(b)))
            r = B.or_(r, B.and_(B.and_(g, b), B.not_(a)))
    return r


def compare_files(w, fs, s, rv, site, g):
    f = w.f
    bad = f.get(fs, 3)[0]
    err = B.not_(eqc(rv[1], 0))
    good = B.and_(g, B.not_(bad))
    w.chk(B.and_(B.and_(g, bad), B.not_(err)), "an I/O error is not reported", site)
    w.chk(B.and_(good, err), "reports an error although every operation succeeded", site)
    good = B.and_(good, B.not_(err))
    w.chk(differ(good, f.cursor(fs), s.f.cursor(s.st)), "the file position afterwards differs from its specified value", site)
    w.chk(B.and_(good, B.xor(f.get(fs, 2)[0], s.f.get(s.st, 2)[0])), "other positions of the file are written than specified", site)
    w.chk(differ(good, f.get(fs, 1), s.f.get(s.st, 1)), "a byte of the file differs from its specified value", site)


def sequence(I, st, v):
    """(length, element at i) of a vector or boxed string."""
    v = rt.natives.strip(v)
    if rt.is_vec(v):
        return rt.vlen(v), lambda i: rt.vget(I, v, i)
    p = I.as_ptr(st, v)
    return rt.slice_len(p), lambda i: rt.slice_get(I, st, p, i)


def read_codec(F, kind, bound=2):
    """Differences of one section's reader from its layout."""
    T = Types(F)
    bits = {"flags": 2, "reloc": 5, "syms": 6}.get(kind, 17)
    w = World(F, size=fresh("size", bits))
    I, f = w.I, w.f
    g0 = 1
    if kind == "reloc":
        g0 = bdd.ult(f.N, const(5 * bound + 3, 64))
    if kind == "flags":
        f.short = 3
    if kind == "syms":
        f.until_limit, f.until_limit_kind, f.until_bits = bound, "eof", 6
    w.st.g = g0
    site = [impl_site(F, I, f"h_read_{kind}")]
    fs, rv = I.call(w.st, key_of(F, f"h_read_{kind}"), [w.fh])
    panics = [(p[0], p[1], p[2]) for p in I.panics if p[0]]
    if fs is None:
        w.out.append(("reading never returns", {}, site))
        return w.out, panics, I
    g = fs.g
    bad = f.get(fs, 3)[0]
    err = B.not_(eqc(rv[1], 0))
    ok = B.not_(err)
    t = F.ty_named("telda2::aalv::obj::" + STRUCT[kind])
    v = rv[2][0][0] if rv[2][0] else U
    s = w.spec()
    st = s.st
    s.f.init(st, const(0, 32))
    byte = lambda i: f.byte(const(i, 64))
    le2 = lambda i: byte(i) + byte(i + 1)
    good = B.and_(g, B.not_(bad))
    w.chk(B.and_(B.and_(g, bad), ok), "an I/O error is not reported", site)

    def outcome(valid, exact, what="content"):
        w.chk(B.and_(good, B.and_(ok, B.not_(valid))), f"accepts a malformed {what}", site)
        w.chk(B.and_(good, B.and_(err, B.and_(valid, exact))), f"rejects a well-formed {what}", site)
        return B.and_(good, B.and_(ok, valid))

    def same(c, what, x, y):
        w.chk(differ(c, x, y), f"{what} differs from its specified value", site)
    least = lambda n: B.not_(bdd.ult(f.N, const(n, 64)))
    if kind == "entry":
        known, tag = T.decode(byte(0))
        c = outcome(B.and_(known, least(3)), eqc(f.N, 3))
        same(c, "the segment", v[1][0][1], tag[1])
        same(c, "the offset", v[1][1][1], le2(1))
    elif kind in ("stack", "heap"):
        c = outcome(least(2), eqc(f.N, 2))
        same(c, "the size", v[1][0][1], le2(0))
    elif kind == "flags":
        valid, any_ = 1, 0
        for i in range(3):
            there = bdd.ult(const(i, 64), f.N)
            valid = B.and_(valid, B.or_(B.not_(there), eqc(byte(i), ord("R"))))
            any_ = B.or_(any_, there)
        c = outcome(valid, 1)
        same(c, "the readable-text flag", get(F, t, v, "readable_text")[1], (any_,))
    elif kind == "seg":
        known, tag = T.decode(byte(2))
        c = outcome(B.and_(known, least(3)), 1)
        same(c, "the segment", get(F, t, v, "stype")[1], tag[1])
        same(c, "the offset", get(F, t, v, "offset")[1], le2(0))
        n, at = sequence(I, fs, get(F, t, v, "bytes"))
        same(c, "the number of bytes", n, bdd.sub(f.N, const(3, 64))[0])
        i = zext(fresh("index", 17), 64)
        same(B.and_(c, bdd.ult(i, n)), "a byte of the segment", at(i)[1], f.byte(bdd.add(i, const(3, 64))[0]))
    elif kind == "reloc":
        valid, exps = 1, []
        for k in range(bound + 1):
            there = bdd.ult(const(5 * k, 64), f.N)
            known, tag = T.decode(byte(5 * k))
            valid = B.and_(valid, B.or_(B.not_(there), B.and_(known, least(5 * k + 5))))
            exps.append((there, tag, le2(5 * k + 1), le2(5 * k + 3)))
        c = outcome(valid, 1)
        n, at = sequence(I, fs, v[1][0])
        te = rt.natives.strip(v[1][0])[1][1][1]
        cnt = const(0, 64)
        for k, (there, tag, loc, sym) in enumerate(exps):
            cnt = vite(there, const(k + 1, 64), cnt)
        same(c, "the number of entries", n, cnt)
        for k, (there, tag, loc, sym) in enumerate(exps):
            e = at(const(k, 64))
            ck = B.and_(c, B.and_(there, bdd.ult(const(k, 64), n)))
            if ck:
                same(ck, "the segment of an entry", get(F, te, e, "reference_segment")[1], tag[1])
                same(ck, "the location of an entry", get(F, te, e, "reference_location")[1], loc)
                same(ck, "the symbol of an entry", get(F, te, e, "symbol_index")[1], sym)
    elif kind == "syms":
        c0 = const(0, 64)
        live, valid, exps = 1, 1, []
        st.g = g0
        cnt = const(0, 64)
        sf = s.f
        for k in range(bound):
            there = bdd.ult(sf.cursor(st), f.N)
            live = B.and_(live, there)
            st.g = B.and_(st.g, there)
            ln, hit, cc = sf.until(st)
            sf.setf(st, 0, bdd.add(cc, ln)[0])
            av, bs = sf.take(st, 3)
            sf.advance(st, const(3, 64))
            known, tag = T.decode(bs[0])
            st.g = B.and_(st.g, B.and_(B.and_(hit, av), known))
            valid = B.and_(valid, B.or_(B.not_(live), B.and_(B.and_(hit, av), known)))
            cnt = vite(live, const(k + 1, 64), cnt)
            exps.append((live, cc, ln, tag, bs))
        c = outcome(valid, 1)
        n, at = sequence(I, fs, v[1][0])
        te = rt.natives.strip(v[1][0])[1][1][1]
        same(c, "the number of symbols", n, cnt)
        i = zext(fresh("index", 8), 64)
        for k, (there, cc, ln, tag, bs) in enumerate(exps):
            e = at(const(k, 64))
            ck = B.and_(c, B.and_(there, bdd.ult(const(k, 64), n)))
            if not ck:
                continue
            local = B.and_(eqc(f.byte(cc), ord(" ")), B.not_(eqc(ln, 1)))
            same(ck, "the binding of a symbol", get(F, te, e, "is_global")[1], (B.not_(local),))
            same(ck, "the segment of a symbol", get(F, te, e, "segment_type")[1], tag[1])
            same(ck, "the location of a symbol", get(F, te, e, "location")[1], bs[1] + bs[2])
            m, ch = sequence(I, fs, get(F, te, e, "name"))
            off = vite(local, const(1, 64), const(0, 64))
            same(ck, "the length of a symbol's name", m, bdd.sub(bdd.sub(ln, const(1, 64))[0], off)[0])
            same(B.and_(ck, bdd.ult(i, m)), "a byte of a symbol's name", ch(i)[1],
                 vite(local, f.byte(bdd.add(bdd.add(cc, const(1, 64))[0], i)[0], B.and_(ck, local)),
                      f.byte(bdd.add(cc, i)[0], B.and_(ck, B.not_(local)))))
    return w.out, panics, I


# ------------------------------------------------------------------ container
MAGIC = "álvur2\n".encode()
RDR, WTR, PRB = ("S", "reader"), ("S", "writer"), ("S", "content")


def run_drops(w):
    """Interpret the drop glue of container values (their destructor writes)."""
    F, I = w.F, w.I

    def hook(I, st, fr, body, t, site):
        if "AalvWriter<" not in F.insts[t[5]]["nm"]:
            return st
        targets, meta = I.place(st, fr, t[1])
        st, _ = I.call(st, t[5], [("p", tuple((g, (o, p)) for g, o, p in targets), meta)])
        return st
    I.drop_hook = hook


def panics_of(I):
    return [(p[0], p[1], p[2]) for p in I.panics if p[0]]


def is_ok(v):
    return eqc(v[1], 0)


def handle(w):
    return ("a", (bv(0, 8),))


def read_container(F, bound=1, size=17, name=6, fixed=(), lens=()):
    """The container's reader: section headers, one section's window, the end.
    fixed, lens: only files whose sections' names and contents have these lengths."""
    w = World(F, size=fresh("size", size), faults=False)
    I, f = w.I, w.f
    f.until_limit, f.until_limit_kind, f.until_bits = bound, "name", name
    f.until_fixed = fixed
    g0 = 1
    for i, b in enumerate(MAGIC):
        g0 = B.and_(g0, eqc(f.byte(const(i, 64)), b))
    at = len(MAGIC)
    for nl, n in zip(fixed, lens):
        for i in range(2):
            g0 = B.and_(g0, eqc(f.byte(const(at + nl + i, 64)), n >> 8 * i & 0xff))
        at += nl + 2 + n
    w.st.g = g0
    site_new = [impl_site(F, I, "h_reader_new")]
    site_sec = [impl_site(F, I, "h_reader_section")]
    site_end = [impl_site(F, I, "h_reader_end")]
    fs, rv = I.call(w.st, key_of(F, "h_reader_new"), [handle(w)])
    if fs is None:
        return [("never returns", {}, site_new)], panics_of(I), I
    s = w.spec()
    st, sf = s.st, s.f
    st.g = g0
    sf.init(st, const(len(MAGIC), 32))
    open_, ended, valid, secs = 1, 0, 1, []
    for k in range(bound + 1):
        ln, hit, cc = sf.until(st)
        sf.setf(st, 0, bdd.add(cc, ln)[0])
        if k == bound:
            # (worlds with a further section are left out)
            last = eqc(ln, 1)
            ended_now = B.and_(open_, B.and_(hit, last))
            valid = B.and_(valid, B.or_(B.not_(open_), B.and_(hit, last)))
            end_cur = vite(ended_now, sf.cursor(st), end_cur)
            break
        valid = B.and_(valid, B.or_(B.not_(open_), hit))
        stop = B.and_(open_, B.and_(hit, eqc(ln, 1)))
        end_cur = vite(stop, sf.cursor(st), sf.cursor(st) if k == 0 else end_cur)
        go = B.and_(open_, B.and_(hit, B.not_(eqc(ln, 1))))
        open_ = go
        st.g = B.and_(st.g, go)
        av, bs = sf.take(st, 2)
        valid = B.and_(valid, B.or_(B.not_(go), av))
        open_ = B.and_(open_, av)
        st.g = B.and_(st.g, av)
        n = zext(bs[0] + bs[1], 64)
        pos = bdd.add(sf.cursor(st), const(2, 64))[0]
        secs.append((open_, cc, ln, n, pos))
        sf.setf(st, 0, bdd.add(pos, n)[0])
    ok = is_ok(rv)
    g = fs.g
    w.chk(B.and_(g, B.and_(ok, B.not_(valid))), "accepts a file whose section headers are incomplete", site_new)
    w.chk(B.and_(g, B.and_(B.not_(ok), valid)), "rejects a well-formed file", site_new)
    fs = fs.fork(B.and_(ok, valid))
    if fs is None:
        return w.out, panics_of(I), I
    rd = rv[2][0][0]
    fs.mem[RDR] = rd
    I.objty[RDR] = F.ty_named("telda2::aalv::AalvReader<AnyFile>")

    def same(c, what, x, y, site):
        w.chk(differ(c, x, y), f"{what} differs from its specified value", site)
    fs, off = I.call(fs, key_of(F, "h_reader_offset"), [rt.P(RDR)])
    same(fs.g, "the position of the magic", off[1], const(0, 64), site_new)

    # the sections called "probe", in order
    def named(k):
        there, cc, ln, n, pos = secs[k]
        r = B.and_(there, eqc(ln, 6))
        for i, ch in enumerate(b"probe"):
            r = B.and_(r, eqc(f.byte(bdd.add(cc, const(i, 64))[0], r), ch))
        return r
    taken = [0] * bound
    for turn in range(bound):
        before = fs.g
        nsh = len(f.shorts)
        fs, ov = I.call(fs, key_of(F, "h_reader_peek" if fixed else "h_reader_section"), [rt.P(RDR)])
        if fs is None:
            w.out.append(("reading a section never returns", {}, site_sec))
            return w.out, panics_of(I), I
        g = fs.g
        some = eqc(ov[1], 1)
        found, pos, ln = 0, const(0, 64), const(0, 64)
        sel = []
        for k in range(bound):
            c = B.and_(named(k), B.and_(B.not_(taken[k]), B.not_(found)))
            pos, ln = vite(c, secs[k][4], pos), vite(c, secs[k][3], ln)
            found = B.or_(found, c)
            sel.append(c)
        taken = [B.or_(a, b) for a, b in zip(taken, sel)]
        w.chk(B.and_(g, B.xor(some, found)), "finds a section that is not there, or misses one that is", site_sec)
        c = B.and_(g, B.and_(some, found))
        if not ov[2][1]:
            continue
        res = ov[2][1][0]
        fits = B.and_(B.not_(bdd.ult(ln, const(2, 64))), B.not_(bdd.ult(f.N, bdd.add(pos, const(2, 64))[0])))
        w.chk(B.and_(c, B.and_(is_ok(res), B.not_(fits))), "a section's reader sees bytes beyond the section", site_sec)
        w.chk(B.and_(c, B.and_(B.not_(is_ok(res)), fits)), "a section's reader does not see the whole section", site_sec)
        c = B.and_(c, B.and_(is_ok(res), fits))
        if not c:
            continue
        p = res[2][0][0]
        tp = F.ty_named("Peek" if fixed else "Probe")
        for i in range(2):
            for k in range(bound):
                ck = B.and_(c, sel[k])
                if ck:
                    same(ck, "a byte of a section", get(F, tp, p, "head")[1][i][1] if get(F, tp, p, "head")[0] == "a" else
                         I.read_path(get(F, tp, p, "head"), (i,))[1], f.byte(bdd.add(secs[k][4], const(i, 64))[0], ck), site_sec)
        if fixed:
            continue
        m = get(F, tp, p, "firsts")[1]
        left = bdd.sub(ln, const(2, 64))[0]
        w.chk(B.and_(c, B.or_(bdd.ult(left, m), bdd.ult(const(4, 64), m))), "a section's reader sees bytes beyond the section", site_sec)
        ml = zext(m[:3], 64)
        c = B.and_(c, eq(m, ml))
        i = zext(fresh("index", 17), 64)
        n, at = sequence(I, fs, get(F, tp, p, "rest"))
        for k in range(bound):
            ck = B.and_(c, sel[k])
            if not ck:
                continue
            for j in range(4):
                cj = B.and_(ck, bdd.ult(const(j, 64), ml))
                if cj:
                    same(cj, "a byte of a section", I.read_path(get(F, tp, p, "first"), (j,))[1],
                         f.byte(bdd.add(secs[k][4], const(2 + j, 64))[0], cj), site_sec)
            base = bdd.add(bdd.add(secs[k][4], const(2, 64))[0], ml)[0]
            want = bdd.sub(bdd.sub(secs[k][3], const(2, 64))[0], ml)[0]
            same(ck, "the number of bytes of a section", n, want, site_sec)
            cj = B.and_(ck, B.and_(bdd.ult(i, n), bdd.ult(i, want)))
            same(cj, "a byte of a section", at(i)[1], f.byte(bdd.add(base, i)[0], cj), site_sec)
    fs, ev = I.call(fs, key_of(F, "h_reader_end"), [fs.mem[RDR]])
    if fs is None or B.and_(fs.g, B.not_(is_ok(ev))):
        w.out.append(("the end of the file is not reached", {}, site_end))
    else:
        same(fs.g, "the position after the last section", f.cursor(fs), end_cur, site_end)
    return w.out, panics_of(I), I


def find_magic(F, size=13):
    """The container's reader finds the first magic at or after the start."""
    w = World(F, cursor=fresh("start", 2), size=fresh("size", 4), faults=False)
    I, f = w.I, w.f
    cells = [("b", fresh(f"content{i}", 8, 8 + i)) for i in range(size)]

    def sel(i):
        c = to_int(i)
        if c is not None:
            return cells[c] if c < size else bv(0, 8)
        r = cells[-1]
        for k in range(size - 1):
            r = merge(eqc(i, k), cells[k], r)
        return r
    f.content = ("A", I.u8(), None, ("fn", sel))
    f.until_limit, f.until_limit_kind, f.until_bits = 0, "name", 2
    st0 = f.cursor(w.st)
    g0 = bdd.ult(f.N, const(size + 1, 64))
    w.st.g = g0
    site = [impl_site(F, I, "h_reader_new")]
    fs, rv = I.call(w.st, key_of(F, "h_reader_new"), [handle(w)])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    n = len(MAGIC)
    found, pos = 0, const(0, 64)
    for p in range(size - n + 1):
        here = B.and_(B.not_(bdd.ult(const(p, 64), st0)), B.not_(bdd.ult(f.N, const(p + n, 64))))
        for i, b in enumerate(MAGIC):
            here = B.and_(here, eqc(cells[p + i][1], b))
        first = B.and_(here, B.not_(found))
        pos = vite(first, const(p, 64), pos)
        found = B.or_(found, here)
    g, ok = fs.g, is_ok(rv)
    w.chk(B.and_(g, B.and_(ok, B.not_(found))), "accepts a file without the magic", site)
    # (after the magic: only the final zero, or nothing)
    ended = B.and_(B.var("name0.zero", 0, 0), eqc(fresh("name0.len", 2), 1))
    after = B.and_(ended, bdd.ult(bdd.add(pos, const(n, 64))[0], f.N))
    w.chk(B.and_(B.and_(g, found), B.and_(B.not_(ok), after)), "rejects a file that has the magic", site)
    w.chk(B.and_(B.and_(g, found), B.and_(ok, B.not_(after))), "accepts a file that ends after the magic", site)
    c = fs.fork(B.and_(ok, found))
    if c is None:
        w.out.append(("never finds the magic", {}, site))
        return w.out, panics_of(I), I
    c.mem[RDR] = rv[2][0][0]
    c, off = I.call(c, key_of(F, "h_reader_offset"), [rt.P(RDR)])
    w.chk(differ(c.g, off[1], pos), "the position of the magic differs from its specified value", site)
    c, ev = I.call(c, key_of(F, "h_reader_end"), [c.mem[RDR]])
    w.chk(B.and_(c.g, B.not_(is_ok(ev))), "the end of the file is not reached", site)
    w.chk(differ(c.g, f.cursor(c), bdd.add(pos, const(n + 1, 64))[0]), "the position after the final zero differs from its specified value", site)
    return w.out, panics_of(I), I


def write_container(F):
    """The container's writer: magic, one section, the final zero."""
    out, pans = [], []
    w = World(F, cursor=const(0, 32))
    I, f = w.I, w.f
    run_drops(w)
    sites = {n: [impl_site(F, I, n)] for n in ("h_writer_new", "h_writer_section")}
    off = zext(fresh("offset", 17), 64)
    tp = F.ty_named("Probe")
    v = I.fresh(tp, "probe")
    fs, rv = I.call(w.st, key_of(F, "h_writer_new"), [handle(w), ("b", off)])
    s = w.spec()
    sf, st = s.f, s.st
    st.mem[FILE] = ("a", (("b", off), ("b", fresh("old", 8)), boolv(0), boolv(0)))
    sf.put_lit(st, MAGIC)
    compare_files(w, fs, s, rv, sites["h_writer_new"], fs.g)
    good = B.and_(is_ok(rv), B.not_(f.get(fs, 3)[0]))
    fs = fs.fork(good)
    if fs is None:
        return w.out, panics_of(I), I
    fs.mem[WTR] = rv[2][0][0]
    fs.mem[PRB] = v
    I.objty[WTR] = F.ty_named("telda2::aalv::AalvWriter<AnyFile>")
    I.objty[PRB] = tp
    f.shorts = []
    fs, rv = I.call(fs, key_of(F, "h_writer_section"), [rt.P(WTR), rt.P(PRB)])
    if len(f.shorts) != 1:
        raise Unsupported("partial writes of a section")
    m = f.shorts[0][1]
    rest = get(F, tp, v, "rest")
    total = bdd.add(bdd.add(rt.vlen(rest), const(2, 64))[0], m)[0]
    st.mem[PRB] = v
    sf.put_lit(st, b"probe\0")
    sf.put_bytes(st, le(total))
    for i in range(2):
        sf.put_bytes(st, [I.read_path(get(F, tp, v, "head"), (i,))[1]])
    first = get(F, tp, v, "first")

    def at(d):
        r = I.read_path(first, (3,))[1]
        for i in range(3):
            r = vite(eqc(d, i), I.read_path(first, (i,))[1], r)
        return r
    sf.put(st, m, at)
    sf.put(st, rt.vlen(rest), lambda d: rt.vget(I, rest, d)[1])
    fit = bdd.ult(total, const(1 << 16, 64))
    err = B.not_(is_ok(rv))
    w.chk(B.and_(B.and_(fs.g, B.not_(fit)), B.not_(err)), "a section longer than its length field can say is written", sites["h_writer_section"])
    compare_files(w, fs, s, rv, sites["h_writer_section"], B.and_(fs.g, fit))
    fs = fs.fork(B.and_(B.and_(B.not_(err), fit), B.not_(f.get(fs, 3)[0])))
    pans = panics_of(I)
    if fs is None:
        return w.out, pans, I
    sf.put_lit(st, b"\0")
    for name in ("h_writer_finish", "h_writer_drop"):
        s1 = fs.fork(1)
        np = len(I.panics)
        s1, rv = I.call(s1, key_of(F, name), [fs.mem[WTR]])
        site = [impl_site(F, I, name)] if name == "h_writer_finish" else [I.site(key_of(F, name), 0)]
        if name == "h_writer_drop":
            # nobody to report to: with an I/O error it may panic
            rv = ("e", (0,), ((UNIT,), (U,)))
            s1.g = B.and_(s1.g, B.not_(f.get(s1, 3)[0]))
        else:
            pans += [(p[0], p[1], p[2]) for p in I.panics[np:] if p[0]]
        compare_files(w, s1, s, rv, site, s1.g)
    return w.out, pans, I


# -------------------------------------------------------------------- objects
OBJV = ("S", "object")
SECT = {"Entry": "entry", "Flags": "flags", "StackSize": "stack_size", "HeapSize": "heap_size",
        "SymbolTable": "symbols", "RelocationTable": "relocation_table"}


def read_object(F, bound=2):
    """Object::from_aalv_reader over arbitrary sections."""
    import maps
    T = Types(F)
    w = World(F, faults=False)
    I = w.I
    maps.install(I)
    site = [impl_site(F, I, "h_object_read")]
    E = w.E
    rx = re.compile(r"telda2::aalv::AalvReader::<vharness::AnyFile>::read_section::<telda2::aalv::obj::(\w+)>")
    got = {}

    def section(name, t):
        cell = ("S", f"reads of {name}")
        lim = bound + 1 if name == "BinarySegment" else 1

        def f(I, st, inst, args, site):
            n = rt.narrow(st.g, st.mem.get(cell, bv(0, 4))[1])
            out = None
            for i in range(lim):
                c = B.and_(st.g, eqc(n, i))
                if not c:
                    continue
                if (name, i) not in got:
                    got[name, i] = (B.var(f"{name}{i}?", 0, 0), B.var(f"{name}{i}!", 0, 0), I.fresh(t, f"{name}{i}"))
                some, bad, v = got[name, i]
                if name == "BinarySegment":
                    keep = B.or_(B.not_(some), T.assume(get(F, t, v, "stype")) if i < bound else 0)
                else:
                    keep = B.or_(B.not_(some), T.assume(v[1][0]) if name == "Entry" else 1)
                st.g = B.and_(st.g, B.or_(B.not_(eqc(n, i)), keep))
                x = ("e", (some,), ((), (rt.result(bad, v, E.any(f"{name}{i}.kind")),)))
                out = x if out is None else merge(eqc(n, i), x, out)
            if B.and_(st.g, B.not_(bdd.ult(n, const(lim, 4)))):
                raise Unsupported(f"section {name} read more than {lim} times")
            if out is None or not st.g:
                return None, None
            st.mem[cell] = ("b", bdd.add(n, const(1, 4))[0])
            return st, out
        return f
    for k, i in F.insts.items():
        m = rx.fullmatch(i["nm"])
        if m:
            I.models[i["nm"]] = section(m.group(1), F.ty_named("telda2::aalv::obj::" + m.group(1)))
    tr = F.ty_named("telda2::aalv::AalvReader<AnyFile>")
    rd = I.fresh(tr, "reader")
    secs = [i for i, f in enumerate(F.tys[tr]["v"][0]["f"]) if F.tys[f[1]].get("def", "").endswith("vec::Vec")]
    if len(secs) != 1:
        raise MissingAnchor("sections of the reader")
    vec = rd[1][secs[0]]
    nleft = rt.vlen(vec)
    g0 = bdd.ult(nleft, const(3, 64))
    w.st.mem[RDR] = rd
    I.objty[RDR] = tr
    w.st.g = g0
    off = I.call(w.st.fork(1), key_of(F, "h_reader_offset"), [rt.P(RDR)])[1][1]
    fs, rv = I.call(w.st, key_of(F, "h_object_read"), [rt.P(RDR)])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    # ---- what the sections say
    bad = 0
    segs = [got["BinarySegment", i] for i in range(bound + 1) if ("BinarySegment", i) in got]
    for n in SECT:
        if (n, 0) not in got:
            w.out.append((f"section {n} is not read", {}, site))
            return w.out, panics_of(I), I
    live = 1
    slots = [("e", (0,), ((), (U,)))] * len(T.vs)
    tb = F.ty_named("telda2::aalv::obj::BinarySegment")
    for some, err, v in segs:
        live = B.and_(live, some)
        bad = B.or_(bad, B.and_(live, err))
        live = B.and_(live, B.not_(err))
        tag = get(F, tb, v, "stype")[1]
        for i in range(len(T.vs)):
            c = B.and_(live, eqc(tag, i))
            bad = B.or_(bad, B.and_(c, slots[i][1][0]))
            slots[i] = merge(c, ("e", (1,), ((), (("a", (get(F, tb, v, "offset"), get(F, tb, v, "bytes"))),))), slots[i])
    for n in SECT:
        some, err, v = got[n, 0]
        bad = B.or_(bad, B.and_(some, err))
    for i in range(2):
        e = rt.vget(I, vec, const(i, 64))
        box = next(x for x in e[1] if x[0] != "b")
        p = I.as_ptr(w.st, box)
        c = B.and_(bdd.ult(const(i, 64), nleft), B.not_(eqc(rt.slice_len(p), 0)))
        bad = B.or_(bad, B.and_(c, eqc(rt.slice_get(I, fs, p, const(0, 64))[1], ord("_"))))
    g = fs.g
    ok = is_ok(rv)
    w.chk(B.and_(g, B.and_(ok, bad)), "accepts an object with a malformed, repeated or unexpected section", site)
    w.chk(B.and_(g, B.and_(B.not_(ok), B.not_(bad))), "rejects a well-formed object", site)
    c = B.and_(g, B.and_(ok, B.not_(bad)))
    if not c:
        return w.out, panics_of(I), I
    o = rv[2][0][0]
    to = F.ty_named("telda2::aalv::obj::Object")
    w.chk(differ(c, get(F, to, o, "file_offset")[1], off), "the position of the object in its file differs from its specified value", site)
    for n, fld in SECT.items():
        some, _, v = got[n, 0]
        x = get(F, to, o, fld)
        if fld in ("symbols", "relocation_table"):
            w.chk(B.and_(c, B.and_(some, B.not_(I.val_eq(x, v)))), f"{fld} differs from its section", site)
            cn = B.and_(c, B.not_(some))
            w.chk(B.and_(cn, B.not_(eqc(rt.vlen(x[1][0]), 0))), f"{fld} is not empty without its section", site)
        else:
            w.chk(B.and_(c, B.xor(eqc(x[1], 1), some)), f"{fld} is there without its section, or missing with it", site)
            cs = B.and_(c, some)
            if cs and x[2][1]:
                w.chk(B.and_(cs, B.not_(I.val_eq(x[2][1][0], v))), f"{fld} differs from its section", site)
    mslots = maps.slots(get(F, to, o, "segs"))
    for i, sl in enumerate(slots):
        w.chk(B.and_(c, B.xor(maps.has(mslots[i]), sl[1][0])), "a segment is lost or invented", site)
        cs = B.and_(c, B.and_(sl[1][0], maps.has(mslots[i])))
        if cs:
            w.chk(B.and_(cs, B.not_(I.val_eq(maps.val(mslots[i]), sl[2][1][0]))), "a segment differs from its section", site)
    return w.out, panics_of(I), I


def write_object(F):
    """Object::write_to_file: every part of the object becomes one section."""
    import maps
    T = Types(F)
    w = World(F)
    I, E = w.I, w.E
    maps.install(I)
    site = [impl_site(F, I, "h_object_write")]
    to = F.ty_named("telda2::aalv::obj::Object")
    o = I.fresh(to, "object")
    w.st.mem[OBJV] = o
    I.objty[OBJV] = to
    g0 = 1
    entry = get(F, to, o, "entry")
    g0 = B.and_(g0, B.or_(eqc(entry[1], 0), T.assume(entry[2][1][0][1][0])))
    w.st.g = g0
    log = []            # (kind, where, value at the time, failed, opened before)
    nf = itertools.count()
    opened, failed, done = ("S", "opened"), ("S", "failed"), ("S", "finished")
    for k in (opened, failed, done):
        w.st.mem[k] = boolv(0)

    def step(st, what):
        b = B.var(f"{what}{next(nf)}!", 0, 0)
        st.mem[failed] = boolv(B.or_(st.mem[failed][1][0], B.and_(st.g, b)))
        return b, E.any(f"{what}.kind")

    def open_(I, st, inst, args, site):
        b, e = step(st, "open")
        log.append(("open", st.g, args[1] if len(args) > 1 else bv(0, 64), st.mem[opened][1][0], st.mem[done][1][0]))
        st.mem[opened] = boolv(1)
        return st, rt.result(b, U, e)

    def section(name):
        def f(I, st, inst, args, site):
            b, e = step(st, name)
            log.append((name, st.g, rt.deref(I, st, args[1]), st.mem[opened][1][0], st.mem[done][1][0]))
            return st, rt.result(b, UNIT, e)
        return f

    def finish(I, st, inst, args, site):
        b, e = step(st, "finish")
        log.append(("finish", st.g, None, st.mem[opened][1][0], st.mem[done][1][0]))
        st.mem[done] = boolv(1)
        return st, rt.result(b, UNIT, e)
    n_open = 0
    for k, i in F.insts.items():
        m = re.fullmatch(r"telda2::aalv::AalvWriter::<.*>::write_section::<telda2::aalv::obj::(\w+)>", i["nm"])
        if m:
            I.models[i["nm"]] = section(m.group(1))
        if re.fullmatch(r"telda2::aalv::AalvWriter::<.*>::finish", i["nm"]):
            I.models[i["nm"]] = finish
        if re.fullmatch(r"telda2::aalv::write_aalv_file_with_offset::<.*>", i["nm"]):
            I.models[i["nm"]] = open_
            n_open += 1
    if not n_open:
        raise MissingAnchor("write_aalv_file_with_offset")
    path = ("p", ((1, (("S", "path"), (("s", const(0, 64)),))),), bv(1, 64))
    fs, rv = I.call(w.st, key_of(F, "h_object_write"), [rt.P(OBJV), path])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    g = fs.g
    ok = is_ok(rv)
    bad = fs.mem[failed][1][0]
    w.chk(B.and_(g, B.and_(bad, ok)), "an I/O error is not reported", site)
    w.chk(B.and_(g, B.and_(B.not_(bad), B.not_(ok))), "reports an error although every operation succeeded", site)
    good = B.and_(g, B.and_(ok, B.not_(bad)))
    w.chk(B.and_(good, B.not_(fs.mem[opened][1][0])), "the file is not written", site)
    w.chk(B.and_(good, B.not_(fs.mem[done][1][0])), "the file is not completed before success is reported", site)
    count = {}
    for kind, lg, v, op, dn in log:
        if kind != "open":
            w.chk(B.and_(lg, B.not_(op)), "a section is written before the file is opened", site)
        else:
            w.chk(B.and_(lg, op), "the file is opened twice", site)
            w.chk(differ(lg, v[1], get(F, to, o, "file_offset")[1]), "the file is written at another position than the object's", site)
        w.chk(B.and_(lg, dn), "something is written after the end of the file", site)
    tb = F.ty_named("telda2::aalv::obj::BinarySegment")

    def events(kind, cond, val_ok, what, there):
        """Where good, cond holds: exactly one event of the kind with the right value."""
        once, twice = 0, 0
        for k, lg, v, _, _ in log:
            if k != kind:
                continue
            here = B.and_(lg, cond(v))
            twice = B.or_(twice, B.and_(once, here))
            once = B.or_(once, here)
            c = B.and_(B.and_(good, here), there)
            if c:
                w.chk(B.and_(c, B.not_(val_ok(v))), f"{what} is not written as it is", site)
        w.chk(B.and_(B.and_(good, there), B.not_(once)), f"{what} is not written", site)
        w.chk(B.and_(B.and_(good, there), twice), f"{what} is written twice", site)
        w.chk(B.and_(B.and_(good, B.not_(there)), once), f"{what} is written although the object has none", site)
    for n, fld in SECT.items():
        x = get(F, to, o, fld)
        if fld in ("symbols", "relocation_table"):
            # an empty table may be written or left out
            nz = B.not_(eqc(rt.vlen(x[1][0]), 0))
            if not any(k == n for k, *_ in log):
                w.chk(B.and_(good, nz), f"{fld} is not written", site)
                continue
            keep = good
            good = B.and_(good, nz)
            events(n, lambda v: 1, lambda v: I.val_eq(v, x), fld, 1)
            good = keep
        else:
            events(n, lambda v: 1, lambda v: I.val_eq(v, x[2][1][0]), fld, eqc(x[1], 1))
    ms = maps.slots(get(F, to, o, "segs"))
    for i, n in enumerate(T.vs):
        def val_ok(v):
            p = maps.val(ms[i])
            return B.and_(I.val_eq(get(F, tb, v, "offset"), p[1][0]), vec_same(I, get(F, tb, v, "bytes"), p[1][1]))
        events("BinarySegment", lambda v: eqc(get(F, tb, v, "stype")[1], i), val_ok, f"the {n} segment", maps.has(ms[i]))
    return w.out, panics_of(I), I


def vec_same(I, x, y):
    """Two vectors have the same length and the same element at an arbitrary index."""
    i = zext(fresh("index", 17), 64)
    n, at = rt.vlen(x), rt.vget(I, x, i)
    return B.and_(eq(n, rt.vlen(y)), B.or_(B.not_(bdd.ult(i, n)), I.val_eq(at, rt.vget(I, y, i))))


def file_length():
    return zext(fresh("old length", 17), 64)


KINDS = ("read", "write", "append", "truncate", "create", "create_new")


def fs_models(w, f, log):
    """Opening files: the options, the calls to open and set_len are recorded."""
    F, I, E = w.F, w.I, w.E

    def reg(pat, g):
        rx = re.compile(pat)
        for i in F.insts.values():
            m = rx.fullmatch(i["nm"])
            if m:
                I.models[i["nm"]] = (lambda g, m: lambda I, st, inst, args, site: g(st, m, args))(g, m)

    def new(st, m, args):
        return st, ("a", (boolv(0),) * 6)

    def setopt(st, m, args):
        i = KINDS.index(m.group(1))
        rt.upd(I, st, args[0], lambda v: ("a", v[1][:i] + (args[1],) + v[1][i + 1:]))
        return st, args[0]

    def opened(st, opts):
        b, e = f.fault(st)
        log.append(("open", st.g, opts))
        return st, rt.result(b, ("a", (bv(0, 8),)), e)

    def open_(st, m, args):
        return opened(st, rt.deref(I, st, args[0]))

    def create(st, m, args):
        return opened(st, ("a", tuple(boolv(1 if k in ("write", "create", "truncate") else 0) for k in KINDS)))

    def openr(st, m, args):
        return opened(st, ("a", tuple(boolv(1 if k == "read" else 0) for k in KINDS)))

    def set_len(st, m, args):
        b, e = f.fault(st)
        log.append(("set_len", st.g, args[1], f.get(st, 2)[0]))
        return st, rt.result(b, UNIT, e)
    reg(r"std::fs::File::options|std::fs::OpenOptions::new", new)
    reg(r"std::fs::OpenOptions::(" + "|".join(KINDS) + ")", setopt)
    reg(r"std::fs::OpenOptions::open::<.*>", open_)
    reg(r"std::fs::File::create::<.*>", create)
    reg(r"std::fs::File::open::<.*>", openr)
    reg(r"std::fs::File::set_len", set_len)

    def metadata(st, m, args):
        b, e = f.fault(st)
        return st, rt.result(b, ("o", ("S", "metadata")), e)
    reg(r"std::fs::File::metadata|std::fs::metadata::<.*>", metadata)
    reg(r"std::fs::Metadata::len", lambda st, m, args: (st, ("b", file_length())))


def open_for_writing(F):
    """write_aalv_file_with_offset: what is before the offset stays, the rest goes."""
    w = World(F)
    I, f = w.I, w.f
    run_drops(w)
    log = []
    fs_models(w, f, log)
    ks = [k for k, i in F.insts.items() if re.fullmatch(r"telda2::aalv::write_aalv_file_with_offset::<.*>", i["nm"]) and i.get("body")]
    if len(ks) != 1:
        raise MissingAnchor("write_aalv_file_with_offset")
    site = [I.site(ks[0], 0)]
    off = zext(fresh("offset", 17), 64)
    path = ("p", ((1, (("S", "path"), (("s", const(0, 64)),))),), bv(1, 64))
    fs, rv = I.call(w.st, ks[0], [path, ("b", off)])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    s = w.spec()
    sf, st = s.f, s.st
    sf.setf(st, 0, off)
    sf.put_lit(st, MAGIC)
    compare_files(w, fs, s, rv, site, fs.g)
    good = B.and_(fs.g, B.and_(is_ok(rv), B.not_(f.get(fs, 3)[0])))
    n_open, n_len = 0, eq(off, file_length())
    for e in log:
        c = B.and_(good, e[1])
        if e[0] == "open":
            w.chk(B.and_(c, n_open), "the file is opened twice", site)
            n_open = B.or_(n_open, e[1])
            o = {k: e[2][1][i][1][0] for i, k in enumerate(KINDS)}
            w.chk(B.and_(c, B.not_(o["write"])), "the file is not opened for writing", site)
            w.chk(B.and_(c, B.not_(o["create"])), "a file that does not exist is not created", site)
            w.chk(B.and_(c, o["create_new"]), "a file that exists is not opened", site)
            w.chk(B.and_(c, B.or_(o["append"], B.and_(o["truncate"], B.not_(eqc(off, 0))))), "what is before the object in the file is not kept", site)
            trunc = o["truncate"]
        else:
            w.chk(B.and_(c, e[3]), "the file is cut after it is written to", site)
            w.chk(differ(c, e[2][1], off), "the file is not cut at the object's position", site)
            n_len = B.or_(n_len, e[1])
    w.chk(B.and_(good, B.not_(n_open)), "the file is not opened", site)
    w.chk(B.and_(good, B.not_(B.or_(n_len, B.and_(n_open, trunc)))), "what was in the file after the object stays", site)
    return w.out, panics_of(I), I


def section_name(F, kind):
    """The name a section is stored under differs from the documented one?"""
    w = World(F)
    site = [w.I.site(key_of(F, f"h_name_{kind}"), 0)]
    fs, v = w.I.call(w.st, key_of(F, f"h_name_{kind}"), [])
    b = w.I.const_str(v)
    if b is None:
        raise Unsupported("name of a section")
    if b.decode() != NAMES[kind]:
        w.out.append((f"the section is called {b.decode()!r} and not {NAMES[kind]!r}", {}, site))
    return w.out, panics_of(w.I), w.I
