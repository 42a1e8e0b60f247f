"""source::process over an arbitrary sequence of source lines."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import atom, State, Trace, bv, boolv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import asm
import maps
import natives
import objfile
import rt
from objfile import World, get, fields, is_ok, panics_of, W

MAXS = 7          # longest name considered
DATA = ("Ins", "DirByte", "DirWide", "DirString")


def small_string(I, name, size=MAXS):
    """A string of 1 to size arbitrary bytes."""
    cells = [("b", fresh(f"{name}.{i}", 8, 30 + i)) for i in range(size)] + [bv(0, 8)] * (MAXS - size)
    n = zext(fresh(f"{name}.len", clog2(size + 1), 29), 64)

    def sel(i):
        c = to_int(i)
        if c is not None:
            return cells[c] if c < MAXS else bv(0, 8)
        r = cells[-1]
        for k in range(MAXS - 1):
            r = merge(eqc(i, k), cells[k], r)
        return r
    return ("a", (("b", n), ("A", I.u8(), None, ("fn", sel))))


SEGS = (b"data", b"rodata", b"text", b"heap", b"zero", b"unknown", b"x", b"stack")


def seg_string(I, name):
    """One of a few segment names."""
    s = fresh(f"{name}.segment", 3, 0)
    n, cells = const(0, 64), [const(0, 8)] * MAXS
    for i, b in enumerate(SEGS):
        c = eqc(s, i)
        n = vite(c, const(len(b), 64), n)
        cells = [vite(c, const(b[k] if k < len(b) else 0, 8), x) for k, x in enumerate(cells)]

    def sel(i):
        c = to_int(i)
        if c is not None:
            return ("b", cells[c]) if c < MAXS else bv(0, 8)
        r = cells[-1]
        for k in range(MAXS - 1):
            r = vite(eqc(i, k), cells[k], r)
        return ("b", r)
    return ("a", (("b", n), ("A", I.u8(), None, ("fn", sel))))


def same_text(I, st, a, b):
    """Equality of two strings, at most MAXS bytes long."""
    whole = 0
    la, lb = rt.slice_len(a), rt.slice_len(b)
    for ga, ta in a[1]:
        for gb, tb in b[1]:
            c = B.and_(st.g, B.and_(ga, gb))
            if not c:
                continue
            na, nb = rt.narrow(c, la), rt.narrow(c, lb)
            r = B.and_(c, eq(na, nb))
            if r and ta == tb:
                whole = B.or_(whole, r)
                continue
            for i in range(MAXS):
                inside = bdd.ult(const(i, 64), na)
                if not B.and_(r, inside):
                    break
                i = const(i, 64)
                x = rt.slice_get(I, st, ("p", ((1, ta),), a[2]), i)
                y = rt.slice_get(I, st, ("p", ((1, tb),), b[2]), i)
                r = B.and_(r, B.or_(B.not_(inside), eq(rt.narrow(c, x[1]), rt.narrow(c, y[1]))))
            whole = B.or_(whole, r)
    return rt.where(st.g, whole)


def vec_text(I, a, b):
    la, lb = rt.vlen(a), rt.vlen(b)
    r = eq(la, lb)
    for i in range(MAXS):
        i = const(i, 64)
        r = B.and_(r, B.or_(B.not_(bdd.ult(i, la)), I.val_eq(rt.vget(I, a, i), rt.vget(I, b, i))))
    return r


class Lines:
    """What the parser of one source delivers."""

    def __init__(self, P, name, n, only=None, ban=(), short=False):
        I, F = P.I, P.F
        self.name, self.n = name, n
        self.bad = B.var(f"{name}.parse error", 0, 0)
        self.text, self.seg, self.line, self.tag = [], [], [], []
        self.care = 1
        vs = P.lv
        w = clog2(len(vs))
        for k in range(n):
            s = small_string(I, f"{name}{k}", 2 if short else MAXS)
            seg = seg_string(I, f"{name}{k}") if short else s
            self.seg.append(seg)
            self.text.append(s)
            tag = fresh(f"{name}{k}.kind", w, 0)
            pays = []
            for v in vs:
                p = []
                for j, (_, t, *_r) in enumerate(v["f"]):
                    ts = F.tys[t]["s"]
                    if ts.endswith("string::String"):
                        p.append(seg if v["name"] == "DirSeg" else s)
                    elif ts.endswith("vec::Vec<u8>"):
                        p.append(rt.fresh_vec(I, I.u8(), f"{name}{k}.{v['name']}", 17))
                    elif "Result<u16" in ts:
                        p.append(("e", (B.var(f"{name}{k}.is label", 0, 0),), ((("b", fresh(f"{name}{k}.wide", 16)),), (s,))))
                    else:
                        p.append(I.fresh(t, f"{name}{k}.{v['name']}"))
                pays.append(tuple(p))
            self.line.append(("e", tag, tuple(pays)))
            self.tag.append(tag)
            c = bdd.ult(tag, const(len(vs), w)) if len(vs) < 1 << w else 1
            for i, v in enumerate(vs):
                if v["name"] in ban or (only and k in only and v["name"] not in only[k]):
                    c = B.and_(c, B.not_(eqc(tag, i)))
            self.care = B.and_(self.care, B.and_(c, B.not_(eqc(rt.vlen(s), 0))))

    def next(self, P, st):
        cell = ("S", f"lines of {self.name}")
        i = rt.narrow(st.g, st.mem[cell][1])
        r = ("e", (0,), ((), (("a", (bv(0, 32), self.line[0])),)))
        for k in range(self.n):
            x = ("e", (1,), ((), (("a", (("b", const(k + 1, 32)), self.line[k])),)))
            r = merge(eqc(i, k), x, r)
        st.mem[cell] = ("b", vite(eqc(i, self.n + 1), i, bdd.add(i, const(1, 4))[0]))
        return r


class Process:
    def __init__(self, F, n, inner=0, only=None, short=False):
        self.F = F
        self.w = World(F, faults=False)
        self.I = I = self.w.I
        maps.install(I)
        self.tl = F.ty_named("telda2::source::SourceLine")
        self.lv = F.tys[self.tl]["v"]
        for nm in ("Label", "Ins", "Comment", "DirInclude", "DirString", "DirByte", "DirWide", "DirGlobal", "DirReference",
                   "DirSeg", "DirEntry"):
            if nm not in [v["name"] for v in self.lv]:
                raise MissingAnchor(f"source line {nm}")
        self.outer = Lines(self, "line", n, only, () if inner else ("DirInclude",), short)
        self.inner = Lines(self, "included", inner, None, ("DirInclude",), short) if inner else None
        self.noopen = B.var("include cannot be opened", 0, 0)
        self.tdat = F.ty_named("telda2::source::DataOperand")
        self.ins = {}
        self.models()

    def reg(self, pat, f, need=False):
        rx = re.compile(pat)
        n = 0
        for i in self.F.insts.values():
            if rx.fullmatch(i["nm"]):
                self.I.models[i["nm"]] = f
                n += 1
        if need and not n:
            raise MissingAnchor(pat)

    def errty(self):
        return self.F.ty_named("telda2::source::Error")

    def kind(self, L, k, *names):
        r = 0
        for i, v in enumerate(self.lv):
            if v["name"] in names:
                r = B.or_(r, eqc(L.tag[k], i))
        return r

    def models(self):
        F, I = self.F, self.I

        def next_line(L):
            def f(I, st, inst, args, site):
                if L is None:
                    raise Unsupported("an included file")
                cell = ("S", f"lines of {L.name}")
                first = eqc(st.mem[cell][1], 0)
                for g, o, p in rt.targets(I, st, args[0]):
                    v = I.read_path(I.load_obj(st, o), p)
                    t = F.ty_named("telda2::source::SourceLines<AnyFile>")
                    i = next(i for i, x in enumerate(F.tys[t]["v"][0]["f"]) if "Option<" in F.tys[x[1]]["s"] and "Error" in F.tys[x[1]]["s"])
                    e = merge(B.and_(first, L.bad), ("e", (1,), ((), (self.err(),))), v[1][i])
                    st.mem[o] = I.write_path(I.load_obj(st, o), p + (i,), e, g)
                return st, L.next(self, st)
            return f
        self.reg(r"telda2::source::SourceLines::<vharness::AnyFile>::parse_next_line", next_line(self.outer), True)
        self.reg(r"telda2::source::SourceLines::<std::io::BufReader<std::fs::File>>::parse_next_line", next_line(self.inner), True)

        def open_(I, st, inst, args, site):
            t = F.ty_named("telda2::source::SourceLines<AnyFile>")
            return st, ("e", (self.noopen,), ((self.lines(),), (self.err(),)))
        self.reg(r"telda2::source::SourceLines::<std::io::BufReader<std::fs::File>>::new::<.*>", open_, True)

        # (where an included file is looked for does not matter)
        def strip_prefix(I, st, inst, args, site):
            return st, ("e", (B.var("absolute path", 0, 0),), ((), (args[0],)))
        self.reg(r"core::str::<impl str>::strip_prefix::<char>", strip_prefix)

        def some_path(I, st, inst, args, site):
            obj = ("S", "path")
            return st, ("p", ((1, (obj, (("s", const(0, 64)),))),), ("b", zext(fresh("path.len", 16), 64)))
        self.reg(r"std::path::Path::new::<.*>|<std::path::PathBuf as std::ops::Deref>::deref", some_path)
        self.reg(r"std::path::Path::(with_file_name|join)::<.*>", lambda I, st, inst, args, site: (st, atom("path")))
        self.reg(r"std::ptr::drop_glue::<std::path::PathBuf>", lambda I, st, inst, args, site: (st, UNIT))

        k = asm.find_fn(F, "telda2::source::parse_ins",
                        ["&str", "std::vec::Vec<telda2::source::SourceOperand>",
                         "&mut telda2::source::symbols::Symbols", "telda2::source::SourceLocation"])
        self.ins_ty = F.insts[k]["body"]["locals"][0]
        I.models[F.insts[k]["nm"]] = self.ins_model
        # (messages do not matter)
        self.reg(r"alloc::fmt::format|std::fmt::format", lambda I, st, inst, args, site: (st, rt.vec_empty(I, I.u8())))
        self.reg(r"core::fmt::rt::Argument::<.*>::new_.*|core::fmt::rt::Argument::new_.*|std::fmt::Arguments::(new|from_str).*", lambda I, st, inst, args, site: (st, atom("text")))
        # (which error is reported is left open, only that there is one)
        for k, i in F.insts.items():
            b = i.get("body")
            if b and i["nm"].startswith(("telda2::source::", "<telda2::source::")) and F.tys[b["locals"][0]]["s"] == "telda2::source::Error":
                I.models[i["nm"]] = lambda I, st, inst, args, site: (st, self.err())
        self.reg(r"telda2::source::Error::chain", lambda I, st, inst, args, site: (st, self.err()))
        def str_eq(I, st, inst, args, site):
            a, b = (I.as_ptr(st, x) for x in args)
            while a[2] is None:
                a = I.as_ptr(st, rt.deref(I, st, a))
            while b[2] is None:
                b = I.as_ptr(st, rt.deref(I, st, b))
            r = same_text(I, st, a, b)
            return st, boolv(B.not_(r) if inst["nm"].endswith("::ne") else r)
        self.reg(r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)|std::cmp::impls::<impl std::cmp::PartialEq for &(mut )?str>::(eq|ne)", str_eq)
        self.reg(r"<std::boxed::Box<str> as std::clone::Clone>::clone", lambda I, st, inst, args, site: (st, rt.deref(I, st, args[0])))

    def err(self):
        return atom("error")

    def lines(self):
        t = self.F.ty_named("telda2::source::SourceLines<AnyFile>")
        v = self.I.fresh(t, "source")
        fs = list(v[1])
        for i, x in enumerate(self.F.tys[t]["v"][0]["f"]):
            if "Option<" in self.F.tys[x[1]]["s"] and "Error" in self.F.tys[x[1]]["s"]:
                fs[i] = ("e", (0,), ((), (U,)))
        return ("a", tuple(fs))

    def ins_model(self, I, st, inst, args, site):
        """The encoder as an unknown partner: one unknown answer per line."""
        cell = ("S", "lines of " + self.outer.name)
        r = None
        for L in (self.outer, self.inner):
            if L is None:
                continue
            i = st.mem[("S", f"lines of {L.name}")][1]
            i = rt.narrow(st.g, i)
            for k in range(L.n):
                c = eqc(i, k + 1)
                if L is self.outer and self.inner is not None:
                    # (while an included file is read, its lines count)
                    c = B.and_(c, B.not_(self.in_inner(st)))
                if L is self.inner:
                    c = B.and_(c, self.in_inner(st))
                if B.and_(st.g, c):
                    v = self.ins_result(L, k)
                    r = v if r is None else merge(c, v, r)
        return st, r

    def in_inner(self, st):
        """Is the line being processed one of the included file?"""
        i = rt.narrow(st.g, st.mem[("S", f"lines of {self.inner.name}")][1])
        return B.and_(B.not_(eqc(i, 0)), bdd.ult(i, const(self.inner.n + 1, 4)))

    def ins_result(self, L, k):
        key = (L.name, k)
        if key not in self.ins:
            self.ins[key] = self.I.fresh(self.ins_ty, f"{L.name}{k}.ins")
        return self.ins[key]


def run(F, n=2, inner=0, only=None, short=False):
    global LAST
    P = LAST = Process(F, n, inner, only, short)
    w, I = P.w, P.I
    w.st.g = P.outer.care
    for L in (P.outer, P.inner):
        if L is not None:
            w.st.mem[("S", f"lines of {L.name}")] = bv(0, 4)
    if P.inner:
        w.st.g = B.and_(w.st.g, P.inner.care)
        # (the included file is read once)
        for a in range(n):
            for b in range(a):
                both = B.and_(P.kind(P.outer, a, "DirInclude"), P.kind(P.outer, b, "DirInclude"))
                w.st.g = B.and_(w.st.g, B.not_(both))
    site = [objfile.impl_site(F, I, "h_process")]
    fs, rv = I.call(w.st, objfile.key_of(F, "h_process"), [P.lines()])
    return P, fs, rv, site


def num(v, w=64):
    return zext(v, w)


def spec(P, fs, rv, site):
    """Compare the processed source with what the lines say."""
    F, I, w = P.F, P.I, P.w
    g = fs.g
    names = maps.order(I, F.ty_named("telda2::aalv::obj::SegmentType"))
    vs = F.tys[F.ty_named("telda2::aalv::obj::SegmentType")]["v"]
    ix = {v["name"]: i for i, v in enumerate(vs)}
    SV = {b"data": ix["Data"], b"rodata": ix["RoData"], b"text": ix["Text"], b"heap": ix["Heap"]}
    tw = clog2(len(vs))
    unk = const(ix["Unknown"], tw)
    ns = len(vs)
    W_ = 20
    care = fs.g
    size = [const(0, W_)] * ns           # bytes so far
    err = 0
    fsz = asm.find_fn(F, "telda2::source::DataOperand::size", ["&telda2::source::DataOperand"])
    rows = []                            # (condition, line tag, segment, address before, ...) of every line
    entry_set, entries = 0, []

    def wrong_address(c, seg, addr, cur, at):
        """Where (within c) an address is not the place `at` (per segment) of segment cur."""
        r = val_differs(c, ("b", seg), ("b", cur))
        for i in range(ns):
            ci = B.and_(c, eqc(cur, i))
            if ci:
                want = bdd.add(rt.narrow(ci, at[i]), rt.narrow(ci, start[i]))[0]
                r = B.or_(r, objfile.differ(ci, rt.narrow(ci, num(addr, W_)), rt.narrow(ci, want)))
        return r

    def walk(L, k, cond, cur):
        nonlocal size, err, entry_set
        kd = lambda *n: B.and_(cond, P.kind(L, k, *n))
        s = L.text[k]
        # --- segment
        c = kd("DirSeg")
        known, new = 0, cur
        for b, i in SV.items():
            h = bytes_are(I, L.seg[k], b)
            known = B.or_(known, h)
            new = vite(B.and_(c, h), const(i, tw), new)
        err = B.or_(err, B.and_(c, B.not_(known)))
        # --- entry
        c = kd("DirEntry")
        err = B.or_(err, B.and_(c, entry_set))
        entries.append((B.and_(c, B.not_(entry_set)), cur, list(size)))
        entry_set = B.or_(entry_set, c)
        # --- data
        n, data = const(0, W_), None
        line = L.line[k]
        td = F.ty_named("telda2::source::DataLine")
        dv = {v["name"]: i for i, v in enumerate(F.tys[td]["v"])}
        pay = {v["name"]: line[2][i] for i, v in enumerate(P.lv)}
        bad = 0
        ci = kd("Ins")
        ins_ok = 0
        if ci:
            r = P.ins_result(L, k)
            some = B.and_(is_ok(r), eqc(r[2][0][0][1], 1)) if r[2][0][0][0] == "e" else 0
            bad = B.or_(bad, B.and_(ci, B.not_(some)))
            ins_ok = B.and_(ci, some)
            x = r[2][0][0][2][1][0]
            op, dat = x[1]
            o = ("S", f"dat{L.name}{k}")
            s0 = State(1, {o: dat}, Trace())
            I.objty[o] = P.tdat
            s1, sz = I.call(s0, fsz, [rt.P(o)])
            n = vite(ins_ok, bdd.add(const(1, W_), num(sz[1], W_))[0], n)
            data = ("e", const(dv["Ins"], clog2(len(dv))), pays(dv, "Ins", (op, dat)))
        cb = kd("DirByte")
        n = vite(cb, const(1, W_), n)
        cs = kd("DirString")
        n = vite(cs, rt.vlen(pay["DirString"][0])[:W_], n)
        cw = kd("DirWide")
        n = vite(cw, const(2, W_), n)
        isdata = B.or_(B.or_(ins_ok, cb), B.or_(cs, cw))
        err = B.or_(err, bad)
        err = B.or_(err, B.and_(isdata, eq(cur, unk)))
        before = list(size)
        # (what becomes of an incorrect program does not matter)
        live = B.and_(care, B.not_(err))
        cur = rt.narrow(live, cur)
        for i in range(ns):
            c = B.and_(live, B.and_(isdata, eqc(cur, i)))
            if not c:
                continue
            sum_ = bdd.add(rt.narrow(c, size[i]), rt.narrow(c, n))[0]
            over = B.and_(c, bdd.ult(const(0xffff, W_), sum_))
            err = B.or_(err, over)
            live = B.and_(live, B.not_(over))
            size[i] = rt.narrow(live, vite(B.restrict(c, live), rt.narrow(live, sum_), size[i]))
        rows.append(dict(c=cond, L=L, k=k, cur=cur, at=before, isdata=isdata, ins=ins_ok, byte=cb, string=cs,
                         wide=cw, pay=pay, data=data, label=kd("Label"), glob=kd("DirGlobal"), ref=kd("DirReference"),
                         text=s))
        return new

    cur = unk
    err = B.or_(err, P.outer.bad)
    for k in range(P.outer.n):
        if P.inner is not None:
            inc = P.kind(P.outer, k, "DirInclude")
            err = B.or_(err, B.and_(inc, P.noopen))
            op = B.and_(inc, B.not_(P.noopen))
            err = B.or_(err, B.and_(op, P.inner.bad))
            c2 = unk
            for j in range(P.inner.n):
                c2 = walk(P.inner, j, op, c2)
        cur = walk(P.outer, k, 1, cur)
    # ---- where the segments start
    start, big = [const(0, W_)] * ns, 0
    end = const(128, W_)
    present = [0] * ns
    for r in rows:
        for i in range(ns):
            present[i] = B.or_(present[i], B.and_(r["isdata"], eqc(r["cur"], i)))
    live = B.and_(care, B.not_(err))
    for i in names:
        c = B.and_(live, present[i])
        if not c:
            continue
        up = bdd.add(rt.narrow(c, end), const(127, W_))[0]
        up = (0,) * 7 + up[7:]
        start[i] = vite(B.restrict(present[i], live), up, start[i])
        e2 = bdd.add(up, rt.narrow(c, size[i]))[0]
        over = B.and_(c, bdd.ult(const(0xffff, W_), e2))
        big = B.or_(big, over)
        live = B.and_(live, B.not_(over))
        end = rt.narrow(live, vite(B.restrict(c, live), rt.narrow(live, e2), end))
    # ---- symbols
    n = len(rows)
    same = {}
    for a in range(n):
        for b in range(a):
            same[a, b] = same[b, a] = vec_text(I, rows[a]["text"], rows[b]["text"])
        same[a, a] = 1
    for r in rows:
        r["uselab"] = B.and_(r["wide"], eqc(r["pay"]["DirWide"][0][1], 1))
        r["mention"] = B.or_(B.or_(r["label"], r["glob"]), B.or_(r["ref"], r["uselab"]))
    syms = []
    for a in range(n):
        first = rows[a]["mention"]
        defd = glob = ref = 0
        for b in range(n):
            if b < a:
                first = B.and_(first, B.not_(B.and_(rows[b]["mention"], same[a, b])))
            d = B.and_(rows[b]["label"], same[a, b])
            err = B.or_(err, B.and_(rows[a]["mention"], B.and_(B.and_(d, defd), 1)))
            defd = B.or_(defd, d)
            glob = B.or_(glob, B.and_(rows[b]["glob"], same[a, b]))
            ref = B.or_(ref, B.and_(rows[b]["ref"], same[a, b]))
        m = rows[a]["mention"]
        err = B.or_(err, B.and_(m, B.and_(defd, ref)))
        err = B.or_(err, B.and_(m, B.and_(B.not_(defd), B.not_(B.or_(ref, glob)))))
        syms.append((first, defd, glob, ref))
    err = B.or_(err, big)
    # ---- the result
    ok = is_ok(rv)
    chk = w.chk
    chk(B.and_(g, B.and_(ok, err)), "accepts an incorrect program", site)
    chk(B.and_(g, B.and_(B.not_(ok), B.not_(err))), "rejects a correct program", site)
    c = B.and_(g, B.and_(ok, B.not_(err)))
    if not c:
        return
    o = rv[2][0][0]
    to = F.ty_named("telda2::source::ProcessedSource")
    labels = get(F, to, o, "labels")
    dls = maps.slots(get(F, to, o, "dls"))
    ent = get(F, to, o, "entry")
    chk(B.and_(c, B.xor(eqc(ent[1], 1), entry_set)), "an entry point is lost or invented", site)
    ce = B.and_(c, B.and_(entry_set, eqc(ent[1], 1)))
    if ce:
        e = ent[2][1][0]
        bad = 0
        for ci, cur, at in entries:
            bad = B.or_(bad, wrong_address(B.and_(ce, ci), e[1][0][1], e[1][1][1], cur, at))
        chk(B.and_(ce, bad), "the entry point is not the next address after the directive", site)
    tds = F.ty_named("telda2::source::DataLineSegment")
    td = F.ty_named("telda2::source::DataLine")
    dv = {v["name"]: i for i, v in enumerate(F.tys[td]["v"])}
    count = [const(0, W_)] * ns
    for r in rows:
        for i in range(ns):
            ci = B.and_(c, B.and_(r["isdata"], eqc(r["cur"], i)))
            r.setdefault("pos", {})[i] = count[i]
            count[i] = vite(B.and_(r["isdata"], eqc(r["cur"], i)), bdd.add(count[i], const(1, W_))[0], count[i])
    for i in range(ns):
        chk(B.and_(c, B.xor(maps.has(dls[i]), present[i])), "a segment is lost or invented", site)
        cs = B.and_(c, B.and_(present[i], maps.has(dls[i])))
        if not cs:
            continue
        d = maps.val(dls[i])
        chk(objfile.differ(cs, num(get(F, tds, d, "start")[1], W_), start[i]), "the start of a segment differs from its specified value", site)
        chk(objfile.differ(cs, num(get(F, tds, d, "size")[1], W_), size[i]), "the size of a segment differs from its lines", site)
        ls = get(F, tds, d, "lines")
        chk(objfile.differ(cs, num(rt.vlen(ls), W_), count[i]), "a segment has lines lost or invented", site)
        for r in rows:
            ci = B.and_(cs, B.and_(r["isdata"], eqc(r["cur"], i)))
            if not ci:
                continue
            ci = B.and_(ci, bdd.ult(num(r["pos"][i], 64), rt.vlen(ls)))
            if not ci:
                continue
            x = rt.get_where(I, ci, ls, zext(r["pos"][i], 64))
            tag = x[1]
            for what, kind in (("ins", "Ins"), ("wide", "Wide"), ("byte", "Raw"), ("string", "Raw")):
                ck = B.and_(ci, r[what])
                if not ck:
                    continue
                chk(B.and_(ck, B.not_(eqc(tag, dv[kind]))), "a line's data is of another kind than the line", site)
                ck = B.and_(ck, eqc(tag, dv[kind]))
                p = x[2][dv[kind]]
                if not ck or not p:
                    continue
                if what == "ins":
                    want = r["data"][2][dv["Ins"]]
                    bad = B.or_(val_differs(ck, p[0], want[0]), val_differs(ck, p[1], want[1]))
                elif what == "byte":
                    bad = B.not_(B.and_(eqc(rt.vlen(p[0]), 1), I.val_eq(rt.vget(I, p[0], const(0, 64)), r["pay"]["DirByte"][0])))
                elif what == "string":
                    bad = B.not_(objfile.vec_same(I, p[0], r["pay"]["DirString"][0]))
                else:
                    wd = p[0]
                    src = r["pay"]["DirWide"][0]
                    tw_ = {v["name"]: i2 for i2, v in enumerate(F.tys[F.ty_named("telda2::source::Wide")]["v"])}
                    isl = eqc(src[1], 1)
                    bad = B.xor(eqc(wd[1], tw_["Label"]), isl)
                    if wd[2][tw_["Number"]]:
                        bad = B.or_(bad, B.and_(B.not_(isl), B.not_(eq(wd[2][tw_["Number"]][0][1], src[2][0][0][1]))))
                    cl = B.and_(ck, B.and_(isl, eqc(wd[1], tw_["Label"])))
                    if cl and wd[2][tw_["Label"]]:
                        idn = rt.narrow(cl, wd[2][tw_["Label"]][0][1])
                        chk(B.and_(cl, B.not_(bdd.ult(idn, rt.vlen(labels)))), "a label use refers to no symbol", site)
                        cl = B.and_(cl, bdd.ult(idn, rt.vlen(labels)))
                        if not cl:
                            continue
                        idn = rt.narrow(cl, idn)
                        nm = rt.get_where(I, cl, labels, idn)[1][0]
                        chk(B.and_(cl, B.not_(text_is(I, fs, nm, r["text"], cl))), "a label use refers to another label's symbol", site)
                chk(B.and_(ck, bad), "a line's data differs from the line", site)
    # ---- symbols of the result
    nsym = const(0, W_)
    for s in syms:
        nsym = vite(s[0], bdd.add(nsym, const(1, W_))[0], nsym)
    chk(objfile.differ(c, num(rt.vlen(labels), W_), nsym), "a symbol is lost, invented or listed twice", site)
    ty = {v["name"]: i for i, v in enumerate(F.tys[F.ty_named("telda2::source::SymbolType")]["v"])}
    for a, (first, defd, glob, ref) in enumerate(syms):
        ca = B.and_(c, first)
        if not ca:
            continue
        found = 0
        for i in range(n):
            there = B.and_(bdd.ult(const(i, 64), rt.vlen(labels)), ca)
            if not there:
                continue
            e = rt.get_where(I, there, labels, const(i, 64))
            if e[0] != "a":
                continue
            hit = B.and_(there, text_is(I, fs, e[1][0], rows[a]["text"], there))
            found = B.or_(found, hit)
            if not hit:
                continue
            st = e[1][1][1]
            right = B.or_(B.and_(glob, eqc(st, ty["Global"])), B.and_(B.not_(glob), eqc(st, ty["Internal"])))
            chk(B.and_(hit, B.and_(defd, B.not_(right))),
                "a defined symbol has the wrong visibility", site)
            chk(B.and_(hit, B.and_(B.not_(defd), B.not_(eqc(st, ty["Reference"])))), "an undefined symbol is not a reference", site)
            chk(B.and_(B.and_(hit, B.not_(defd)), B.not_(eq(e[1][2][1], unk))), "an undefined symbol has a segment", site)
            bad = 0
            for b in range(n):
                d = B.and_(hit, B.and_(rows[b]["label"], same[a, b]))
                bad = B.or_(bad, wrong_address(d, e[1][2][1], e[1][3][1], rows[b]["cur"], rows[b]["at"]))
            chk(bad, "a symbol is not at the address of its label", site)
        chk(B.and_(ca, B.not_(found)), "a symbol of the program is not listed", site)


def val_differs(c, a, b):
    """Where (within c) two values differ."""
    if not c:
        return 0
    if a[0] == "b":
        return objfile.differ(c, rt.narrow(c, a[1]), rt.narrow(c, b[1]))
    if a[0] == "a":
        r = 0
        for x, y in zip(a[1], b[1]):
            r = B.or_(r, val_differs(c, x, y))
        return r
    if a[0] != "e":
        raise Unsupported("comparing " + a[0])
    ta, tb = rt.narrow(c, a[1]), rt.narrow(c, b[1])
    r = objfile.differ(c, ta, tb)
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        ci = B.and_(c, B.and_(eqc(ta, i), eqc(tb, i)))
        if not ci:
            continue
        if len(x) != len(y):
            if x or y:
                r = B.or_(r, ci)
            continue
        for u, v in zip(x, y):
            if u != U and v != U:
                r = B.or_(r, val_differs(ci, u, v))
            elif u != v:
                r = B.or_(r, ci)
    return r


def pays(dv, name, p):
    r = [()] * len(dv)
    r[dv[name]] = p
    return tuple(r)


def bytes_are(I, v, b):
    r = eqc(rt.vlen(v), len(b))
    for i, ch in enumerate(b):
        r = B.and_(r, eqc(rt.vget(I, v, const(i, 64))[1], ch))
    return r


def text_is(I, st, box, v, c=1):
    """The text of a Box<str> is that of the vector v (decided where c)."""
    if not c:
        return 0
    p = I.as_ptr(st, box)
    n = rt.narrow(c, rt.slice_len(p))
    lv = rt.narrow(c, rt.vlen(v))
    whole = 0
    for g, t in p[1]:
        cg = B.and_(c, g)
        if not cg:
            continue
        r = B.and_(cg, eq(n, lv))
        for i in range(MAXS):
            if not r:
                break
            inside = bdd.ult(const(i, 64), lv)
            if not B.and_(r, inside):
                break
            i = const(i, 64)
            x = rt.slice_get(I, st, ("p", ((1, t),), p[2]), i)
            a, b = rt.narrow(cg, x[1]), rt.narrow(cg, rt.vget(I, v, i)[1])
            r = B.and_(r, B.or_(B.not_(inside), eq(a, b)))
        whole = B.or_(whole, r)
    return whole


def process(F, n=2, inner=0, only=None, short=False):
    P, fs, rv, site = run(F, n, inner, dict(only) if only else None, short)
    if fs is None:
        return [("processing never returns", {}, site)], panics_of(P.I), P.I
    spec(P, fs, rv, site)
    return P.w.out, panics_of(P.I), P.I
