"""The linker's archives: which of their objects are linked."""
import bdd
from bdd import B, const, to_int, eq, eqc, vite, zext
from interp import atom, bv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import natives
import objfile
import rt
from linker import Tl, below
from objfile import get, panics_of, differ
from srcproc import val_differs
from tools import first, orall


def entries_of_maps(T):
    """Iteration over the hash maps (in the order of insertion or backwards)."""
    I, reg = T.I, T.reg
    H = r"(?:std|alloc)::collections::HashMap::<std::boxed::Box<str>, .*>::"
    E = r"std::collections::hash_map::"
    KEY = r"(?:'_, )?std::boxed::Box<str>, .*"

    # an iterator: the map, the number of entries passed
    def iterate(by_value):
        def f(I, st, inst, args, site):
            m = args[0]
            if by_value:
                cell = ("S", f"iterated map {next(natives._heap)}")
                st.mem[cell] = m
                m = rt.P(cell)
            return st, ("a", (m, bv(0, 8)))
        return f

    def nxt(by_value):
        def f(I, st, inst, args, site):
            it = natives.strip(rt.deref(I, st, args[0]))
            m, pos = it[1]
            es = T.map_entries(st, m)
            back = T.backwards
            found, k, v, np = 0, None, None, pos[1]
            n = len(es)
            for j in range(n):
                # the j-th to be looked at
                for i, c in ((j, B.not_(back)), (n - 1 - j, back)):
                    g, key, cell = es[i]
                    c = B.and_(B.and_(B.and_(st.g, g), c), B.and_(B.not_(found), B.not_(bdd.ult(const(j, 8), pos[1]))))
                    if not c:
                        continue
                    kv = key if by_value else cell_of(st, key)
                    vv = st.mem[cell] if by_value else rt.P(cell)
                    k, v = (kv, vv) if k is None else (merge(c, kv, k), merge(c, vv, v))
                    np = vite(c, const(j + 1, 8), np)
                    found = B.or_(found, c)
            rt.upd(I, st, args[0], lambda x: ("a", (m, ("b", np))))
            return st, rt.option(rt.where(st.g, found), ("a", (k, v)) if k is not None else U)
        return f

    def cell_of(st, key):
        cell = T.key_cells.setdefault(repr(key), ("S", f"map key {len(T.key_cells)}"))
        st.mem[cell] = T.box(key)
        return rt.P(cell)
    T.key_cells = {}
    reg(H + "iter", iterate(False))
    reg(rf"<&std::collections::HashMap<{KEY}> as std::iter::IntoIterator>::into_iter", iterate(False))
    reg(rf"<std::collections::HashMap<{KEY}> as std::iter::IntoIterator>::into_iter", iterate(True))
    reg(rf"<{E}(Into)?Iter<{KEY}> as std::iter::IntoIterator>::into_iter", lambda I, st, inst, args, site: (st, args[0]))
    reg(rf"<{E}Iter<{KEY}> as std::iter::Iterator>::next", nxt(False))
    reg(rf"<{E}IntoIter<{KEY}> as std::iter::Iterator>::next", nxt(True))
    reg(r"std::ptr::drop_glue::<(tl::\w+|.*hash_map::IntoIter<std::boxed::Box<str>, .*>|\(std::string::String, telda2::aalv::obj::Object.*\)|"
        r"std::vec::(Vec|IntoIter)<.*>|std::iter::\w+<.*>|telda2::aalv::.*|std::result::Result<telda2::.*|std::option::Option<.*>|\(std::boxed::Box<str>, .*\))>",
        lambda I, st, inst, args, site: (st, UNIT))


class Sel(Tl):
    """The linker over nobj inputs and archives that hold `sizes[a]` objects at most."""

    def __init__(self, F, nobj=1, sizes=(2,), nsyms=2, insyms=None, names=3, fix=None):
        self.sizes, self.found = sizes, []
        nlib = sum(sizes)
        fix = dict(fix or {})
        for k in range(nobj + nlib):
            o = f"object{k}"
            fix.update({f"{o} has Text": 1, f"{o}.Text.len": 0, f"{o} has an entry": 0, f"{o}.entry segment": 0, f"{o}.entry offset": 0,
                        f"{o}.Text.start": 0})
            for i in range(nsyms):
                fix[f"{o}.symbol{i} offset"] = 0
        fix.update({"output given": 1, "executable": 0, "strip internal": 0})
        super().__init__(F, ("Text",), nobj, nsyms, 0, 0, nlib=nlib, fix=fix, names=names)
        entries_of_maps(self)

    def arch(self):
        """(archive, place in it, object) for every object of the archives."""
        r, k = [], self.nobj
        for a, n in enumerate(self.sizes):
            for j in range(n):
                r.append((a, j, self.objs[k]))
                k += 1
        return r

    def cli(self):
        super().cli()
        F, I = self.F, self.I
        # (each object of an archive is recognised by the place it was read from)
        i = objfile.fields(F, self.to).index("file_offset")
        for k, o in enumerate(self.objs):
            v = o["v"]
            o["v"] = ("a", v[1][:i] + (bv(k, 64),) + v[1][i + 1:])
        t = [i for i, t in enumerate(F.tys) if t.get("def") == "tl::Cli"]
        fs = F.tys[t[0]]["v"][0]["f"]
        tp = I.T[[f[1] for f in fs if f[0] == "archives"][0]]["args"][0]
        ars = self.vec(const(len(self.sizes), 8), tp, [atom(f"archive {k}") for k in range(len(self.sizes))])
        st0, val = I.models[[i["nm"] for i in F.insts.values() if i["nm"] == "<tl::Cli as clap::Parser>::parse"][0]](I, None, None, None, None)
        val = ("a", tuple(ars if f[0] == "archives" else x for f, x in zip(fs, val[1])))
        self.reg(r"<tl::Cli as clap::Parser>::parse", lambda I, st, inst, args, site: (st, val), True)

    def models_tl(self):
        super().models_tl()
        F, I = self.F, self.I
        self.backwards = self.flag("maps are iterated backwards")
        self.count = [first(f"objects in archive {a}", clog2(n + 1)) for a, n in enumerate(self.sizes)]
        for c, n in zip(self.count, self.sizes):
            self.need(below(c, n + 1))
        self.member_bad = {(a, j): self.flag(f"object {j} of archive {a} cannot be read") for a, j, o in self.arch()}
        self.arch_bad = [self.flag(f"archive {a} cannot be opened") for a in range(len(self.sizes))]

        def which(st, p):
            x = p
            while x[0] == "p":
                x = rt.deref(I, st, x)
            return lambda name: orall(g for g, a in x[1] if a == atom(name)[1][0][1]) if x[0] == "o" else 0

        def read_archive(I, st, inst, args, site):
            is_ = which(st, args[0])
            v, bad = None, 0
            for a in range(len(self.sizes)):
                c = B.and_(st.g, is_(f"archive {a}"))
                if c:
                    x = ("a", (bv(a, 8), bv(0, 8)))
                    v = x if v is None else merge(c, x, v)
                    bad = B.or_(bad, B.and_(c, self.arch_bad[a]))
            if v is None:
                raise Unsupported("path of an archive")
            return st, rt.result(rt.where(st.g, bad), v, self.w.E.any("kind"))
        self.reg(r"telda2::aalv::(savn::)?read_archive::<.*>", read_archive, True)

        def next_(I, st, inst, args, site):
            it = rt.deref(I, st, args[0])
            a_, j_ = it[1][0][1], it[1][1][1]
            v, some, bad = self.arch()[0][2]["v"], 0, 0
            for a, j, o in self.arch():
                c = B.and_(st.g, B.and_(B.and_(eqc(a_, a), eqc(j_, j)), bdd.ult(const(j, 8), zext(self.count[a], 8))))
                if c:
                    v = merge(c, o["v"], v)
                    some = B.or_(some, c)
                    bad = B.or_(bad, B.and_(c, self.member_bad[a, j]))
            rt.upd(I, st, args[0], lambda x: ("a", (it[1][0], ("b", bdd.add(j_, const(1, 8))[0]))))
            return st, rt.result(rt.where(st.g, bad), rt.option(rt.where(st.g, some), v), self.w.E.any("kind"))
        self.reg(r"telda2::aalv::(savn::)?Iter::next::<.*>", next_, True)

        nm = F.insts[self.anchor]["nm"]

        def select(I, st, inst, args, site):
            del I.models[nm]
            st, v = I.call(st, self.anchor, args, site)
            I.models[nm] = select
            if st is not None:
                self.found.append((st, v, site))
            return None, None
        I.models[nm] = select


def select(F, nobj=1, sizes=(2,), nsyms=2, names=3, fix=None):
    T = Sel(F, nobj, sizes, nsyms, names=names, fix=fix)
    w, I = T.w, T.I
    w.st.g = B.and_(w.st.g, T.care)
    fs, rv = I.call(w.st, T.main_key(), [])
    ar = T.arch()
    site = [I.site(T.anchor, 0)]
    if not T.found:
        return [("the archives are never read", {}, site)], panics_of(I), I
    # which are needed
    N = T.NAMES
    here, defd = [0] * N, [0] * N
    for o in T.objs[:T.nobj]:
        for y in o["syms"]:
            for n in range(N):
                c = B.and_(B.and_(y["there"], y["glob"]), eqc(y["which"], n))
                here[n] = B.or_(here[n], c)
                defd[n] = B.or_(defd[n], B.and_(c, y["defined"]))
    lib = []
    for a, j, o in ar:
        there = bdd.ult(const(j, 8), zext(T.count[a], 8))
        l = dict(o=o, there=there, taken=0, has=[0] * N, d=[0] * N)
        for y in o["syms"]:
            for n in range(N):
                c = B.and_(B.and_(y["there"], y["glob"]), eqc(y["which"], n))
                l["has"][n] = B.or_(l["has"][n], c)
                l["d"][n] = B.or_(l["d"][n], B.and_(c, y["defined"]))
        lib.append(l)
    for _ in lib:
        for l in lib:
            for n in range(N):
                l["taken"] = B.or_(l["taken"], B.and_(l["there"], B.and_(B.and_(l["has"][n], here[n]), B.xor(l["d"][n], defd[n]))))
            for n in range(N):
                here[n] = B.or_(here[n], B.and_(l["taken"], B.and_(l["has"][n], B.not_(l["d"][n]))))
    fail = orall(o["bad"] for o in T.objs[:T.nobj])     # (the inputs are read first)
    fail_a = 0
    for a in range(len(T.sizes)):
        fail_a = B.or_(fail_a, T.arch_bad[a])
        for b, j, o in ar:
            if b == a:
                fail_a = B.or_(fail_a, B.and_(bdd.ult(const(j, 8), zext(T.count[a], 8)), T.member_bad[a, j]))
    seen = 0
    chk = w.chk
    for st, v, s in T.found:
        g = st.g
        site = [s] if not isinstance(s, list) else s
        seen = B.or_(seen, g)
        err = v[1][0]
        chk(B.and_(g, B.and_(fail_a, B.not_(err))), "an archive or an object in it that cannot be read is passed over", site)
        chk(B.and_(g, B.and_(err, B.not_(fail_a))), "the archives are refused although all can be read", site)
        c = B.and_(g, B.not_(B.or_(err, fail_a)))
        if not c:
            continue
        vec = rt.as_vec(v[2][0][0])
        n = rt.narrow(c, rt.vlen(vec))
        L = len(lib)
        want = const(0, 64)
        for l in lib:
            want = bdd.add(want, zext((l["taken"],), 64))[0]
        got = [0] * L
        chk(B.and_(c, bdd.ult(const(L, 64), n)), "more objects are linked than the archives hold", site)
        for i in range(L):
            ci = B.and_(c, bdd.ult(const(i, 64), n))
            if not ci:
                continue
            x = rt.vget(I, vec, const(i, 64))
            x = natives.strip(x)[1][1]
            off = get(F, T.to, x, "file_offset")[1]
            for k, l in enumerate(lib):
                m = B.and_(ci, eqc(rt.narrow(ci, off), T.nobj + k))
                if not m:
                    continue
                chk(B.and_(m, got[k]), "an object of an archive is linked twice", site)
                chk(B.and_(m, B.not_(l["taken"])), "an object of an archive is linked although nothing needs it", site)
                got[k] = B.or_(got[k], m)
                bad = 0
                for f in ("entry", "flags", "stack_size", "heap_size"):
                    bad = B.or_(bad, val_differs(m, get(F, T.to, x, f), get(F, T.to, l["o"]["v"], f)))
                va, vb = (rt.as_vec(get(F, T.to, z, "symbols")[1][0]) for z in (x, l["o"]["v"]))
                bad = B.or_(bad, differ(m, rt.vlen(va), rt.vlen(vb)))
                for i_ in range(T.nsyms):
                    c_ = B.and_(m, l["o"]["syms"][i_]["there"])
                    if c_:
                        p, q = (rt.vget(I, z, const(i_, 64)) for z in (va, vb))
                        for f in ("is_global", "location", "segment_type"):
                            bad = B.or_(bad, val_differs(c_, get(F, T.tsd, p, f), get(F, T.tsd, q, f)))
                chk(bad, "an object of an archive is changed before it is linked", site)
        for k, l in enumerate(lib):
            chk(B.and_(B.and_(c, l["taken"]), B.not_(got[k])), "an object of an archive that is needed is not linked", site)
    chk(B.and_(B.and_(w.st.g, B.not_(fail)), B.not_(seen)), "the archives are not read", site)
    return w.out, panics_of(I), I
