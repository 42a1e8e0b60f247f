"""The kernel's page mapper: allocation, the two-level tables, and the pages a
segment, heap or stack gets."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, bv, boolv, UNIT, Unsupported, merge, join
from facts import MissingAnchor
from kernel import EK, ptr, only, fields, W
import mmu

MEMO, MM, KN = ("S", "mem"), ("S", "mapper"), ("S", "kernel")
PAGE = 128


def tyname(F, t):
    return F.tys[t]["s"]


class Mapper:
    """The page mapper's type and entry points."""

    def __init__(self, F):
        self.F = F
        pub = F.find("telda2::blf4::std_kernel::MmapBuilder::<'_, vharness::AnyMem>::map_wr_pages")
        self.map_wr = pub
        self.add_segment = F.find("telda2::blf4::std_kernel::MmapBuilder::<'_, vharness::AnyMem>::add_segment")
        self.t_self = F.insts[pub]["body"]["locals"][1]
        self.t_mm = F.tys[self.t_self]["e"]

        def is_map(i):
            b = i["body"]
            ls = b["locals"]
            return (b["argc"] == 3 and ls[1] == self.t_self and tyname(F, ls[2]) == "u16" and tyname(F, ls[3]) == "u8"
                    and tyname(F, ls[0]) == "u32")
        self.map = only(F, is_map, "the function mapping one page")
        self.alloc = F.find(EK + "::allocate_page::<vharness::AnyMem>")
        self.t_k = F.ty_named(EK)

    def mapper(self, st, I, table):
        """A mapper over the kernel and memory objects."""
        v = []
        for n, t in ((f[0], f[1]) for f in self.F.tys[self.t_mm]["v"][0]["f"]):
            ty = self.F.tys[t]
            if ty["k"] == "uint" and ty["bits"] == 32:
                v.append(("b", table))
            elif ty["k"] == "ref" and ty["e"] == self.t_k:
                v.append(ptr(KN))
            elif ty["k"] == "ref":
                v.append(ptr(MEMO))
            else:
                raise MissingAnchor(f"mapper field {n}: {ty['s']}")
        st.mem[MM] = ("a", tuple(v))
        I.objty[MM] = self.t_mm


class PMemory(mmu.Memory):
    """Memory whose allocated pages are zeroed.  `fixed`: the initial bytes
    that are not zero, if the initial memory is given."""
    fixed = None

    def select(self, I, st_g, term, a):
        if term[0] == "base" and self.fixed is not None:
            v = const(0, 8)
            for k, b in self.fixed.items():
                v = vite(eqc(a, k), const(b, 8), v)
            return ("b", v)
        if term[0] == "zero":
            c = eq(a[7:], term[2][7:])
            if B.and_(st_g, c) == 0:
                return self.select(I, st_g, term[1], a)
            if B.and_(st_g, B.not_(c)) == 0:
                return bv(0, 8)
            return merge(c, bv(0, 8), self.select(I, B.and_(st_g, B.not_(c)), term[1], a))
        return super().select(I, st_g, term, a)


def aligned(name, lo, hi, cls=1):
    """A page address with free bits lo..hi-1 of 32."""
    f = tuple(B.var(f"{name}[{i}]", cls, i) for i in range(lo, hi))
    return (0,) * lo + f + (0,) * (32 - hi)


def new_page(allocs, given=None):
    """Names the n-th page handed out; `allocs` collects these names, not the
    page of a call that is the n-th or the m-th depending on the path."""
    def f(nm):
        if given is None:
            allocs.append(aligned(nm, 7, 24))
        else:
            allocs.append(const((3 << 20) + (given.setdefault(nm, len(given)) << 7), 32))
        return ("b", allocs[-1])
    return f


def alloc_model(mm, I, allocs, given=None):
    def f(I, st, inst, args, site):
        r = I.emit(st, "alloc", (), new_page(allocs, given), site)
        _, e, n, t = st.mem[mmu.MEM]
        st.mem[mmu.MEM] = ("A", e, n, ("zero", t, r[1]))
        return st, r
    return f


def setup(F, P, stage):
    mm = stage["mm"]
    I = Interp(F, mmu.mem_models(mm))
    I.objty[KN] = P.t_k
    st = State(1, {}, Trace())
    mm.init(st, I.u8())
    return I, st


def wr4(mm, I, st, a, v, g=1):
    for i in range(4):
        _, e, n, t = st.mem[mmu.MEM]
        x = ("st", t, bdd.add(a, const(i, 32))[0], ("b", v[8 * i:8 * i + 8]))
        st.mem[mmu.MEM] = ("A", e, n, x)


def rd4(mm, I, st, a, nm):
    r = ()
    for i in range(4):
        mm.hint = (f"{nm}+{i}", (0, 0) if i == 0 else (1, 8 * i - 8))
        r += mm.read(I, st, bdd.add(a, const(i, 32))[0])[1]
    mm.hint = None
    return r


def entry_set(mm, I, st, a, flags, nm, allocs, given):
    """Specified: make the entry at `a` present with (at least) `flags`;
    returns (state, entry after, frame address)."""
    raw = rd4(mm, I, st, a, nm)
    new = st.fork(B.not_(raw[0]))
    old = st.fork(raw[0])
    if new is not None:
        r = I.emit(new, "alloc", (), new_page(allocs, given), None)[1]
        _, e, n, t = new.mem[mmu.MEM]
        new.mem[mmu.MEM] = ("A", e, n, ("zero", t, r))
        nv = flags + r[:24]
        wr4(mm, I, new, a, nv)
    if old is not None:
        low = bdd.vor(raw[:8], flags)
        _, e, n, t = old.mem[mmu.MEM]
        old.mem[mmu.MEM] = ("A", e, n, ("st", t, a, ("b", low)))
        ov = low + raw[8:]
    st = join(old, new)
    c = B.restrict(old.g, st.g) if old is not None and new is not None else int(old is not None)
    v = vite(c, ov if old is not None else nv, nv if new is not None else ov)
    return st, v, (0,) * 7 + v[15:] + (0,) * 8


def map_page(F, case=None):
    """`map` against the specified table update.  (diffs, panics, interpreter)
    With `case` (page, entries present), only for this page, these initial
    tables and given pages of the allocator: what remains small when the code
    indexes the tables unlike the specification."""
    P = Mapper(F)
    mm = PMemory()
    table = aligned("table", 7, 16)
    virt = (0,) * 7 + tuple(B.var(f"virt[{i}]", 1, i - 5 if i < 12 else i - 10) for i in range(7, 16))
    if case is not None:
        page, present = case
        table, virt = const(0x8780, 32), const(page << 7, 16)
        mm.fixed = {}
        for n, a, to in ((0, 0x8780 + 4 * (page >> 5), 0x5a5a80), (1, 0x5a5a80 + 4 * (page & 31), 0xa5a580)):
            for i in range(4):
                if n < present:
                    mm.fixed[a + i] = (to << 8 | 1) >> 8 * i & 255
    flags = (1,) + tuple(B.var(f"flags[{i}]", 0, 0) for i in range(1, 6)) + (0, 0)
    allocs, given = [], None if case is None else {}
    # specification first (names the bytes of the entries)
    I, st = setup(F, P, {"mm": mm})
    k0 = I.fresh(P.t_k, "kernel")
    st.mem[KN] = k0
    e1 = bdd.add(table, zext((0, 0) + virt[12:], 32))[0]
    st, v1, t2 = entry_set(mm, I, st, e1, flags, "entry1", allocs, given)
    e2 = bdd.add(t2, zext((0, 0) + virt[7:12], 32))[0]
    ss, v2, frame = entry_set(mm, I, st, e2, flags, "entry2", allocs, given)
    # the code
    al2 = []
    I, st = setup(F, P, {"mm": mm})
    I.models[F.insts[P.alloc]["nm"]] = alloc_model(mm, I, al2, given)
    st.mem[KN] = k0
    P.mapper(st, I, table)
    mv = st.mem[MM]
    mm.reads.clear()
    mm.writes.clear()
    fs, rv = I.call(st, P.map, [ptr(MM), ("b", virt), ("b", flags)])
    # pages handed out are fresh: not the tables in use, and distinct
    g = fs.g if fs is not None else 0
    pages = []
    for r in {tuple(a) for a in allocs + al2}:
        pages.append(r)
    fresh_ok = 1
    for i, a in enumerate(pages):
        for b in pages[i + 1:] + [table, e1]:
            fresh_ok = B.and_(fresh_ok, B.not_(eq(a[7:], b[7:])))
    out = []
    site = [I.site(P.map, 0)]
    p = fresh("probe", 32)
    x = mm.select(I, g, fs.mem[mmu.MEM][3], p)[1]
    y = mm.select(I, g, ss.mem[mmu.MEM][3], p)[1]

    def one_memory(d):
        """The part of d in which equal addresses hold equal initial bytes."""
        for i, (_, a, v) in enumerate(mm.cells):
            for _, b, w in mm.cells[:i]:
                if d == 0:
                    return 0
                d = B.and_(d, B.not_(B.and_(eq(a, b), B.not_(eq(v[1], w[1])))))
        return d
    gg = B.and_(g, fresh_ok)
    for L in set(fs.tr.lens) | set(ss.tr.lens):
        d = one_memory(B.and_(gg, B.xor(fs.tr.lens.get(L, 0), ss.tr.lens.get(L, 0))))
        if d:
            out.append(("pages are not allocated exactly for the missing table and frame", W(d), site))
            break
    d = one_memory(B.and_(gg, B.not_(eq(rv[1], frame))))
    if d:
        out.append(("the address returned is not the frame of the page", W(d), site))
    d = one_memory(B.and_(gg, B.not_(eq(x, y))))
    if d:
        ent = 0
        for a in (e1, e2):
            lo = (0, 0) + a[2:]
            ent = B.or_(ent, eq(p[2:], a[2:]))
        sites = {s for g0, a, v, s in mm.writes if B.and_(d, g0)} or set(site)
        if B.and_(d, ent):
            out.append(("a table entry is left with another frame or other flags than specified", W(B.and_(d, ent)), sorted(sites)))
        d = B.and_(d, B.not_(ent))
        if d:
            out.append(("memory other than the page's two table entries is changed", W(d), sorted(sites)))
    d = B.and_(gg, B.not_(B.and_(I.val_eq(fs.mem[KN], k0), I.val_eq(fs.mem[MM], mv))))
    if d:
        out.append(("the kernel's own state is changed beside the allocator", W(d), site))
    panics = [(s, w, W(g0)) for g0, s, w, _ in I.panics if B.and_(g0, fresh_ok)]
    return out, panics, I


def allocator(F):
    """Allocation while no page has been freed: consecutive, disjoint pages."""
    P = Mapper(F)
    out, panics, blocks = [], [], 0
    fs_ = F.tys[P.t_k]["v"][0]["f"]
    u32s = [i for i, f in enumerate(fs_) if tyname(F, f[1]) == "u32"]
    opts = [i for i, f in enumerate(fs_) if tyname(F, f[1]) == "std::option::Option<u32>"]
    if len(u32s) != 1 or len(opts) != 1:
        raise MissingAnchor("allocator state of the kernel")
    bi, oi = u32s[0], opts[0]
    I = Interp(F)
    new = F.find(EK + "::new")
    fs, kv = I.call(State(1, {}, Trace()), new, [])
    blocks += I.blocks
    site = [I.site(new, 0)]
    first = kv[1][bi][1]
    d = B.and_(fs.g, B.not_(B.and_(eqc(first[:7], 0), B.and_(eqc(first[15:], 1), eqc(kv[1][oi][1], 0)))))
    if d:
        out.append(("the first page of a new kernel is not an aligned page of the RAM in block 0", W(d), site))
    mm = PMemory()
    I, st = setup(F, P, {"mm": mm})
    k0 = list(I.fresh(P.t_k, "kernel")[1])
    b0 = aligned("bumper", 7, 24)
    k0[bi] = ("b", b0)
    k0[oi] = ("e", (0,), k0[oi][2])
    st.mem[KN] = ("a", tuple(k0))
    room = B.not_(eqc(b0[7:24], (1 << 17) - 1))
    st.g = room
    fs, rv = I.call(st, P.alloc, [ptr(KN), ptr(MEMO)])
    blocks += I.blocks
    site = [I.site(P.alloc, 0)]
    if fs is None:
        return [("no page is ever allocated", {}, site)], [], blocks
    k1 = fs.mem[KN][1]
    r, b1 = rv[1], k1[bi][1]

    def chk(c, what):
        c = B.and_(fs.g, c)
        if c:
            out.append((what, W(c), site))
    chk(B.not_(eqc(r[:7], 0)), "an allocated page is not page aligned")
    chk(bdd.ult(r, b0), "an allocated page overlaps pages handed out before")
    chk(B.not_(eqc(k1[oi][1], 0)), "the list of free pages is not empty after an allocation although it was before")
    nxt = bdd.add(r, const(PAGE, 32))[0]
    chk(bdd.ult(b1, nxt), "the next allocation can overlap this one")
    chk(B.not_(eqc(b1[:7], 0)), "the next allocation is not page aligned")
    others = [i for i in range(len(k1)) if i not in (bi, oi)]
    for i in others:
        chk(B.not_(I.val_eq(k1[i], k0[i])), f"allocating changes the kernel's {fs_[i][0]}")
    p = fresh("probe", 32)
    zero = eq(p[7:], r[7:])
    x = mm.select(I, fs.g, fs.mem[mmu.MEM][3], p)[1]
    y = mm.select(I, fs.g, ("base", "M"), p)[1]
    chk(B.and_(B.not_(zero), B.not_(eq(x, y))), "allocating changes memory outside the page")
    chk(B.and_(zero, B.and_(B.not_(eq(x, y)), B.not_(eqc(x, 0)))), "a newly allocated page is not zero")
    panics += [(s, w, W(g0)) for g0, s, w, _ in I.panics if g0]
    return out, panics, blocks


# -------------------------------------------------------------------- loader
LOWN = 3
TAG = 1 << 20       # frame of the virtual page v in the loader analysis: TAG + v
U_, X_, W_, R_, P_ = 0x20, 8, 4, 2, 1


class Loader:
    """load_user_binary over an arbitrary object of up to `n` segments."""

    def __init__(self, F, n):
        self.F, self.n = F, n
        self.P = Mapper(F)
        ks = [k for k, i in F.insts.items() if i["nm"].endswith("::load_user_binary") and i.get("body")]
        if len(ks) != 1:
            raise MissingAnchor("load_user_binary")
        self.key = ks[0]
        ls = F.insts[self.key]["body"]["locals"]
        self.t_m, self.t_obj = F.tys[ls[1]]["e"], F.tys[ls[2]]["e"]
        self.of = fields(F, self.t_obj)
        self.maps, self.writes, self.tables = [], [], []

    def run(self, segs):
        """segs: [(present guard, type value, offset bits, len bits)]"""
        F, P = self.F, self.P
        I = Interp(F, unroll=1400)
        self.I = I
        I.split = True
        from natives import boxes
        boxes(I)
        M, O = ("S", "machine"), ("S", "obj")
        I.objty[M], I.objty[O] = self.t_m, self.t_obj
        I.objty[MM] = P.t_mm
        st = State(1, {}, Trace())
        st.mem[M] = self.m0 = I.fresh(self.t_m, "machine")
        ov = I.fresh(self.t_obj, "obj")
        self.obj = dict(zip(self.of, ov[1]))
        st.mem[O] = ov
        seg_obj = []
        for i, (g, ty, off, ln) in enumerate(segs):
            k, v = ("S", f"segkey{i}"), ("S", f"seg{i}")
            st.mem[k] = ty
            st.mem[v] = ("a", (("b", off), atom_vec(i)))
            st.mem[("S", f"bytes{i}")] = ("A", I.u8(), None, ("base", f"bytes{i}"))
            seg_obj.append((g, k, v, ln))
        self.segs = segs

        def vec_of(st, v):
            v = I.as_ptr(st, v)
            r = []
            for g, (o, p) in v[1]:
                x = I.read_path(I.load_obj(st, o), p)
                for h, a in (x[1] if x[0] == "o" else ()):
                    if a[0] == "vec":
                        r.append((B.and_(g, h), a[1]))
                    elif a[0] == "val" and a[1][0] == "o":
                        r += [(B.and_(g, h), z[1]) for h2, z in a[1][1] if z[0] == "vec"]
            if not r:
                raise Unsupported("a byte vector that is not a segment's")
            return r

        def vlen(st, v):
            r = None
            for g, i in vec_of(st, v):
                x = ("b", zext(segs[i][3], 64))
                r = x if r is None else merge(g, x, r)
            return r

        def m_deref(I, st, inst, args, site):
            r = None
            for g, i in vec_of(st, args[0]):
                d = ("S", f"bytes{i}")
                x = ("p", ((1, (d, (("s", const(0, 64)),))),), ("b", zext(segs[i][3], 64)))
                r = x if r is None else merge(g, x, r)
            return st, r

        def m_len(I, st, inst, args, site):
            return st, vlen(st, args[0])

        def m_isempty(I, st, inst, args, site):
            return st, boolv(eqc(vlen(st, args[0])[1], 0))

        def m_iter(I, st, inst, args, site):
            return st, bv(0, 4)

        def m_next(I, st, inst, args, site):
            p = I.as_ptr(st, args[0])
            cur = [(g, o, pa) for g, (o, pa) in p[1]]
            c = I.read_targets(st, cur)
            if c[0] != "b":
                raise Unsupported("segment iterator")
            tag, kp, vp = 0, None, None
            for i, (g, k, v, ln) in enumerate(seg_obj):
                here = B.and_(eqc(c[1], i), g)
                tag = B.or_(tag, here)
                kp = ptr(k) if kp is None else merge(here, ptr(k), kp)
                vp = ptr(v) if vp is None else merge(here, ptr(v), vp)
            I.write_targets(st, cur, ("b", bdd.add(c[1], const(1, 4))[0]))
            kinds = inst["nm"]
            el = (kp, vp)
            if "btree_map::Values<" in kinds:
                val = vp
            elif "btree_map::Keys<" in kinds:
                val = kp
            else:
                val = ("a", el)
            return st, ("e", (tag,), ((), (val,)))

        def m_map(I, st, inst, args, site):
            va, fl = args[1], args[2]
            if va[0] != "b" or fl[0] != "b":
                raise Unsupported("page to map")
            self.maps.append((st.g, va[1], fl[1], site))
            o = [h for h in self.F.tys[P.t_mm]["v"][0]["f"]]
            mv = I.read_targets(st, [(g, ob, pa) for g, (ob, pa) in I.as_ptr(st, args[0])[1]])
            for i, f in enumerate(o):
                if tyname(F, f[1]) == "u32":
                    self.tables.append((st.g, mv[1][i][1]))
            return st, ("b", bdd.vor(zext(va[1], 32), const(TAG, 32)))

        def m_write_n(I, st, inst, args, site):
            addr, sl = args[1], args[2]
            for g, (o, path) in sl[1]:
                h = B.and_(st.g, g)
                if not h:
                    continue
                if o[0] != "S" or not o[1].startswith("bytes") or len(path) != 1 or path[0][0] != "s":
                    raise Unsupported("data written by the loader")
                self.writes.append((h, addr[1], int(o[1][5:]), path[0][1], sl[2][1], site))
            return st, UNIT

        def m_w(I, st, inst, args, site):
            raise Unsupported("single byte write by the loader")
        for k, i in F.insts.items():
            nm = i["nm"]
            if k == P.map:
                I.models[nm] = m_map
            elif nm.startswith("telda2::mem::write_n::<"):
                I.models[nm] = m_write_n
            elif nm == "<vharness::AnyMem as telda2::mem::MainMemory>::write":
                I.models[nm] = m_w
            elif nm == "<std::vec::Vec<u8> as std::ops::Deref>::deref" or nm == "std::vec::Vec::<u8>::as_slice":
                I.models[nm] = m_deref
            elif nm == "std::vec::Vec::<u8>::len":
                I.models[nm] = m_len
            elif nm == "std::vec::Vec::<u8>::is_empty":
                I.models[nm] = m_isempty
            elif "btree_map::" in nm and nm.startswith("<std::collections::btree_map::") and nm.endswith("as std::iter::Iterator>::next"):
                I.models[nm] = m_next
            elif "BTreeMap<telda2::aalv::obj::SegmentType, (u16" in nm and (
                    nm.endswith("as std::iter::IntoIterator>::into_iter") or nm.endswith(">::iter") or nm.endswith(">::values")):
                I.models[nm] = m_iter
        self.fs, rv = I.call(st, self.key, [ptr(M), ptr(O)])
        return self.fs


def atom_vec(i):
    return ("o", ((1, ("vec", i)),))


def ult(a, b):
    w = max(len(a), len(b))
    return bdd.ult(zext(a, w), zext(b, w))


def overlaps(page, lo, hi):
    """The 128-byte page `page` (16 bits) overlaps [lo, hi) (17 bits, lo <= hi)."""
    end = bdd.add(zext(page, 17), const(PAGE, 17))[0]
    return B.and_(B.and_(ult(lo, end), ult(page, hi)), ult(lo, hi))


def opt(v, default):
    """(value bits of Option<wrapper of one integer>) or the default"""
    some = v[1][0]
    x = v[2][1][0]
    while x[0] == "a":
        x = x[1][0]
    return some, vite(some, x[1], const(default, len(x[1])))


KINDS = {"Zero": X_ | W_ | R_, "Unknown": X_ | W_ | R_, "Data": W_ | R_, "RoData": R_, "Heap": W_ | R_, "Text": X_}


def load_program(F, heap, low, first=None):
    """The loader over an object with one arbitrary segment (a heap or not,
    the low bits of its offset being `low`), after a small one of kind `first`."""
    ts = F.ty_named("telda2::aalv::obj::SegmentType")
    names = [v["name"] for v in F.tys[ts]["v"]]
    if set(names) != set(KINDS):
        raise MissingAnchor("segment types")
    I0 = Interp(F)
    nb = len(I0.fresh(ts, "stype")[1])
    ln = fresh("len", 16)
    off = fresh("offset", 16)
    if low is not None:
        off = tuple((low >> i) & 1 for i in range(LOWN)) + off[LOWN:]
    segs = []
    pays = tuple(() for _ in names)
    if heap:
        kind = const(names.index("Heap"), nb)
        has = 1
    else:
        kind = I0.fresh(ts, "stype")[1]
        has = B.and_(ult(kind, const(len(names), nb)) if len(names) < (1 << nb) else 1, B.not_(eqc(kind, names.index("Heap"))))
        has = B.and_(has, B.var("has", 0, 0))
    # a segment ends below the top of memory
    has = B.and_(has, B.not_(bdd.add(off, ln)[1]))
    fo, fl = 0x7010, 3
    L = Loader(F, 2)
    if first is not None:
        segs.append((1, ("e", const(names.index(first), nb), pays), const(fo, 16), const(fl, 16)))
    segs.append((has, ("e", kind, pays), off, ln))
    fs = L.run(segs)
    I = L.I
    out, panics = [], []
    site = [I.site(L.key, 0)]
    for g, s, w, stk in I.panics:
        # only executions that satisfy the precondition exist: without a segment, or with one that fits
        if g:
            panics.append((s, w, W(g)))
    if fs is None:
        return [("no program is ever loaded", {}, site)], panics, L
    g0 = fs.g

    def chk(c, what, sites=site):
        c = B.and_(g0, c)
        if c:
            out.append((what, W(c), sorted(set(sites))))
    # ---- pages
    v = (0,) * 7 + tuple(B.var(f"page[{i}]", 1, i) for i in range(7, 16))
    rt = L.obj["flags"]
    some, flg = rt[1][0], rt[2][1][0]
    while flg[0] == "a":
        flg = flg[1][0]
    readable = B.and_(some, flg[1][0])
    hs_some, hsize = opt(L.obj["heap_size"], 0x400)
    ss_some, ssize = opt(L.obj["stack_size"], 0x180)
    spec = {b: 0 for b in (U_, X_, W_, R_, P_)}

    def need(cond, perm_of):
        for b in spec:
            spec[b] = B.or_(spec[b], B.and_(cond, 1 if b in (U_, P_) else perm_of(b)))
    for g, ty, o, l in segs:
        def perm(b, ty=ty):
            r = 0
            for i, n in enumerate(names):
                p = int(bool(KINDS[n] & b))
                if n == "Text" and b == R_:
                    p = readable
                r = B.or_(r, B.and_(eqc(ty[1], i), p))
            return r
        lo = zext(o, 17)
        need(B.and_(g, overlaps(v, lo, bdd.add(lo, zext(l, 17))[0])), perm)
        h = B.and_(g, eqc(ty[1], names.index("Heap")))
        if h:
            hi = bdd.add(lo, zext(hsize, 17))[0]
            need(B.and_(h, overlaps(v, lo, hi)), lambda b: int(bool(b & (R_ | W_))))
    top = const(0x10000, 17)
    need(overlaps(v, bdd.sub(top, zext(ssize, 17))[0], top), lambda b: int(bool(b & (R_ | W_))))
    have = {b: 0 for b in spec}
    have_free = {b: 0 for b in spec}
    at = []
    # an empty segment may or may not get the page its offset lies in
    free = 0
    for g, ty, o, l in segs:
        free = B.or_(free, B.and_(B.and_(g, eqc(l, 0)), eq(o[7:], v[7:])))
    for g, va, fl_, s in L.maps:
        bad = B.or_(B.not_(eqc(va[:7], 0)), B.or_(B.not_(fl_[0]), B.or_(fl_[6], fl_[7])))
        if B.and_(g, bad):
            panics.append((s, "a page is mapped at an unaligned address or with invalid flags", W(B.and_(g, bad))))
        here = B.and_(g, eq(va[7:16], v[7:]))
        if here:
            for i in range(8):
                if (1 << i) in have:
                    have[1 << i] = B.or_(have[1 << i], B.and_(here, fl_[i]))
            at.append((here, s))
    NAME = {U_: "user access", X_: "execute permission", W_: "write permission", R_: "read permission", P_: "a mapping"}
    for b in (P_, U_, X_, W_, R_):
        d = B.and_(g0, B.and_(spec[b], B.not_(have[b])))
        if d:
            chk(d, f"a page of a segment, the heap or the stack lacks {NAME[b]}", {s for h, s in at if B.and_(h, d)} or site)
        d = B.and_(B.and_(g0, B.and_(have[b], B.not_(spec[b]))), B.not_(free))
        if d:
            chk(d, f"a page gets {NAME[b]} that no segment, heap or stack on it has", {s for h, s in at if B.and_(h, d)} or site)
    # ---- contents, through the frames (TAG + virtual address)
    x = tuple(B.var(f"probe[{i}]", 1, i) for i in range(16))
    x32 = bdd.vor(zext(x, 32), const(TAG, 32))
    clash = 0
    inseg = []
    for i, (g, ty, o, l) in enumerate(segs):
        c = B.and_(g, B.and_(B.not_(ult(x, o)), ult(zext(x, 17), bdd.add(zext(o, 17), zext(l, 17))[0])))
        for d in inseg:
            clash = B.or_(clash, B.and_(c, d))
        inseg.append(c)
    done = [0] * len(segs)
    for g, addr, i, so, n, s in L.writes:
        end, carry = bdd.add(zext(addr, 40), zext(n, 40)[:40] if len(n) <= 40 else n[:40])
        c = B.and_(g, B.and_(B.not_(ult(x32, addr)), ult(x32, end)))
        # data outside any frame
        c2 = B.and_(g, B.and_(B.not_(eqc(n, 0)), B.not_(B.and_(eqc(addr[16:], TAG >> 16), B.not_(ult(const(TAG + 0x10000, 40), end))))))
        if c2:
            chk(c2, "segment data is written outside the frames of the mapped pages", [s])
        if not c:
            continue
        c = B.and_(c, g0)
        bad = B.and_(c, B.not_(inseg[i]))
        if bad:
            chk(bad, "data of a segment is stored at an address outside the segment", [s])
        want = bdd.sub(zext(x, 64), zext(segs[i][2], 64))[0]
        got = bdd.add(so, bdd.sub(zext(x32, 64), zext(addr, 64))[0])[0]
        bad = B.and_(B.and_(c, inseg[i]), B.not_(eq(want, got)))
        if bad:
            chk(bad, "a byte of a segment is stored at another address than its own", [s])
        done[i] = B.or_(done[i], c)
    for i in range(len(segs)):
        d = B.and_(B.and_(inseg[i], B.not_(done[i])), B.not_(clash))
        if d:
            chk(d, "a byte of a segment is not loaded")
    # ---- processor
    import cpu
    M = cpu.Cpu(F)
    mf = fields(F, L.t_m)
    m0, m1 = dict(zip(mf, L.m0[1])), dict(zip(mf, fs.mem[("S", "machine")][1]))
    c0, c1 = m0["cpu"], m1["cpu"]
    want = c0
    for n, b in (("virtual_mode", 1), ("user_mode", 1)):
        want = M.put(want, n, boolv(b))
    for n in ("stack", "frame"):
        want = M.put(want, n, bv(0xffff, 16))
    e = L.obj["entry"]
    entry = e[2][1][0]
    tu = [t for t in F.tys[F.ty_named("telda2::aalv::obj::Entry")]["v"][0]["f"]]
    loc = entry[1][[i for i, f in enumerate(tu) if tyname(F, f[1]) == "u16"][0]]
    pc0 = M.get(c0, "program_counter")
    want = M.put(want, "program_counter", merge(e[1][0], loc, pc0))
    pg = M.get(c1, "page")
    want = M.put(want, "page", pg)
    chk(B.not_(B.and_(eqc(pg[1][:7], 0), pg[1][15])), "the page table register does not name a page of the RAM in block 0")
    ds = []
    cpu.diff_cpu(M, g0, c1, want, ds)
    for d in ds:
        out.append((f"after loading, {d.what}", W(d.cond), site))
    k = m1["ekernel"]
    chk(B.not_(eqc(k[1], 1)), "no kernel is installed")
    tabs = L.tables
    for g, t in tabs:
        chk(B.and_(g, B.not_(eq(zext(pg[1], 32), t))), "the page table register names another table than the one that was filled")
    return out, panics, L
