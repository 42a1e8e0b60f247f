"""BTreeMap keyed by a field-less enum: one optional slot per key, in the
order of the discriminants."""
import itertools
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import merge, bv, boolv, U, UNIT, Unsupported, clog2, join
import natives
import rt

_n = itertools.count(1)


def is_map(I, t):
    ty = I.T[t]
    if ty["k"] != "struct" or not ty.get("def", "").endswith("BTreeMap"):
        return False
    k = I.T[ty["args"][0]]
    return k["k"] == "enum" and not any(v["f"] for v in k["v"])


def order(I, tk):
    """Variant indexes in the order of their discriminants."""
    vs = I.T[tk]["v"]
    ds = [int(v.get("d", i)) if v.get("d") is not None else i for i, v in enumerate(vs)]
    return sorted(range(len(vs)), key=lambda i: ds[i])


def some(v, c=1):
    return ("e", (c,), ((), (v,)))


def key(I, tk, i):
    n = len(I.T[tk]["v"])
    return ("e", const(i, clog2(n)), ((),) * n)


def fresh_map(I, t, name, bits=None):
    tk, tv = I.T[t]["args"][:2]
    vs = I.T[tk]["v"]
    return ("a", tuple(some(I.fresh(tv, f"{name}[{v['name']}]"), B.var(f"{name}[{v['name']}]?", 0, 0)) for v in vs))


def slots(v):
    v = natives.strip(v)
    if v[0] != "a":
        raise Unsupported(f"map value {v[0]}")
    return v[1]


def has(slot):
    return slot[1][0]


def val(slot):
    return slot[2][1][0] if slot[2][1] else U


def install(I):
    F = I.F

    def reg(pat, f):
        rx = re.compile(pat)
        for i in F.insts.values():
            m = rx.fullmatch(i["nm"])
            if m:
                I.models[i["nm"]] = f

    def empty_n(n):
        return ("a", (some(U, 0),) * n)

    def tk_of(inst):
        for t in inst["args"]:
            if isinstance(t, int) and I.T[t]["k"] == "enum":
                return t
            if isinstance(t, int) and is_map(I, t):
                return I.T[t]["args"][0]
        for t in inst["body"]["locals"] if inst.get("body") else ():
            while I.T[t]["k"] in ("ref", "ptr"):
                t = I.T[t]["e"]
            if is_map(I, t):
                return I.T[t]["args"][0]
        raise Unsupported(f"key type of {inst['nm']}")

    def new(I, st, inst, args, site):
        t = inst["body"]["locals"][0] if inst.get("body") else None
        tk = I.T[t]["args"][0] if t is not None and is_map(I, t) else tk_of(inst)
        return st, empty_n(len(I.T[tk]["v"]))

    def getk(st, k):
        if k[0] == "p":
            k = rt.deref(I, st, k)
        if k[0] != "e":
            raise Unsupported("map key")
        return k[1]

    def slot_ptr(st, m, k, n):
        ts = []
        for g, o, p in rt.targets(I, st, m):
            for i in range(n):
                c = B.and_(g, eqc(k, i))
                if c:
                    ts.append((c, (o, p + (i, ("v", 1, 0)))))
        return ("p", tuple(ts), None)

    def mapval(st, m):
        return slots(rt.deref(I, st, m))

    def present(ss, k):
        r = 0
        for i, s in enumerate(ss):
            r = B.or_(r, B.and_(eqc(k, i), has(s)))
        return r

    def get(I, st, inst, args, site):
        ss = mapval(st, args[0])
        k = getk(st, args[1])
        return st, some(slot_ptr(st, args[0], k, len(ss)), present(ss, k))

    def contains(I, st, inst, args, site):
        return st, boolv(present(mapval(st, args[0]), getk(st, args[1])))

    def index(I, st, inst, args, site):
        ss = mapval(st, args[0])
        k = getk(st, args[1])
        st = rt.guard(I, st, B.not_(present(ss, k)), site, "no entry found for key")
        if st is None:
            return None, None
        return st, slot_ptr(st, args[0], k, len(ss))

    def put(st, m, k, v):
        def f(x):
            return ("a", tuple(merge(eqc(k, i), some(v), s) for i, s in enumerate(slots(x))))
        rt.upd(I, st, m, f)

    def taken(ss, k):
        r = None
        for i, s in enumerate(ss):
            r = s if r is None else merge(eqc(k, i), s, r)
        return r

    def insert(I, st, inst, args, site):
        ss = mapval(st, args[0])
        k = getk(st, args[1])
        old = taken(ss, k)
        put(st, args[0], k, args[2])
        return st, old

    def remove(I, st, inst, args, site):
        ss = mapval(st, args[0])
        k = getk(st, args[1])
        old = taken(ss, k)

        def f(x):
            return ("a", tuple(merge(eqc(k, i), some(U, 0), s) for i, s in enumerate(slots(x))))
        rt.upd(I, st, args[0], f)
        return st, old

    def length(I, st, inst, args, site):
        r = const(0, 64)
        for s in mapval(st, args[0]):
            r = bdd.add(r, zext((has(s),), 64))[0]
        return st, ("b", r)

    def is_empty(I, st, inst, args, site):
        r = 1
        for s in mapval(st, args[0]):
            r = B.and_(r, B.not_(has(s)))
        return st, boolv(r)

    # ---- entries: (map pointer, key)
    def entry(I, st, inst, args, site):
        t = inst["body"]["locals"][0]
        vs = [v["name"] for v in I.T[t]["v"]]
        e = ("a", (args[0], args[1]))
        p = present(mapval(st, args[0]), getk(st, args[1]))
        w = clog2(len(vs))
        tag = vite(p, const(vs.index("Occupied"), w), const(vs.index("Vacant"), w))
        return st, ("e", tag, ((e,),) * len(vs))

    def epair(st, e):
        if e[0] == "e":
            e = e[2][0][0]
        if e[0] == "p":
            e = rt.deref(I, st, e)
        e = natives.strip(e)
        return e[1][0], e[1][1]

    def eptr(st, e):
        m, k = epair(st, e)
        return slot_ptr(st, m, getk(st, k), len(mapval(st, m)))

    def vacant_insert(I, st, inst, args, site):
        m, k = epair(st, args[0])
        put(st, m, getk(st, k), args[1])
        return st, args[0] if inst["nm"].endswith("insert_entry") else eptr(st, args[0])

    def into_mut(I, st, inst, args, site):
        return st, eptr(st, args[0])

    def occ_insert(I, st, inst, args, site):
        m, k = epair(st, args[0])
        old = val(taken(mapval(st, m), getk(st, k)))
        put(st, m, getk(st, k), args[1])
        return st, old

    def or_insert(I, st, inst, args, site):
        m, k = epair(st, args[0])
        kk = getk(st, k)
        miss = B.not_(present(mapval(st, m), kk))
        if inst["nm"].endswith("or_default"):
            t = inst["body"]["locals"][0]
            tv = I.T[t]["e"]
            nm = f"<{I.T[tv]['s']} as std::default::Default>::default"
            ks = [x for x, i in F.insts.items() if i["nm"] == nm and i.get("body")]
            if len(ks) != 1:
                raise Unsupported(nm)
            st, v = I.call(st, ks[0], [])
        elif inst["nm"].endswith("or_insert"):
            v = args[1]
        else:
            raise Unsupported(inst["nm"])

        def f(x):
            return ("a", tuple(merge(B.and_(miss, eqc(kk, i)), some(v), s) for i, s in enumerate(slots(x))))
        rt.upd(I, st, m, f)
        return st, slot_ptr(st, m, kk, len(mapval(st, m)))

    # ---- iterators: (map pointer or map, next position in the order)
    def it(kind):
        def mk(I, st, inst, args, site):
            return st, ("a", (args[0], bv(0, 4), ("k", kind, tk_of(inst))))
        return mk

    def nxt(I, st, inst, args, site):
        r = None
        for g, o, p in rt.targets(I, st, args[0]):
            x = natives.strip(I.read_path(I.load_obj(st, o), p))
            m, pos, (_, kind, tk) = x[1]
            ss = slots(m) if kind == "into" else mapval(st, m)
            ords = order(I, tk)
            npos, found, ptrs, out = const(len(ords), 4), 0, [], None
            for j in reversed(range(len(ords))):
                c = B.and_(has(ss[ords[j]]), B.not_(bdd.ult(const(j, 4), pos[1])))
                npos = vite(c, const(j + 1, 4), npos)
            for j, i in enumerate(ords):
                c = B.and_(has(ss[i]), B.not_(bdd.ult(const(j, 4), pos[1])))
                c = B.and_(c, B.not_(found))
                found = B.or_(found, c)
                if not B.and_(st.g, c):
                    continue
                kobj = ("S", f"key{tk}.{i}")
                st.mem.setdefault(kobj, key(I, tk, i))
                if kind == "into":
                    v = ("a", (key(I, tk, i), val(ss[i])))
                else:
                    kp = rt.P(kobj)
                    vp = ("p", tuple((h, (o2, p2 + (i, ("v", 1, 0)))) for h, o2, p2 in rt.targets(I, st, m)), None)
                    v = {"iter": ("a", (kp, vp)), "values": vp, "keys": kp}[kind]
                out = v if out is None else merge(c, v, out)
            y = some(out if out is not None else U, found if out is not None else 0)
            r = y if r is None else merge(g, y, r)
            st.mem[o] = I.write_path(I.load_obj(st, o), p, ("a", (m, ("b", npos), x[1][2])), g)
        return st, r
    K = "|".join({re.escape(I.T[t]["s"]) for t in range(len(I.T)) if I.T[t]["k"] == "enum" and not any(v["f"] for v in I.T[t]["v"])})
    M = rf"(?:std|alloc)::collections::BTreeMap::<(?:{K}), .*>::"
    reg(M + "new", new)
    reg(rf"<(?:std|alloc)::collections::BTreeMap<(?:{K}), .*> as std::default::Default>::default", new)
    reg(M + r"get(_mut)?::<.*>", get)
    reg(M + r"contains_key::<.*>", contains)
    reg(M + "insert", insert)
    reg(M + r"remove::<.*>", remove)
    reg(M + "len", length)
    reg(M + "is_empty", is_empty)
    reg(M + "entry", entry)
    reg(M + r"iter(_mut)?", it("iter"))
    reg(M + r"values(_mut)?", it("values"))
    reg(M + "keys", it("keys"))
    reg(rf"<(?:std|alloc)::collections::BTreeMap<(?:{K}), .*> as std::ops::Index<.*>>::index", index)
    reg(rf"<&(?:mut )?(?:std|alloc)::collections::BTreeMap<(?:{K}), .*> as std::iter::IntoIterator>::into_iter", it("iter"))
    reg(rf"<(?:std|alloc)::collections::BTreeMap<(?:{K}), .*> as std::iter::IntoIterator>::into_iter", it("into"))
    E = r"(?:std|alloc)::collections::btree_map::"
    reg(E + rf"VacantEntry::<'_, (?:{K}), .*>::insert(_entry)?", vacant_insert)
    reg(E + rf"OccupiedEntry::<'_, (?:{K}), .*>::(into_mut|get|get_mut)", into_mut)
    reg(E + rf"OccupiedEntry::<'_, (?:{K}), .*>::insert", occ_insert)
    reg(E + rf"Entry::<'_, (?:{K}), .*>::or_(default|insert)", or_insert)
    reg(rf"<{E}(?:Iter|IterMut|Values|ValuesMut|IntoIter|Keys|IntoValues)<(?:'_, )?(?:{K}), .*> as std::iter::Iterator>::next", nxt)
    reg(rf"<{E}(?:Iter|IterMut|Values|ValuesMut|IntoIter|Keys)<(?:'_, )?(?:{K}), .*> as std::iter::IntoIterator>::into_iter",
        lambda I, st, inst, args, site: (st, args[0]))
    old = I.fresh

    def fresh_(t, name, cls=1):
        if is_map(I, t):
            return fresh_map(I, t, name)
        return old(t, name, cls)
    I.fresh = fresh_
