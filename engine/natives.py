"""Models of standard-library types the analyses treat as primitive."""
import itertools
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, merge, bv, boolv, UNIT, U, Unsupported, clog2

_heap = itertools.count(1)


def box_ty(I, t):
    ty = I.T[t]
    return ty["k"] == "struct" and ty.get("def") in ("std::boxed::Box", "alloc::boxed::Box")


def ptr_value(I, t, ptr):
    """A value of (transparent pointer wrapper) type t holding ptr."""
    ty = I.T[t]
    if ty["k"] in ("ptr", "ref", "other"):
        return ptr
    if ty["k"] != "struct":
        raise Unsupported(f"pointer wrapper {ty['s']}")
    out = []
    done = False
    for f in ty["v"][0]["f"]:
        if not done and not I.is_zst(f[1]):
            out.append(ptr_value(I, f[1], ptr))
            done = True
        else:
            out.append(I.zst(f[1]))
    return ("a", tuple(out))


def box_value(I, t, obj):
    return ptr_value(I, t, ("p", ((1, (obj, ())),), None))


def strip(v):
    while v[0] == "o" and v[1] and all(a[0] == "val" for _, a in v[1]):
        r = v[1][0][1][1]
        for g, a in v[1][1:]:
            r = merge(g, a[1], r)
        if r == v:
            break
        v = r
    return v


def boxes(I):
    """Box::new and dropping of boxes."""
    I.boxes = True
    I.strip = strip

    def new(I, st, inst, args, site):
        t = None
        for i, x in enumerate(I.T):
            if x.get("def") in ("std::boxed::Box", "alloc::boxed::Box") and x["k"] == "struct" and x["args"] and x["args"][0] == inst["args"][0]:
                t = i
        if t is None:
            raise Unsupported("box type")
        obj = ("H", next(_heap))
        st.mem[obj] = args[0]
        return st, box_value(I, t, obj)
    for k, i in I.F.insts.items():
        if i["nm"].startswith("std::boxed::Box::<") and i["nm"].endswith(">::new"):
            I.models[i["nm"]] = new


def closure_inst(I, t):
    """The instance that is the body of closure type t, and whether it takes self by reference."""
    d = I.T[t].get("def")
    hit = []
    for k, i in I.F.insts.items():
        if i["def"] == d and i.get("body"):
            p = i["body"]["locals"][1]
            if p == t:
                hit.append((k, False))
            elif I.T[p]["k"] == "ref" and I.T[p]["e"] == t:
                hit.append((k, True))
    if len(hit) != 1:
        raise Unsupported(f"{len(hit)} bodies of {I.T[t]['s']}")
    return hit[0]


def call_closure(I, st, t, f, args):
    key, byref = closure_inst(I, t)
    if byref:
        obj = ("H", next(_heap))
        st.mem[obj] = f
        f = ("p", ((1, (obj, ())),), None)
    return I.call(st, key, [f] + list(args))


def exists(f, bits):
    if f in (0, 1):
        return f
    for x in bits:
        if x > 1:
            f = B.or_(B.cofactor(f, {x: 0}), B.cofactor(f, {x: 1}))
    return f


def arrays(I, limit=64):
    """array::from_fn and array::map over long arrays, element by element on demand."""
    def lazily(I, st, t, f, n, elem, ety, site):
        def at(st, idx):
            s2 = State(B.and_(st.g, bdd.ult(idx, const(n, 64))), dict(st.mem), st.tr)
            fs, v = call_closure(I, s2, t, f, (elem(idx),))
            if fs is None:
                return None, U
            if fs.tr is not s2.tr and len(fs.tr.slots) != len(s2.tr.slots):
                raise Unsupported("array initialiser with effects")
            return fs, v
        snap = State(st.g, dict(st.mem), st.tr)
        idx = fresh(f"elem#{next(_heap)}", 64, 0)
        fs, v = at(snap, idx)
        # indexes for which there is no element value: the whole call does not return
        g = B.and_(st.g, bdd.ult(idx, const(n, 64)))
        dead = B.and_(g, B.not_(fs.g if fs is not None else 0))
        dead = exists(dead, idx)
        mark = len(I.panics)

        def sel(i):
            r = at(snap, i)[1]
            del I.panics[mark:]
            return r
        return st.fork(B.not_(dead)) if dead else st, ("A", ety, n, ("fn", sel))

    def from_fn(I, st, inst, args, site):
        ety, n, t = inst["args"]
        if n["const"] <= limit:
            return NotImplemented
        return lazily(I, st, t, args[0], n["const"], lambda i: ("b", i), ety, site)

    def amap(I, st, inst, args, site):
        ety, n, t, u = inst["args"]
        if n["const"] <= limit:
            return NotImplemented
        src = args[0]
        return lazily(I, st, t, args[1], n["const"], lambda i: I.read_path(src, (("i", i),)), u, site)
    for k, i in I.F.insts.items():
        if i["nm"].startswith("std::array::from_fn::<"):
            I.models[i["nm"]] = from_fn
        elif i["nm"].startswith("std::array::<impl [") and ">::map::<" in i["nm"] or i["nm"].startswith("std::array::<impl [") and "]>::map::<" in i["nm"]:
            I.models[i["nm"]] = amap
