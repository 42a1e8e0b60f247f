"""Models of the standard library's containers, strings, errors and files.

A Vec (or String) is (length, array term).  A file is seen through one
arbitrary but fixed position: the content at that position, the cursor, and
whether an operation failed.  What is read comes from one unknown array."""
import itertools
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import State, Trace, merge, atom, bv, boolv, U, UNIT, Unsupported, Unbounded, clog2, join
import natives
import text

_n = itertools.count(1)
FILE = ("S", "file")
FILEISH = r"(?:&mut )*(?:std::io::Buf(?:Reader|Writer)<)?(?:&mut )*(?:vharness::AnyFile|std::fs::File)>?"


def P(o, *path):
    return ("p", ((1, (o, tuple(path))),), None)


def targets(I, st, v):
    return [(g, o, p) for g, (o, p) in I.as_ptr(st, v)[1]]


def deref(I, st, v):
    return I.read_targets(st, targets(I, st, v))


def ok(v=UNIT, err=U):
    return ("e", (0,), ((v,), (err,)))


def result(bad, v, err):
    return ("e", (bad,), ((v,), (err,)))


def option(some, v):
    return ("e", (some,), ((), (v,)))


def add64(a, b):
    return bdd.add(zext(a, 64), zext(b, 64))[0]


# ------------------------------------------------------------------- vectors
def vec_empty(I, t):
    return ("a", (bv(0, 64), ("A", t, None, ("base", f"void{next(_n)}"))))


def is_vec(v):
    return v[0] == "a" and len(v[1]) == 2 and v[1][0][0] == "b" and v[1][1][0] == "A"


def as_vec(v):
    v = natives.strip(v)
    if not is_vec(v):
        raise Unsupported(f"vector value {v[0]}")
    return v


def vlen(v):
    return as_vec(v)[1][0][1]


def vget(I, v, i):
    return I.arr_select(as_vec(v)[1][1], i)


def get_where(I, c, v, i):
    """The element at index i, as far as it matters where c."""
    ety, term = as_vec(v)[1][1][1], as_vec(v)[1][1][3]
    i = narrow(c, i)

    def rec(c, term):
        if term[0] == "st":
            hit = eq(narrow(c, term[2]), i)
            ch, cr = B.and_(c, hit), B.and_(c, B.not_(hit))
            if not cr:
                return narrow_value(c, term[3])
            if not ch:
                return rec(c, term[1])
            return merge(hit, narrow_value(ch, term[3]), rec(cr, term[1]))
        if term[0] == "ite":
            ca, cb = B.and_(c, term[1]), B.and_(c, B.not_(term[1]))
            if not cb:
                return rec(c, term[2])
            if not ca:
                return rec(c, term[3])
            return merge(B.restrict(term[1], c), rec(ca, term[2]), rec(cb, term[3]))
        return I.term_select(ety, term, i)
    return rec(c, term)


def narrow_value(c, v):
    """A value, simplified where c."""
    if c == 1:
        return v
    if v[0] == "b":
        return ("b", narrow(c, v[1]))
    if v[0] == "a":
        return ("a", tuple(narrow_value(c, x) for x in v[1]))
    if v[0] == "e":
        t = narrow(c, v[1])
        ps = []
        for k, p in enumerate(v[2]):
            ck = B.and_(c, eqc(t, k))
            ps.append(tuple(narrow_value(ck, x) for x in p) if ck else p)
        return ("e", t, tuple(ps))
    return v


def fresh_vec(I, t, name, bits=16):
    return ("a", (("b", zext(fresh(f"{name}.len", bits), 64)), ("A", t, None, ("base", name))))


def slice_of(I, st, v):
    """Slice pointer to the content of the vectors v points to."""
    ts, m = [], None
    for g, o, p in targets(I, st, v):
        x = as_vec(I.read_path(I.load_obj(st, o), p))
        ts.append((g, (o, p + (1, ("s", const(0, 64))))))
        m = x[1][0] if m is None else merge(g, x[1][0], m)
    return ("p", tuple(ts), m)


def slice_len(v):
    if v[0] != "p" or v[2] is None or v[2][0] != "b":
        raise Unsupported("length of a slice")
    return v[2][1]


def slice_get(I, st, v, i):
    r = None
    for g, (o, p) in v[1]:
        x = I.read_path(I.load_obj(st, o), I.idx(p, i) if p and not isinstance(p[-1], int) and p[-1][0] == "s" else p + (("i", i),))
        r = x if r is None else merge(g, x, r)
    return r


def slice_term(I, st, v, t):
    """The content of a slice as an array value (a snapshot)."""
    objs = [(g, I.load_obj(st, o), p) for g, (o, p) in v[1]]

    def sel(i):
        r = None
        for g, ob, p in objs:
            if p and not isinstance(p[-1], int) and p[-1][0] == "s":
                q = I.idx(p, i)
            else:
                q = p + (("i", i),)
            x = I.read_path(ob, q)
            r = x if r is None else merge(g, x, r)
        return r
    if len(objs) == 1:
        g, ob, p = objs[0]
        if len(p) and not isinstance(p[-1], int) and p[-1][0] == "s" and to_int(p[-1][1]) == 0:
            a = I.read_path(ob, p[:-1])
            if a[0] == "A":
                return ("A", t, None, a[3])
    return ("A", t, None, ("fn", sel))


def sub_slice(I, st, v, lo, hi):
    ts = []
    for g, (o, p) in v[1]:
        if not (p and not isinstance(p[-1], int) and p[-1][0] == "s"):
            p = p + (("s", const(0, 64)),)
        ts.append((g, (o, p[:-1] + (("s", bdd.add(p[-1][1], lo)[0]),))))
    return ("p", tuple(ts), ("b", bdd.sub(hi, lo)[0]))


def guard(I, st, cond, site, what):
    """Panic where cond; the state where it does not hold."""
    bad = st.fork(cond)
    if bad is not None:
        I.panic(bad, site, what)
    return st.fork(B.not_(cond))


def upd(I, st, ptr, f):
    for g, o, p in targets(I, st, ptr):
        old = I.load_obj(st, o)
        st.mem[o] = I.write_path(old, p, f(I.read_path(old, p)), g)


def bytes_eq(I, st, a, b):
    """Equality of two byte slices (or str)."""
    la, lb = slice_len(a), slice_len(b)
    same = eq(la, lb)
    if not same:
        return 0
    for x, y, n in ((a, b, to_int(la)), (b, a, to_int(lb))):
        if n is not None:
            r = same
            for i in range(n):
                if not r:
                    break
                r = B.and_(r, I.val_eq(slice_get(I, st, x, const(i, 64)), slice_get(I, st, y, const(i, 64))))
            return r
    if a == b:
        return 1
    ta, tb = slice_term(I, st, a, None)[3], slice_term(I, st, b, None)[3]
    if ta == tb:
        return same
    ka, kb = content_key(I, st, a), content_key(I, st, b)
    if ka == kb:
        return same
    return B.and_(same, B.var("samestr(" + ",".join(sorted((repr(ka), repr(kb)))) + ")", 0, 0))


def content_key(I, st, a):
    """A name for the content of a slice: its byte at an arbitrary position."""
    i = fresh("probe*", 16)
    v = slice_get(I, st, a, zext(i, 64))
    return (v, slice_len(a))


def install_vec(I):
    F = I.F

    def reg(pat, f):
        rx = re.compile(pat)
        for i in F.insts.values():
            m = rx.fullmatch(i["nm"])
            if m:
                I.models[i["nm"]] = f

    def elem(inst):
        for t in inst["args"]:
            if isinstance(t, int):
                return t
        return I.u8()

    def new(I, st, inst, args, site):
        return st, vec_empty(I, elem(inst))

    def length(I, st, inst, args, site):
        return st, ("b", slice_of(I, st, args[0])[2][1])

    def is_empty(I, st, inst, args, site):
        return st, boolv(eqc(slice_of(I, st, args[0])[2][1], 0))

    def deref_(I, st, inst, args, site):
        return st, slice_of(I, st, args[0])

    def push(I, st, inst, args, site):
        x = args[1]

        def f(v):
            v = as_vec(v)
            n, a = v[1]
            return ("a", (("b", bdd.add(n[1], const(1, 64))[0]), I.arr_store(a, n[1], (), x, 1)))
        upd(I, st, args[0], f)
        return st, UNIT

    def pop(I, st, inst, args, site):
        r = None
        for g, o, p in targets(I, st, args[0]):
            v = as_vec(I.read_path(I.load_obj(st, o), p))
            n, a = v[1]
            some = B.not_(eqc(n[1], 0))
            last = bdd.sub(n[1], const(1, 64))[0]
            x = option(some, I.arr_select(a, last))
            r = x if r is None else merge(g, x, r)
            nv = ("a", (("b", vite(some, last, n[1])), a))
            st.mem[o] = I.write_path(I.load_obj(st, o), p, nv, g)
        return st, r

    def clear(I, st, inst, args, site):
        upd(I, st, args[0], lambda v: ("a", (bv(0, 64), as_vec(v)[1][1])))
        return st, UNIT

    def truncate(I, st, inst, args, site):
        n = args[1][1]
        upd(I, st, args[0], lambda v: ("a", (("b", vite(bdd.ult(n, vlen(v)), n, vlen(v))), as_vec(v)[1][1])))
        return st, UNIT

    def resize(I, st, inst, args, site):
        n, x = args[1][1], args[2]

        def f(v):
            m, a = as_vec(v)[1]

            def sel(i):
                return merge(bdd.ult(i, m[1]), I.arr_select(a, i), x)
            return ("a", (("b", n), ("A", a[1], None, ("fn", sel))))
        upd(I, st, args[0], f)
        return st, UNIT

    def resize_with(I, st, inst, args, site):
        t = I.T[next(a for a in inst["args"] if isinstance(a, int) and I.T[a]["k"] in ("fndef", "closure"))]
        if t["k"] == "fndef":
            st, x = I.call(st, t["inst"], [])
        elif t.get("size") == 0:
            st, x = natives.call_closure(I, st, next(a for a in inst["args"] if isinstance(a, int) and I.T[a]["k"] == "closure"), args[2], ())
        else:
            raise Unsupported("resize_with of a closure with captures")
        if st is None:
            return None, None
        return resize(I, st, inst, [args[0], args[1], x], site)

    def remove(I, st, inst, args, site):
        i = args[1][1]
        n = slice_of(I, st, args[0])[2][1]
        st = guard(I, st, B.not_(bdd.ult(i, n)), site, "index out of bounds")
        if st is None:
            return None, None
        r = None
        for g, o, p in targets(I, st, args[0]):
            v = as_vec(I.read_path(I.load_obj(st, o), p))
            m, a = v[1]
            x = I.arr_select(a, i)
            r = x if r is None else merge(g, x, r)

            def sel(j, a=a):
                return merge(bdd.ult(j, i), I.arr_select(a, j), I.arr_select(a, bdd.add(j, const(1, 64))[0]))
            nv = ("a", (("b", bdd.sub(m[1], const(1, 64))[0]), ("A", a[1], None, ("fn", sel))))
            st.mem[o] = I.write_path(I.load_obj(st, o), p, nv, g)
        return st, r

    def swap_remove(I, st, inst, args, site):
        i = args[1][1]
        n = slice_of(I, st, args[0])[2][1]
        st = guard(I, st, B.not_(bdd.ult(i, n)), site, "index out of bounds")
        if st is None:
            return None, None
        r = None
        for g, o, p in targets(I, st, args[0]):
            v = as_vec(I.read_path(I.load_obj(st, o), p))
            m, a = v[1]
            x = I.arr_select(a, i)
            r = x if r is None else merge(g, x, r)
            last = bdd.sub(m[1], const(1, 64))[0]

            def sel(j, a=a, last=last):
                return merge(eq(j, i), I.arr_select(a, last), I.arr_select(a, j))
            nv = ("a", (("b", last), ("A", a[1], None, ("fn", sel))))
            st.mem[o] = I.write_path(I.load_obj(st, o), p, nv, g)
        return st, r

    def clone(I, st, inst, args, site):
        return st, deref(I, st, args[0])

    def to_vec(I, st, inst, args, site):
        return st, ("a", (("b", slice_len(args[0])), slice_term(I, st, args[0], elem(inst))))

    def extend(I, st, inst, args, site):
        append(I, st, args[0], slice_len(args[1]), slice_term(I, st, args[1], elem(inst)))
        return st, UNIT

    def append_all(I, st, inst, args, site):
        # a whole vector, which is left empty or consumed
        v = deref(I, st, args[1]) if args[1][0] == "p" else args[1]
        n, a = as_vec(v)[1]
        append(I, st, args[0], n[1], a)
        if args[1][0] == "p":
            upd(I, st, args[1], lambda old: vec_empty(I, as_vec(old)[1][1][1]))
        return st, UNIT

    def index(I, st, inst, args, site):
        sl = slice_of(I, st, args[0])
        return I.call_index(st, sl, inst["nm"], args[1], site)

    def call_index(st, sl, nm, ix, site):
        n = slice_len(sl)
        m = re.search(r"Index(?:Mut)?<(?:std::ops::)?(\w+)", nm) or re.search(r"<(?:std::ops::)?(\w+)(?:<usize>)? as std::slice::SliceIndex", nm)
        kind = m.group(1)
        if kind == "usize":
            i = ix[1]
            st = guard(I, st, B.not_(bdd.ult(i, n)), site, "index out of bounds")
            if st is None:
                return None, None
            ts = []
            for g, (o, p) in sl[1]:
                ts.append((g, (o, I.idx(p, i))))
            return st, ("p", tuple(ts), None)
        lo, hi = const(0, 64), n
        if kind == "RangeFrom":
            lo = ix[1][0][1]
        elif kind == "RangeTo":
            hi = ix[1][0][1]
        elif kind == "Range":
            lo, hi = ix[1][0][1], ix[1][1][1]
        elif kind == "RangeInclusive":
            lo, hi = ix[1][0][1], bdd.add(ix[1][1][1], const(1, 64))[0]
        elif kind != "RangeFull":
            raise Unsupported(f"index {nm}")
        bad = B.or_(bdd.ult(n, hi), bdd.ult(hi, lo))
        st = guard(I, st, bad, site, "slice range out of bounds")
        if st is None:
            return None, None
        return st, sub_slice(I, st, sl, lo, hi)
    I.call_index = call_index

    def str_index(I, st, inst, args, site):
        return call_index(st, args[0], inst["nm"], args[1], site)

    def fill(I, st, inst, cell, it, site):
        """Append what an iterator yields, calling its `next` until it ends."""
        if inst.get("next") is None:
            raise Unsupported("iterator of " + inst["nm"][:160])
        # elements read from an iterator over references are copied
        ptr = cell if cell[0] == "p" else P(cell)
        vt = I.T[as_vec(deref(I, st, ptr))[1][1][1]]
        here = ("S", f"iterator {next(natives._heap)}")
        st.mem[here] = it
        done = None
        for _ in range(I.unroll):
            st, v = I.call(st, inst["next"], [P(here)], site)
            if st is None:
                break
            some = where(st.g, v[1][0])
            done = join(done, st.fork(B.not_(some)))
            st = st.fork(some)
            if st is None:
                break
            x = v[2][1][0]
            if x[0] == "p" and vt["k"] not in ("ref", "ptr"):
                x = deref(I, st, x)
            push(I, st, None, [ptr, x], site)
        else:
            raise Unbounded(inst["nm"])
        if done is not None:
            done.mem.pop(here, None)
        return done

    def spec_from_iter(I, st, inst, args, site):
        cell = ("S", f"collected {next(natives._heap)}")
        st.mem[cell] = vec_empty(I, I.T[inst["body"]["locals"][0]]["args"][0])
        st = fill(I, st, inst, cell, args[0], site)
        return (st, st.mem.pop(cell)) if st is not None else (None, None)

    def spec_extend(I, st, inst, args, site):
        st = fill(I, st, inst, args[0], args[1], site)
        return (st, UNIT) if st is not None else (None, None)

    def into_iter(I, st, inst, args, site):
        v = as_vec(args[0])
        return st, ("a", (v, bv(0, 64)))

    def ref_iter(I, st, inst, args, site):
        sl = slice_of(I, st, args[0])
        fl = I.T[inst["body"]["locals"][0]]["v"][0]["f"]
        end = ("p", tuple((g, (o, I.idx(p, sl[2][1]))) for g, (o, p) in sl[1]), None)
        start = ("p", tuple((g, (o, I.idx(p, const(0, 64)))) for g, (o, p) in sl[1]), None)
        return st, ("a", tuple(natives.ptr_value(I, f[1], start) if f[0] == "ptr" else
                               end if f[0] == "end_or_len" else I.zst(f[1]) for f in fl))

    def into_next(I, st, inst, args, site):
        r = None
        for g, o, p in targets(I, st, args[0]):
            it = I.read_path(I.load_obj(st, o), p)
            v, i = it[1]
            some = bdd.ult(i[1], vlen(v))
            x = option(some, vget(I, v, i[1]))
            r = x if r is None else merge(g, x, r)
            nv = ("a", (v, ("b", vite(some, bdd.add(i[1], const(1, 64))[0], i[1]))))
            st.mem[o] = I.write_path(I.load_obj(st, o), p, nv, g)
        return st, r
    V = r"std::vec::Vec::<.*>::"
    reg(V + r"(new|with_capacity|new_in|with_capacity_in)", new)
    reg(r"<std::vec::Vec<.*> as std::default::Default>::default", new)
    reg(V + r"len", length)
    reg(V + r"is_empty", is_empty)
    reg(r"<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?|" + V + r"as_(mut_)?slice", deref_)
    reg(V + r"push", push)
    reg(V + r"pop", pop)
    reg(V + r"clear", clear)
    reg(V + r"truncate", truncate)
    reg(V + r"(try_)?reserve(_exact)?|" + V + r"shrink_to_fit", lambda I, st, inst, args, site: (st, UNIT))
    reg(V + r"remove", remove)
    reg(V + r"swap_remove", swap_remove)
    reg(V + r"resize_with::<.*>", resize_with)
    reg(V + r"resize", resize)
    reg(r"<std::vec::Vec<.*> as std::vec::(spec_from_iter::SpecFromIter|spec_from_iter_nested::SpecFromIterNested)<.*>>::from_iter", spec_from_iter)
    reg(r"<std::vec::Vec<.*> as std::vec::spec_extend::SpecExtend<.*>>::spec_extend", spec_extend)
    reg(V + r"append", append_all)
    reg(r"<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend::<std::vec::Vec<.*>>", append_all)
    reg(r"<std::vec::Vec<.*> as std::clone::Clone>::clone", clone)
    reg(r"(?:std|alloc)::slice::<impl \[.*\]>::to_vec|<\[.*\] as std::borrow::ToOwned>::to_owned|<std::vec::Vec<.*> as std::convert::From<&(mut )?\[.*\]>>::from", to_vec)
    reg(V + r"extend_from_slice|<std::vec::Vec<u8> as std::io::Write>::write_all", extend)
    reg(r"<std::vec::Vec<.*> as std::ops::Index(Mut)?<.*>>::index(_mut)?", index)
    reg(r"core::str::traits::<impl std::ops::Index<.*> for str>::index", str_index)
    reg(r"<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter", into_iter)
    reg(r"<&(?:mut )?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter", ref_iter)
    reg(r"<std::vec::IntoIter<.*> as std::iter::Iterator>::next", into_next)

    # ---- strings as byte vectors
    def str_eq(I, st, inst, args, site):
        a, b = (I.as_ptr(st, x) for x in args)
        while a[2] is None:
            a = I.as_ptr(st, deref(I, st, a))
        while b[2] is None:
            b = I.as_ptr(st, deref(I, st, b))
        r = bytes_eq(I, st, a, b)
        return st, boolv(B.not_(r) if inst["nm"].endswith("::ne") else r)

    def lossy(I, st, inst, args, site):
        return st, ("e", const(0, 1), ((args[0],), (U,)))

    def cow_slice(I, st, v):
        if v[0] != "e" or to_int(v[1]) != 0:
            raise Unsupported("owned Cow")
        return v[2][0][0]

    def box_str(I, st, inst, args, site):
        v = args[0]
        if v[0] == "e":
            v = cow_slice(I, st, v)
        if is_vec(natives.strip(v)):
            v = as_vec(v)
            n, t = v[1][0], v[1][1]
        elif v[0] == "a":           # (a box already)
            return st, v
        else:
            n, t = ("b", slice_len(v)), slice_term(I, st, v, I.u8())
        obj = ("H", f"str{next(_n)}")
        st.mem[obj] = t
        bt = None
        for i, x in enumerate(I.T):
            if x["s"] in ("std::boxed::Box<str>", "alloc::boxed::Box<str>"):
                bt = i
        return st, natives.ptr_value(I, bt, ("p", ((1, (obj, (("s", const(0, 64)),))),), n))

    def to_string(I, st, inst, args, site):
        v = args[0]
        if v[0] == "e":
            v = cow_slice(I, st, v)
        return st, ("a", (("b", slice_len(v)), slice_term(I, st, v, I.u8())))

    def as_is(I, st, inst, args, site):
        return st, args[0]

    def mem_eq(I, st, inst, args, site):
        r = bytes_eq(I, st, args[0], args[1])
        return st, boolv(r)

    def cow_deref(I, st, inst, args, site):
        return st, cow_slice(I, st, deref(I, st, args[0]))

    def cow_into_owned(I, st, inst, args, site):
        return to_string(I, st, inst, [cow_slice(I, st, args[0])], site)

    def find_byte(st, x, sl):
        """(found, first place) of a byte in a slice."""
        n = slice_len(sl)
        if to_int(n) is not None and to_int(n) <= 32:
            r, pos = 0, const(0, 64)
            for i in reversed(range(to_int(n))):
                c = eq(slice_get(I, st, sl, const(i, 64))[1], x)
                pos = vite(c, const(i, 64), pos)
                r = B.or_(r, c)
            return r, pos
        k = f"{x}:{content_key(I, st, sl)}"
        i = zext(fresh(f"find({k})", 17), 64)
        r = B.var(f"found({k})", 0, 0)
        # (which place is left open: only that there is one)
        r = B.and_(r, B.not_(eqc(n, 0)))
        return r, vite(bdd.ult(i, n), i, const(0, 64))

    def memchr(I, st, inst, args, site):
        r, i = find_byte(st, args[0][1], args[1])
        return st, option(r, ("b", i))

    def has_char(I, st, inst, args, site):
        c = to_int(args[1][1])
        if c is None or c > 127:
            return NotImplemented
        b = I.const_str(args[0])
        if b is not None:
            return st, boolv(1 if chr(c) in b.decode() else 0)
        return st, boolv(find_byte(st, const(c, 8), args[0])[0])

    def box_uninit(I, st, inst, args, site):
        ta = inst["args"][0]
        for i, x in enumerate(I.T):
            if x.get("def") in ("std::boxed::Box", "alloc::boxed::Box") and x["k"] == "struct" and x["args"]:
                e = I.T[x["args"][0]]
                if e.get("def", "").endswith("MaybeUninit") and e["args"][0] == ta:
                    obj = ("H", next(natives._heap))
                    st.mem[obj] = ("a", (UNIT, ("a", (U,))))
                    return st, natives.box_value(I, i, obj)
        raise Unsupported("an uninitialised box")

    def box_into_vec(I, st, inst, args, site):
        ety, n = inst["args"][0], inst["args"][1]["const"]
        (g, (o, p)), = I.as_ptr(st, args[0])[1]
        # (MaybeUninit.value, ManuallyDrop.value and what else wraps the array)
        arr = I.read_path(I.load_obj(st, o), p + (1, 0))
        if n == 1 and arr[0] == "a" and I.T[ety]["k"] not in ("int", "uint", "bool"):
            ft = I.T[ety]
            if ft["k"] == "tuple":
                nf = len(ft["fields"])
            else:
                nf = len(ft["v"][0]["f"]) if ft["k"] == "struct" else 1
            if nf < 2:
                raise Unsupported("a boxed array of one structure")
            # (an array of one, or its element seen through it)
            xs = [arr[1][0] if len(arr[1]) == 1 else arr]
        else:
            xs = [I.read_path(arr, (i,)) for i in range(n)]

        def sel(i):
            r = xs[-1] if xs else U
            for k in range(len(xs) - 1):
                r = merge(eqc(i, k), xs[k], r)
            return r
        return st, ("a", (bv(n, 64), ("A", ety, None, ("fn", sel))))

    def starts_char(I, st, inst, args, site):
        c = to_int(args[1][1])
        if c is None or c > 127:
            return NotImplemented
        v = args[0]
        n = slice_len(v)
        nz = B.not_(eqc(n, 0))
        return st, boolv(B.and_(nz, eqc(slice_get(I, st, v, const(0, 64))[1], c)))

    def starts_str(I, st, inst, args, site):
        b = I.const_str(args[1])
        if b is None:
            return NotImplemented
        r = B.not_(bdd.ult(slice_len(args[0]), const(len(b), 64)))
        for i, c in enumerate(b):
            r = B.and_(r, eqc(slice_get(I, st, args[0], const(i, 64))[1], c))
        return st, boolv(r)
    def affix(inst, st, v, p, front):
        """(has the slice the affix, its length)"""
        p = I.as_ptr(st, p)
        m = re.search(r"::<\[\w+; (\d+)\]>$", inst["nm"])
        if p[2] is not None:
            k = to_int(narrow(st.g, slice_len(p)))
        elif m:
            k = int(m.group(1))
        else:
            k = None
        if k is None:
            raise Unsupported("an affix of unknown length")
        n = slice_len(v)
        r = B.not_(bdd.ult(n, const(k, 64)))
        for i in range(k):
            if not r:
                break
            at = const(i, 64) if front else bdd.sub(n, const(k - i, 64))[0]
            x = slice_get(I, st, p, const(i, 64)) if p[2] is not None else I.read_targets(st, [(g, o, q + (i,)) for g, (o, q) in p[1]])
            r = B.and_(r, I.val_eq(slice_get(I, st, v, at), x))
        return r, k

    def has_affix(front):
        return lambda I, st, inst, args, site: (st, boolv(affix(inst, st, args[0], args[1], front)[0]))

    def without_affix(front):
        def f(I, st, inst, args, site):
            r, k = affix(inst, st, args[0], args[1], front)
            n = slice_len(args[0])
            lo, hi = (const(k, 64), n) if front else (const(0, 64), bdd.sub(n, const(k, 64))[0])
            return st, option(where(st.g, r), sub_slice(I, st, args[0], lo, hi))
        return f
    for f_, w_ in (("starts_with", "strip_prefix"), ("ends_with", "strip_suffix")):
        reg(r"core::slice::<impl \[u8\]>::" + f_, has_affix(f_ == "starts_with"))
        reg(r"core::slice::<impl \[u8\]>::" + w_ + r"::<.*>", without_affix(f_ == "starts_with"))
    reg(r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)|std::cmp::impls::<impl std::cmp::PartialEq for &(mut )?str>::(eq|ne)", str_eq)
    reg(r"std::string::String::from_utf8_lossy", lossy)
    reg(r"<std::borrow::Cow<'_, str> as std::convert::Into<std::boxed::Box<str>>>::into|std::string::String::into_boxed_str|"
        r"<str as std::convert::Into<std::boxed::Box<str>>>::into|.*std::convert::From<&str> for std::boxed::Box<str>>::from|"
        r"<std::boxed::Box<str> as std::convert::From<.*>>::from|.*std::convert::From<std::borrow::Cow<'_, str>> for std::boxed::Box<str>>::from|"
        r".*std::convert::From<std::string::String> for std::boxed::Box<str>>::from|<.* as std::convert::Into<std::boxed::Box<str>>>::into", box_str)
    reg(r"<std::borrow::Cow<'_, str> as std::ops::Deref>::deref", cow_deref)
    reg(r"std::borrow::Cow::<'_, str>::into_owned", cow_into_owned)
    reg(r"std::string::String::(new|with_capacity)", new)
    reg(r"std::string::String::len", length)
    reg(r"std::string::String::is_empty", is_empty)
    reg(r"<std::string::String as std::ops::Deref>::deref|std::string::String::as_str|std::string::String::as_bytes", deref_)
    reg(r"std::string::String::into_bytes", as_is)
    reg(r"std::string::String::clear", clear)
    reg(r"<std::string::String as std::clone::Clone>::clone", clone)
    reg(r"<std::string::String as std::convert::From<&str>>::from|<str as std::borrow::ToOwned>::to_owned|<str as std::string::ToString>::to_string|"
        r"std::str::<impl std::borrow::ToOwned for str>::to_owned|<str as std::string::SpecToString>::spec_to_string|.*ToOwned for str>::to_owned", to_string)
    reg(r"std::boxed::Box::<\[.*; \d+\]>::new_uninit", box_uninit)
    reg(r"std::boxed::box_assume_init_into_vec_unsafe::<.*>", box_into_vec)
    reg(r"core::str::<impl str>::contains::<char>", has_char)
    reg(r"core::slice::memchr::memchr", memchr)
    reg(r"core::str::<impl str>::starts_with::<char>", starts_char)
    reg(r"core::str::<impl str>::starts_with::<&str>", starts_str)
    reg(r"<\[u8\] as core::slice::cmp::SlicePartialEq<u8>>::equal|core::slice::cmp::<impl std::cmp::PartialEq(?:<\[u8\]>)? for \[u8\]>::eq|.*SlicePartialEq<u8>>::equal(?:_same_length)?", mem_eq)
    # fresh containers
    old = I.fresh

    def fresh_(t, name, cls=1):
        ty = I.T[t]
        d = ty.get("def", "")
        if ty["k"] == "struct" and d.endswith("vec::Vec"):
            return fresh_vec(I, ty["args"][0], name)
        if ty["k"] == "struct" and d.endswith("string::String"):
            return fresh_vec(I, I.u8(), name)
        if ty["k"] == "struct" and d.endswith("boxed::Box") and I.T[ty["args"][0]]["k"] == "str":
            obj = ("S", name + "*")
            I.objty[obj] = ty["args"][0]
            return natives.ptr_value(I, t, ("p", ((1, (obj, (("s", const(0, 64)),))),), ("b", zext(fresh(f"{name}.len", 16), 64))))
        return old(t, name, cls)
    I.fresh = fresh_
    # array selections, for consistency of one array read at two indexes
    I.selects = {}
    osel = I.term_select

    def tsel(ety, term, idx):
        r = osel(ety, term, idx)
        if term[0] == "base":
            I.selects.setdefault(term[1], {})[tuple(idx)] = r
        return r
    I.term_select = tsel


def append(I, st, vec, n, arr):
    """Append n elements of the array value arr to the vectors vec points to."""
    def f(v):
        v = as_vec(v)
        m, a = v[1]
        if to_int(m[1]) == 0:
            return ("a", (("b", n), ("A", a[1], None, arr[3])))

        def sel(i):
            return merge(bdd.ult(i, m[1]), I.arr_select(a, i), I.arr_select(arr, bdd.sub(i, m[1])[0]))
        return ("a", (("b", bdd.add(m[1], n)[0]), ("A", a[1], None, ("fn", sel))))
    upd(I, st, vec, f)


def consistent(I, cond, *others):
    """cond, restricted to worlds where one array holds one value per index."""
    sel = {}
    for J in (I,) + others:
        for k, d in J.selects.items():
            sel.setdefault(k, {}).update(d)
    for name, d in sel.items():
        items = list(d.items())
        if len(items) > 60:
            continue
        for n, (i, x) in enumerate(items):
            for j, y in items[n + 1:]:
                if not cond:
                    return 0
                c = eq(i, j)
                if c and x[0] == "b" and y[0] == "b":
                    cond = B.and_(cond, B.or_(B.not_(c), eq(x[1], y[1])))
    return cond


# --------------------------------------------------------------------- errors
class Errors:
    def __init__(self, I):
        self.I = I
        F = I.F
        self.t_kind = F.ty_named("std::io::ErrorKind")
        self.names = [v["name"] for v in F.tys[self.t_kind]["v"]]

        def reg(pat, f):
            rx = re.compile(pat)
            for i in F.insts.values():
                if rx.fullmatch(i["nm"]):
                    I.models[i["nm"]] = f
        reg(r"(?:alloc|std)::io::error::<impl std::io::Error>::(new|other)::<.*>|std::io::Error::(new|other)::<.*>", self.new)
        reg(r"std::io::Error::kind", lambda I, st, inst, args, site: (st, deref(I, st, args[0])[1][0]))
        reg(r"<std::io::Error as std::convert::From<std::io::ErrorKind>>::from", lambda I, st, inst, args, site: (st, ("a", (args[0],))))
        reg(r"std::io::Error::is_interrupted", lambda I, st, inst, args, site:
            (st, boolv(eqc(deref(I, st, args[0])[1][0][1], self.names.index("Interrupted")))))

    def new(self, I, st, inst, args, site):
        if "::other" in inst["nm"]:
            return st, self.err("Other")
        return st, ("a", (args[0],))

    def kind(self, n):
        i = self.names.index(n)
        return ("e", const(i, clog2(len(self.names))), ((),) * len(self.names))

    def err(self, n):
        return ("a", (self.kind(n),))

    def any(self, name):
        """An error of the device: any kind but the two with a meaning of their own."""
        w = clog2(len(self.names))
        t = fresh(name, w, 0)
        bad = 0
        for n in ("UnexpectedEof", "Interrupted"):
            bad = B.or_(bad, eqc(t, self.names.index(n)))
        bad = B.or_(bad, B.not_(bdd.ult(t, const(len(self.names), w))))
        return ("a", (("e", vite(bad, const(self.names.index("Other"), w), t), ((),) * len(self.names)),))


def narrow(g, v):
    """A number, simplified where g."""
    return v if g == 1 or to_int(v) is not None else tuple(B.restrict(b, g) for b in v)


def where(g, c):
    """c, if undecided where g."""
    if g == 1 or c in (0, 1):
        return c
    seen = {B.at(c, B.sample(g, seed)) for seed in range(8)} if g else set()
    if len(seen) > 1:
        return c
    if not B.and_(g, c):
        return 0
    if not B.and_(g, B.not_(c)):
        return 1
    return c


def same_where(g, x, y):
    if not g:
        return True
    for seed in range(8):
        p = B.sample(g, seed)
        for a, b in zip(x, y):
            if a != b and B.at(a, p) != B.at(b, p):
                return False
    for a, b in zip(x, y):
        if a != b and B.and_(g, B.xor(a, b)):
            return False
    return True


# ---------------------------------------------------------------------- files
class File:
    """One file: ("a", (cursor, byte at the probe, probe written, failed))."""

    def __init__(self, I, E, probe=None, size=None, faults=True):
        self.I, self.E = I, E
        self.X = zext(probe if probe is not None else fresh("probe", 32), 64)
        self.N = zext(size if size is not None else fresh("size", 17), 64)
        self.faults = faults
        self.content = ("A", I.u8(), None, ("base", "file"))
        self.until_limit = None
        self.untils = {}
        self.seen = []
        self.shorts = []            # (where, count) of each partial read or write
        self.full = False           # reads return all they can
        self.nf = itertools.count()
        self.bound = 0              # worlds left out by a bound

    def init(self, st, cursor):
        st.mem[FILE] = ("a", (("b", zext(cursor, 64)), ("b", fresh("old", 8)), boolv(0), boolv(0)))

    def get(self, st, i):
        return st.mem[FILE][1][i][1]

    def cursor(self, st):
        c = self.get(st, 0)
        if to_int(c) is None and st.g != 1:
            c = tuple(B.restrict(b, st.g) for b in c)
            self.setf(st, 0, c)
        return c

    def setf(self, st, i, v, g=1):
        f = list(st.mem[FILE][1])
        f[i] = merge(g, ("b", v), f[i])
        st.mem[FILE] = ("a", tuple(f))

    def fault(self, st):
        """(failed bit, error)"""
        if not self.faults:
            return 0, self.E.err("Other")
        k = next(self.nf)
        b = B.var(f"fault{k}", 0, 0)
        f = self.get(st, 3)[0]
        self.setf(st, 3, (B.or_(f, b),))
        return b, self.E.any(f"fault{k}.kind")

    # ---- writing
    def put(self, st, n, byte, g=1):
        """Write n bytes, byte(i) each, at the cursor (where g)."""
        c = self.cursor(st)
        d = bdd.sub(self.X, c)[0]
        hit = B.and_(g, bdd.ult(d, n))
        if hit:
            self.setf(st, 1, byte(d), hit)
            self.setf(st, 2, (1,), hit)
        self.setf(st, 0, bdd.add(c, n)[0], g)

    def put_bytes(self, st, bs, g=1):
        def byte(d):
            r = bs[-1]
            for i in range(len(bs) - 1):
                r = vite(eqc(d, i), bs[i], r)
            return r
        if bs:
            self.put(st, const(len(bs), 64), byte, g)

    def put_lit(self, st, b, g=1):
        self.put_bytes(st, [const(x, 8) for x in b], g)

    def put_slice(self, st, sl, g=1):
        n = slice_len(sl)
        c = to_int(n)
        if c is not None and c <= 64:
            self.put_bytes(st, [slice_get(self.I, st, sl, const(i, 64))[1] for i in range(c)], g)
        else:
            self.put(st, n, lambda d: slice_get(self.I, st, sl, d)[1], g)

    def put_text(self, st, al):
        for g, pieces in al:
            for p in pieces:
                if p[0] == "l":
                    self.put_lit(st, p[1].encode(), g)
                elif p[0] == "s" and p[1][0] == "str" and len(p[1]) == 4:
                    self.put_slice(st, ("p", ((1, (p[1][1], p[1][2])),), p[1][3]), g)
                elif p[0] == "f" and p[4][0] == "b" and p[2] == (None, None, None) and p[1] == "display" and p[3] == "char":
                    c = to_int(p[4][1])
                    if c is None:
                        raise Unsupported("writing a character")
                    self.put_lit(st, chr(c).encode(), g)
                else:
                    raise Unsupported(f"writing formatted {p[1]}")

    # ---- reading
    def byte(self, i, g=1, shift=0):
        """The content at i, where g."""
        i = narrow(g, i)
        if to_int(i) is not None:
            for k in self.seen if g != 1 else ():
                if same_where(g, i, k):
                    i = k
                    break
        else:
            for k in self.seen:
                if same_where(g, i, k):
                    i = k
                    break
            else:
                self.seen.append(tuple(i))
                for b in range(8 if shift else 0):
                    # the order of the variables follows the numbers they are part of
                    B.var(f"file[#{self.I.idxname(tuple(i))}][{b}]", 1, b + shift)
        return self.I.arr_select(self.content, i)[1]

    def take(self, st, n):
        """(available, bytes) for n bytes at the cursor."""
        c = self.cursor(st)
        end = bdd.add(c, const(n, 64))[0]
        return B.not_(where(st.g, bdd.ult(self.N, end))), [self.byte(bdd.add(c, const(i, 64))[0], st.g, 8 if n == 2 and i == 1 else 0) for i in range(n)]

    def advance(self, st, n, g=1):
        self.setf(st, 0, bdd.add(self.cursor(st), n)[0], g)

    def left(self, st):
        c = self.cursor(st)
        r, b = bdd.sub(self.N, c)
        b = where(st.g, b)
        return vite(b, const(0, 64), r)

    def until(self, st):
        """The bytes up to the next zero: (length, ended by the zero)."""
        c = self.cursor(st)
        for x in self.untils:
            if same_where(st.g, c, x):
                c = x
        k = self.untils.get(c)
        if k is None:
            k = self.untils[c] = len(self.untils)
        w = getattr(self, "until_bits", 16)
        fixed = getattr(self, "until_fixed", ())
        ln = const(fixed[k], 64) if k < len(fixed) else zext(fresh(f"name{k}.len", w), 64)
        hit = B.var(f"name{k}.zero", 0, 0)
        left = self.left(st)
        # ended by a zero: 1 <= ln <= left; otherwise the whole rest, which has no zero
        hit = B.and_(hit, B.not_(B.or_(eqc(ln, 0), bdd.ult(left, ln))))
        ln = vite(hit, ln, left)
        return ln, hit, c

    def until_term(self, ln, hit, c):
        I = self.I
        last = bdd.sub(ln, const(1, 64))[0]

        def sel(i):
            x = self.byte(bdd.add(c, i)[0])
            at_end = eq(i, last)
            if at_end:
                # without a zero, the last byte is another one
                x = vite(B.and_(at_end, B.and_(B.not_(hit), eqc(x, 0))), const(1, 8), x)
                x = vite(B.and_(at_end, hit), const(0, 8), x)
            return ("b", x)
        return ("A", I.u8(), None, ("fn", sel))


def install_file(I, F, fil):
    E = fil.E
    ec = next(t for t, ty in enumerate(I.T) if ty["s"] == "std::io::SeekFrom")
    svars = [v["name"] for v in I.T[ec]["v"]]

    def reg(pat, f):
        rx = re.compile(pat)
        for i in F.insts.values():
            if rx.fullmatch(i["nm"]):
                I.models[i["nm"]] = f

    def write_all(I, st, inst, args, site):
        b, e = fil.fault(st)
        fil.put_slice(st, args[1])
        return st, result(b, UNIT, e)

    def write(I, st, inst, args, site):
        b, e = fil.fault(st)
        n = slice_len(args[1])
        k = next(_n)
        m = zext(fresh(f"short{k}", 17), 64)
        m = vite(bdd.ult(n, m), n, m)
        fil.shorts.append((st.g, m))
        sl = args[1]
        fil.put(st, m, lambda d: slice_get(I, st, sl, d)[1])
        return st, result(b, ("b", m), e)

    def write_fmt(I, st, inst, args, site):
        b, e = fil.fault(st)
        fil.put_text(st, text.alts(args[1]))
        return st, result(b, UNIT, e)

    def flush(I, st, inst, args, site):
        b, e = fil.fault(st)
        return st, result(b, UNIT, e)

    def seek(I, st, inst, args, site):
        b, e = fil.fault(st)
        v = args[1]
        if v[0] != "e":
            raise Unsupported("seek position")
        c = fil.cursor(st)
        new, bad = None, 0
        for i, n in enumerate(svars):
            g = eqc(v[1], i)
            if not g or not v[2][i]:
                continue
            x = v[2][i][0][1]
            if n == "Start":
                p, neg = x, 0
            else:
                base = c if n == "Current" else fil.N
                p = bdd.add(base, x)[0]
                neg = p[63]
            new = p if new is None else vite(g, p, new)
            bad = B.or_(bad, B.and_(g, neg))
        fil.setf(st, 0, vite(bad, c, new))
        err = merge(b, e, E.err("InvalidInput"))
        return st, result(B.or_(b, bad), ("b", new), err)

    def seek_relative(I, st, inst, args, site):
        return rel(seek(I, st, inst, [args[0], current(args[1])], site))

    def rel(r):
        st, v = r
        return st, ("e", v[1], ((UNIT,), v[2][1]))

    def current(x):
        pays = [()] * len(svars)
        pays[svars.index("Current")] = (x,)
        return ("e", const(svars.index("Current"), clog2(len(svars))), tuple(pays))

    def read_exact(I, st, inst, args, site):
        b, e = fil.fault(st)
        sl = args[1]
        n = to_int(slice_len(sl))
        if n is None:
            nn = slice_len(sl)
            c = fil.cursor(st)
            av = B.not_(where(st.g, bdd.ult(fil.left(st), nn)))
            good = B.and_(av, B.not_(b))
            store(st, sl, nn, c, good)
            fil.setf(st, 0, vite(good, bdd.add(c, nn)[0], c))
            return st, result(B.not_(good), UNIT, merge(b, e, E.err("UnexpectedEof")))
        av, bs = fil.take(st, n)
        good = B.and_(av, B.not_(b))
        for i, x in enumerate(bs):
            I.write_targets(st, [(B.and_(g, good), o, I.idx(p, const(i, 64)) if p and not isinstance(p[-1], int) and p[-1][0] == "s" else p + (i,))
                                 for g, (o, p) in sl[1]] + [(0, ("N", "x"), ())], ("b", x))
        fil.advance(st, const(n, 64), good)
        return st, result(B.not_(good), UNIT, merge(b, e, E.err("UnexpectedEof")))

    def store(st, sl, n, c, good):
        """bytes c.. of the file into the first n of the slice"""
        for g, (o, p) in sl[1]:
            if not (p and not isinstance(p[-1], int) and p[-1][0] == "s"):
                raise Unsupported("buffer of a read")
            off = p[-1][1]
            base = I.load_obj(st, o)
            a = I.read_path(base, p[:-1])
            gg = B.and_(g, good)
            if a[0] == "a":
                out = []
                for j, x in enumerate(a[1]):
                    d = bdd.sub(const(j, 64), off)[0]
                    hit = B.and_(gg, bdd.ult(d, n))
                    out.append(merge(hit, ("b", fil.byte(bdd.add(c, d)[0], B.and_(st.g, hit))), x) if hit else x)
                st.mem[o] = I.write_path(base, p[:-1], ("a", tuple(out)), 1)
                continue
            if a[0] != "A":
                raise Unsupported("buffer of a read")

            def sel(i, a=a, off=off, gg=gg):
                d = bdd.sub(i, off)[0]
                return merge(B.and_(gg, bdd.ult(d, n)), ("b", fil.byte(bdd.add(c, d)[0])), I.arr_select(a, i))
            st.mem[o] = I.write_path(base, p[:-1], ("A", a[1], a[2], ("fn", sel)), 1)

    def read(I, st, inst, args, site):
        b, e = fil.fault(st)
        n = narrow(st.g, slice_len(args[1]))
        left = narrow(st.g, fil.left(st))
        mx = narrow(st.g, vite(where(st.g, bdd.ult(left, n)), left, n))
        k = next(_n)
        m = zext(fresh(f"got{k}", 17), 64)
        m = mx if fil.full else vite(B.or_(bdd.ult(mx, m), eqc(m, 0)), mx, m)
        fil.shorts.append((st.g, m))
        good = B.not_(b)
        c = fil.cursor(st)
        store(st, args[1], m, c, good)
        fil.setf(st, 0, narrow(st.g, vite(good, bdd.add(c, m)[0], c)))
        return st, result(b, ("b", m), e)

    def read_to_end(I, st, inst, args, site):
        b, e = fil.fault(st)
        c, left = fil.cursor(st), fil.left(st)
        good = B.not_(b)
        old = {o: st.mem.get(o) for g, o, p in targets(I, st, args[1])}

        def sel(i):
            return ("b", fil.byte(bdd.add(c, i)[0]))
        arr = ("A", I.u8(), None, ("fn", sel)) if to_int(c) != 0 else fil.content
        append(I, st, args[1], vite(good, left, const(0, 64)), arr)
        fil.setf(st, 0, vite(good, bdd.add(c, left)[0], c))
        return st, result(b, ("b", left), e)

    def read_to_string(I, st, inst, args, site):
        left = fil.left(st)
        c = fil.cursor(st)
        st, r = read_to_end(I, st, inst, args, site)
        n = getattr(fil, "short", None)
        k = next(_n)
        valid = B.var(f"utf8#{k}", 0, 0)
        if n is not None:
            valid = utf8([fil.byte(bdd.add(c, const(i, 64))[0]) for i in range(n)], left)
        bad = r[1][0]
        err = merge(bad, r[2][1][0], E.err("InvalidData"))
        return st, result(B.or_(bad, B.not_(valid)), r[2][0][0], err)

    def read_until(I, st, inst, args, site):
        if to_int(args[1][1]) != 0:
            raise Unsupported("read_until of another delimiter")
        b, e = fil.fault(st)
        good = B.not_(b)
        ln, hit, c = fil.until(st)
        if fil.until_limit is not None and fil.untils[c] >= fil.until_limit:
            # the bound: no further name
            more = B.and_(st.g, B.not_(eqc(ln, 0) if fil.until_limit_kind == "eof" else eqc(ln, 1)))
            fil.bound = B.or_(fil.bound, more)
            st = st.fork(B.not_(more))
            if st is None:
                return None, None
        ln = vite(good, ln, const(0, 64))
        append(I, st, args[2], ln, fil.until_term(ln, hit, c))
        fil.setf(st, 0, bdd.add(c, ln)[0])
        return st, result(b, ("b", ln), e)

    def default_read_to_end(I, st, inst, args, site):
        """Reads until nothing is left, by the reader's own read."""
        r = re.search(r"default_read_to_end::<(.*)>$", inst["nm"]).group(1)
        ks = [k for k, i in F.insts.items() if i["nm"] == f"<{r} as std::io::Read>::read" and i.get("body")]
        if len(ks) != 1:
            raise Unsupported(f"read of {r}")
        before = fil.full
        fil.full = True
        big = 1 << 20
        total = None
        for turn in range(2):
            buf = ("H", f"rbuf{next(_n)}")
            st.mem[buf] = ("A", I.u8(), None, ("base", f"rbuf{next(_n)}"))
            st, v = I.call(st, ks[0], [args[0], ("p", ((1, (buf, (("s", const(0, 64)),))),), ("b", const(big, 64)))])
            if st is None:
                return None, None
            err = B.not_(eqc(v[1], 0))
            n = v[2][0][0][1]
            good = B.not_(err)
            if turn == 0:
                bad, e, total = err, v[2][1][0] if v[2][1] else U, n
                append(I, st, args[1], vite(good, n, const(0, 64)), st.mem[buf])
            elif B.and_(st.g, B.and_(B.not_(B.or_(bad, err)), B.not_(eqc(n, 0)))):
                raise Unsupported("a reader that returns more at the end")
            else:
                e = merge(bad, e, v[2][1][0]) if v[2][1] else e
                bad = B.or_(bad, err)
        fil.full = before
        return st, result(bad, ("b", total), e)

    def bufreader(I, st, inst, args, site):
        return st, ("a", (U, args[-1]))
    X = FILEISH
    reg(rf"<{X} as std::io::Write>::write_all", write_all)
    reg(rf"<{X} as std::io::Write>::write", write)
    reg(rf"<{X} as std::io::Write>::write_fmt", write_fmt)
    reg(rf"<{X} as std::io::Write>::flush", flush)
    reg(rf"<{X} as std::io::Seek>::seek", seek)
    reg(rf"<{X} as std::io::Seek>::seek_relative|std::io::BufReader::<{X}>::seek_relative", seek_relative)
    reg(rf"<{X} as std::io::Read>::read_exact", read_exact)
    reg(rf"<{X} as std::io::Read>::read", read)
    reg(rf"<{X} as std::io::Read>::read_to_end", read_to_end)
    reg(rf"<{X} as std::io::Read>::read_to_string", read_to_string)
    reg(rf"<{X} as std::io::BufRead>::read_until", read_until)
    reg(r"(?:alloc|std)::io::(?:read::)?default_read_to_end::<.*>", default_read_to_end)
    reg(rf"std::io::Buf(?:Reader|Writer)::<{X}>::(?:new|with_capacity)", bufreader)
    reg(rf"core::io::impls::<impl std::io::Write for &mut {X}>::write_all|alloc::io::impls::<impl std::io::Write for &mut {X}>::write_all", write_all)
    reg(rf"core::io::impls::<impl std::io::Write for &mut {X}>::write_fmt|alloc::io::impls::<impl std::io::Write for &mut {X}>::write_fmt", write_fmt)
    reg(rf"core::io::impls::<impl std::io::Write for &mut {X}>::write|alloc::io::impls::<impl std::io::Write for &mut {X}>::write", write)
    reg(rf"alloc::io::impls::<impl std::io::Read for &mut {X}>::read_exact", read_exact)
    reg(rf"alloc::io::impls::<impl std::io::Read for &mut {X}>::read", read)
    reg(rf"alloc::io::impls::<impl std::io::Read for &mut {X}>::read_to_end", read_to_end)
    reg(rf"alloc::io::impls::<impl std::io::Read for &mut {X}>::read_to_string", read_to_string)


def utf8(bs, n):
    """Whether the first n of the bytes (n at most as many) are well-formed UTF-8."""
    def rng(x, lo, hi):
        return B.not_(B.or_(bdd.ult(x, const(lo, 8)), bdd.ult(const(hi, 8), x)))

    def ok(i):
        end = B.not_(bdd.ult(const(i, 64), n))
        if i >= len(bs):
            return end
        r = B.and_(rng(bs[i], 0, 0x7f), ok(i + 1))
        have = lambda k: B.not_(bdd.ult(n, const(i + k, 64)))
        if i + 2 <= len(bs):
            r = B.or_(r, B.and_(B.and_(rng(bs[i], 0xc2, 0xdf), rng(bs[i + 1], 0x80, 0xbf)), B.and_(have(2), ok(i + 2))))
        if i + 3 <= len(bs):
            second = 0
            for lo, hi, a, b in ((0xe0, 0xe0, 0xa0, 0xbf), (0xe1, 0xec, 0x80, 0xbf), (0xed, 0xed, 0x80, 0x9f), (0xee, 0xef, 0x80, 0xbf)):
                second = B.or_(second, B.and_(rng(bs[i], lo, hi), rng(bs[i + 1], a, b)))
            r = B.or_(r, B.and_(B.and_(second, rng(bs[i + 2], 0x80, 0xbf)), B.and_(have(3), ok(i + 3))))
        return B.or_(end, r)
    return ok(0)


def install(I, probe=None, size=None, faults=True):
    text.install(I)
    natives.boxes(I)
    install_vec(I)
    E = Errors(I)
    fil = File(I, E, probe, size, faults)
    install_file(I, I.F, fil)
    return E, fil
