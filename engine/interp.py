"""Abstract interpreter over extracted MIR.

Every function body is analysed as a forward dataflow problem on its control
flow graph: one abstract state per block, joined at merges (no path is ever
enumerated).  Scalars are bit vectors whose bits are canonical Boolean
functions (bdd.py) of the analysis inputs; a state carries the condition under
which its block is reached; joins select between values by that condition.
The environment is an opaque partner: the k-th interaction with it (a memory
access, a port access, ...) is entry k of the state's trace and answers with
the unknown R<k>.
"""
import itertools
import re
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext, sext
import bdd

U = ("u",)
UNIT = ("a", ())


class Unsupported(Exception):
    pass


class Unbounded(Exception):
    pass


def bv(v, w):
    return ("b", const(v, w))


def boolv(n):
    return ("b", (n,))


# ------------------------------------------------------------------ merging
def mux_targets(c, a, b):
    d = {}
    nc = B.not_(c)
    for g, t in a:
        h = B.and_(c, g)
        if h:
            d[t] = B.or_(d.get(t, 0), h)
    for g, t in b:
        h = B.and_(nc, g)
        if h:
            d[t] = B.or_(d.get(t, 0), h)
    if len(d) == 1:
        return tuple((1, t) for t in d)
    return tuple(sorted(((g, t) for t, g in d.items()), key=repr))


def merge(c, a, b):
    """c ? a : b"""
    if a is b or a == b:
        return a
    if c == 1:
        return a
    if c == 0:
        return b
    ka, kb = a[0], b[0]
    if ka == "u":
        return b
    if kb == "u":
        return a
    if ka == kb:
        if ka == "b":
            return ("b", vite(c, a[1], b[1]))
        if ka == "a":
            if len(a[1]) == len(b[1]):
                return ("a", tuple(merge(c, x, y) for x, y in zip(a[1], b[1])))
        elif ka == "e":
            pays = []
            for x, y in zip(a[2], b[2]):
                if x is None:
                    pays.append(y)
                elif y is None:
                    pays.append(x)
                else:
                    pays.append(tuple(merge(c, p, q) for p, q in zip(x, y)))
            return ("e", vite(c, a[1], b[1]), tuple(pays))
        elif ka == "p":
            ma, mb = a[2], b[2]
            if ma is None or mb is None:
                m = ma if mb is None else mb
            else:
                m = merge(c, ma, mb)
            return ("p", mux_targets(c, a[1], b[1]), m)
        elif ka in ("f", "o"):
            return (ka, mux_targets(c, a[1], b[1]))
        elif ka == "U":
            if a[1] == b[1]:
                return ("U", a[1], merge(c, a[2], b[2]))
            # a union holding different fields: prefer the one with content
            if a[2] in (U, UNIT):
                return b
            if b[2] in (U, UNIT):
                return a
        elif ka == "A":
            if a[1:3] == b[1:3]:
                return ("A", a[1], a[2], ("ite", c, a[3], b[3]))
    # unrelated shapes: keep both as alternatives
    ta = a[1] if ka == "o" else ((1, ("val", a)),)
    tb = b[1] if kb == "o" else ((1, ("val", b)),)
    return ("o", mux_targets(c, ta, tb))


def atom(*k):
    return ("o", ((1, k),))


# -------------------------------------------------------------------- trace
class Trace:
    """Position-indexed interactions: slots[k] = {kind: (guard, args, sites)};
    lens: {length: guard}."""
    __slots__ = ("slots", "lens")

    def __init__(self, slots=(), lens=None):
        self.slots = slots
        self.lens = lens if lens is not None else {0: 1}


def merge_trace(c, ga, gb, a, b):
    if a is b:
        return a
    slots = []
    for i in range(max(len(a.slots), len(b.slots))):
        if i >= len(a.slots):
            slots.append(b.slots[i])
            continue
        if i >= len(b.slots):
            slots.append(a.slots[i])
            continue
        x, y = a.slots[i], b.slots[i]
        if x is y:
            slots.append(x)
            continue
        d = dict(x)
        for k, (g, args, sites) in y.items():
            if k in d:
                g0, args0, s0 = d[k]
                if g0 == g and args0 == args:
                    # recorded before the fork: same entry on both sides
                    d[k] = (g, args, s0 | sites)
                    continue
                gg = B.or_(g0, g)
                # which entry: on overlap (common prefix) both agree
                cc = B.restrict(g0, gg)
                d[k] = (gg, tuple(merge(cc, p, q) for p, q in zip(args0, args)), s0 | sites)
            else:
                d[k] = (g, args, sites)
        slots.append(d)
    # lengths: guards are relative to each side's reach condition
    lens = {}
    for L, g in a.lens.items():
        h = B.and_(ga, g)
        if h:
            lens[L] = h
    for L, g in b.lens.items():
        h = B.and_(gb, g)
        if h:
            lens[L] = B.or_(lens.get(L, 0), h)
    if len(lens) == 1:
        lens = {L: 1 for L in lens}
    return Trace(tuple(slots), lens)


# -------------------------------------------------------------------- state
class State:
    __slots__ = ("g", "mem", "tr")

    def __init__(self, g, mem, tr):
        self.g = g
        self.mem = mem
        self.tr = tr

    def fork(self, cond):
        g = B.and_(self.g, cond)
        if g == 0:
            return None
        return State(g, dict(self.mem), self.tr)


INIT = {}     # initial values of environment objects, made when first loaded


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    g = B.or_(a.g, b.g)
    c = B.restrict(a.g, g)
    mem = {}
    bm = b.mem
    for k, v in a.mem.items():
        w = bm.get(k)
        if w is None:
            w = INIT.get(k)     # not touched on that side
        if w is None or v is w:
            mem[k] = v
        else:
            mem[k] = merge(c, v, w)
    for k, v in bm.items():
        if k not in mem:
            w = INIT.get(k)
            mem[k] = v if w is None or w is v else merge(c, w, v)
    return State(g, mem, merge_trace(c, a.g, b.g, a.tr, b.tr))


def clog2(n):
    return max(0, (n - 1).bit_length())


class Interp:
    boxes = False

    def __init__(self, facts, models=None, unroll=400, maxdepth=60):
        INIT.clear()
        self.F = facts
        self.T = facts.tys
        self.models = dict(models or {})
        self.prefix_models = []
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.fid = itertools.count(1)
        self.panics = []          # (guard, site, what)
        self.unreach = []
        self.stack = []
        self.visited = {}         # inst key -> blocks visited
        self.objty = {}           # symbolic object -> type
        self.writers = {}         # (obj, path prefix) -> set of sites
        self.calls = 0
        self.blocks = 0
        self.default_call = None
        self.drop_hook = None
        self.watch = None
        self.split = False        # keep the variants a call returns apart until the next switch
        self._wp = False
        self._got = None

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def size(self, t):
        return self.T[t].get("size")

    def is_zst(self, t):
        return self.T[t].get("size") == 0

    def width(self, t):
        ty = self.T[t]
        k = ty["k"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k in ("int", "uint"):
            return ty["bits"]
        raise Unsupported(f"width of {ty['s']}")

    OPAQUE = ("alloc::vec::Vec", "std::vec::Vec", "alloc::string::String", "std::string::String",
              "BTreeMap", "HashMap", "std::fs::File", "PathBuf", "std::io::Error", "BufReader", "BufWriter",
              "HashSet", "std::io::Stdout", "std::io::Stdin")

    def opaque_ty(self, ty):
        return ty["k"] in ("struct", "enum", "union") and any(o in ty.get("def", "") for o in self.OPAQUE)

    def fresh(self, t, name, cls=1):
        """The unknown value `name` of type t."""
        ty = self.T[t]
        k = ty["k"]
        if k == "bool":
            return ("b", (B.var(name, 0, 0),))
        if k in ("int", "uint", "char"):
            return ("b", fresh(name, self.width(t), cls))
        if k == "array":
            if ty["n"] is not None and ty["n"] <= 64:
                return ("a", tuple(self.fresh(ty["e"], f"{name}.{i}", cls) for i in range(ty["n"])))
            return ("A", ty["e"], ty["n"], ("base", name))
        if k in ("tuple", "closure"):
            return ("a", tuple(self.fresh(f, f"{name}.{i}", cls) for i, f in enumerate(ty["fields"])))
        if k in ("fndef", "never"):
            return UNIT
        if k in ("slice", "str"):
            e = ty.get("e")
            if e is None:
                e = self.u8()
            return ("A", e, None, ("base", name))
        if k in ("ref", "ptr"):
            return self.fresh_ptr(ty["e"], name)
        if self.opaque_ty(ty):
            return atom("sym", name)
        if k == "struct" and self.boxes and ty.get("def") in ("std::boxed::Box", "alloc::boxed::Box"):
            import natives
            obj = ("S", name + "*")
            self.objty[obj] = ty["args"][0]
            return natives.box_value(self, t, obj)
        if k == "struct":
            v = ty["v"][0]
            return ("a", tuple(self.fresh(f[1], f"{name}.{f[0]}", cls) for f in v["f"]))
        if k == "enum":
            n = len(ty["v"])
            tag = fresh(f"{name}.tag", clog2(n), 0)
            pays = []
            for v in ty["v"]:
                pays.append(tuple(self.fresh(f[1], f"{name}.{v['name']}.{f[0]}", cls) for f in v["f"]))
            return ("e", tag, tuple(pays))
        return atom("sym", name)

    def u8(self):
        if not hasattr(self, "_u8"):
            self._u8 = self.F.ty_named("u8")
        return self._u8

    def fresh_ptr(self, e, name):
        ety = self.T[e]
        obj = ("S", name)
        self.objty[obj] = e
        if ety["k"] in ("slice", "str"):
            return ("p", ((1, (obj, (("s", const(0, 64)),))),), ("b", fresh(f"{name}.len", 64)))
        if ety["k"] == "dyn":
            return ("p", ((1, (obj, ())),), atom("vt", name))
        return ("p", ((1, (obj, ())),), None)

    # ------------------------------------------------------------- constants
    def konst(self, k):
        t = k["t"]
        if "z" in k:
            return self.zst(t)
        if "u" in k:
            return atom("const", k["u"])
        a = k["a"]
        return self.decode(t, a["b"], {o: p for o, p in a["p"]}, 0)

    def zst(self, t):
        ty = self.T[t]
        k = ty["k"]
        if k in ("tuple", "closure"):
            return ("a", tuple(self.zst(f) for f in ty["fields"]))
        if k == "struct":
            return ("a", tuple(self.zst(f[1]) for f in ty["v"][0]["f"]))
        if k == "array":
            return ("a", tuple(self.zst(ty["e"]) for _ in range(ty["n"] or 0)))
        if k == "enum":
            return ("e", (), tuple(tuple(self.zst(f[1]) for f in v["f"]) for v in ty["v"]))
        return UNIT

    def raw(self, b, off, n):
        s = b[2 * off:2 * (off + n)]
        if "_" in s:
            return None
        return int.from_bytes(bytes.fromhex(s), "little")

    def decode(self, t, b, ptrs, off):
        ty = self.T[t]
        k = ty["k"]
        if k in ("bool", "int", "uint", "char"):
            v = self.raw(b, off, ty["size"])
            if v is None:
                return U
            return bv(v, self.width(t))
        if k in ("ref", "ptr"):
            e = ty["e"]
            ety = self.T[e]
            if off in ptrs:
                al = ptrs[off]
                add = self.raw(b, off, 8) or 0
                obj = ("K", al, e, add)
                if "static" in self.F.allocs[al]:
                    obj = ("G", al)
                if ety["k"] in ("slice", "str"):
                    n = self.raw(b, off + 8, 8)
                    return ("p", ((1, (obj, (("s", const(0, 64)),))),), bv(n, 64))
                if ety["k"] == "dyn":
                    return ("p", ((1, (obj, ())),), atom("vt", ptrs.get(off + 8)))
                return ("p", ((1, (obj, ())),), None)
            n = self.raw(b, off, 8)
            obj = ("N", n)
            if ety["k"] in ("slice", "str"):
                ln = self.raw(b, off + 8, 8)
                return ("p", ((1, (obj, (("s", const(0, 64)),))),), bv(ln or 0, 64))
            return ("p", ((1, (obj, ())),), None)
        if k == "fnptr":
            al = self.F.allocs[ptrs[off]]
            return ("f", ((1, al["fn"]),))
        if k == "array":
            es = self.size(ty["e"])
            n = ty["n"]
            if n > 4096:
                v = self.raw(b, off, n * es)
                if v == 0 and self.T[ty["e"]]["k"] in ("int", "uint"):
                    return ("A", ty["e"], n, ("const", bv(0, self.width(ty["e"]))))
                return ("A", ty["e"], n, ("base", f"const{hash(b[2*off:2*(off+n*es)])}"))
            return ("a", tuple(self.decode(ty["e"], b, ptrs, off + i * es) for i in range(n)))
        if k in ("tuple", "closure"):
            return ("a", tuple(self.decode(f, b, ptrs, off + o) for f, o in zip(ty["fields"], ty["off"])))
        if k == "struct":
            fs = ty["v"][0]["f"]
            return ("a", tuple(self.decode(f[1], b, ptrs, off + o) for f, o in zip(fs, ty["off"])))
        if k == "union":
            fs = ty["v"][0]["f"]
            best = max(range(len(fs)), key=lambda i: self.size(fs[i][1]) or 0)
            return ("U", best, self.decode(fs[best][1], b, ptrs, off))
        if k == "enum":
            n = len(ty["v"])
            vi = self.decode_tag(ty, b, ptrs, off)
            if vi is None:
                return U
            pays = [None] * n
            v = ty["v"][vi]
            offs = v["off"] if v["off"] is not None else [0] * len(v["f"])
            pays[vi] = tuple(self.decode(f[1], b, ptrs, off + o) for f, o in zip(v["f"], offs))
            return ("e", const(vi, clog2(n)), tuple(pays))
        if k in ("fndef", "never"):
            return UNIT
        raise Unsupported(f"constant of type {ty['s']}")

    def decode_tag(self, ty, b, ptrs, off):
        if "single" in ty:
            return ty["single"]
        o = off + (ty["tagoff"] or 0)
        ts = ty["tagsize"]
        tag = ty["tag"]
        if o in ptrs:
            if tag == "direct":
                raise Unsupported("pointer tag")
            return tag["untagged"]
        v = self.raw(b, o, ts)
        if v is None:
            return None
        if tag == "direct":
            for i, x in enumerate(ty["v"]):
                if (int(x["d"]) & ((1 << (8 * ts)) - 1)) == v:
                    return i
            raise Unsupported("bad tag")
        rel = (v - int(tag["start"])) & ((1 << (8 * ts)) - 1)
        if rel <= tag["hi"] - tag["lo"]:
            return tag["lo"] + rel
        return tag["untagged"]

    def const_bytes(self, al, off=0, n=None):
        a = self.F.allocs[al]
        m = a.get("mem") or a.get("init")
        b = bytes.fromhex(m["b"].replace("__", "00"))
        return b[off:] if n is None else b[off:off + n]

    def const_str(self, v):
        """bytes of a constant &str/&[u8] pointer value, or None"""
        if v[0] != "p" or len(v[1]) != 1 or v[2] is None or v[2][0] != "b":
            return None
        g, (obj, path) = v[1][0]
        n = to_int(v[2][1])
        if n is None:
            return None
        if n == 0:
            return b""
        if obj[0] != "K" or not path or path[-1][0] != "s":
            return None
        o = to_int(path[-1][1])
        if o is None or len(path) != 1:
            return None
        return self.const_bytes(obj[1], obj[3] + o, n)

    # --------------------------------------------------------------- objects
    def load_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is not None:
            return v
        k = obj[0]
        if k == "S":
            v = self.fresh(self.objty[obj], obj[1])
        elif k == "K":
            a = self.F.allocs[obj[1]]
            m = a["mem"]
            ety = self.T[obj[2]]
            ptrs = {o - obj[3]: p for o, p in m["p"]}
            b = m["b"][2 * obj[3]:]
            if ety["k"] in ("slice", "str"):
                e = ety.get("e", None)
                if e is None:
                    e = self.u8()
                es = self.size(e)
                n = len(b) // 2 // es if es else 0
                v = ("a", tuple(self.decode(e, b, ptrs, i * es) for i in range(n)))
            else:
                v = self.decode(obj[2], b, ptrs, 0)
        elif k == "G":
            a = self.F.allocs[obj[1]]
            m = a["init"]
            v = self.decode(a["ty"], m["b"], {o: p for o, p in m["p"]}, 0)
        elif k == "L":
            return U
        elif k == "N":
            return U
        else:
            raise Unsupported(f"load of {obj}")
        v = INIT.setdefault(obj, v)
        st.mem[obj] = v
        return v

    # ---------------------------------------------------------------- arrays
    def arr_select(self, v, idx):
        _, ety, n, term = v
        return self.term_select(ety, term, idx)

    def term_select(self, ety, term, idx):
        k = term[0]
        if k == "base":
            i = to_int(idx)
            nm = f"{term[1]}[{i}]" if i is not None else f"{term[1]}[#{self.idxname(idx)}]"
            return self.fresh(ety, nm)
        if k == "const":
            return term[1]
        if k == "st":
            c = eq(term[2], idx)
            if c == 1:
                return term[3]
            rest = self.term_select(ety, term[1], idx)
            return merge(c, term[3], rest)
        if k == "ite":
            return merge(term[1], self.term_select(ety, term[2], idx), self.term_select(ety, term[3], idx))
        if k == "fn":
            return term[1](idx)
        raise Unsupported(f"array term {k}")

    _idx = {}

    def idxname(self, idx):
        return self._idx.setdefault(idx, len(self._idx))

    # ----------------------------------------------------------- path access
    def idx_of(self, e):
        return e if isinstance(e, int) else None

    def read_path(self, v, path):
        for n, p in enumerate(path):
            if v[0] == "o" and len(v[1]) == 1 and v[1][0][1][0] == "val":
                v = v[1][0][1][1]
            k = v[0]
            if k == "u":
                return U
            if isinstance(p, int):
                if k == "a":
                    if p >= len(v[1]):
                        return U
                    v = v[1][p]
                elif k == "A":
                    v = self.arr_select(v, const(p, 64))
                elif k == "U":
                    v = self.union_read(v, p)
                elif k == "o":
                    v = self.opq_field(v, p)
                elif k == "e" and len(v[2]) == 1:
                    v = v[2][0][p]
                else:
                    raise Unsupported(f"field {p} of {k}")
            elif p[0] == "v":
                if k == "o":
                    v = self.opq_field(v, p)
                    continue
                if k != "e":
                    raise Unsupported(f"variant of {k}")
                pay = v[2][p[1]]
                if pay is None:
                    return U
                v = pay[p[2]]
            elif p[0] == "i":
                if k == "a":
                    r = None
                    for i, x in enumerate(v[1]):
                        c = eqc(p[1], i)
                        if c == 0:
                            continue
                        y = self.read_path(x, path[n + 1:])
                        r = y if r is None else merge(c, y, r)
                    return U if r is None else r
                if k == "A":
                    v = self.arr_select(v, p[1])
                elif k == "o":
                    v = self.opq_field(v, p)
                else:
                    raise Unsupported(f"index of {k}")
            elif p[0] == "s":
                if n == len(path) - 1 and to_int(p[1]) == 0:
                    return v
                if p[0] == "s" and len(p) == 3:
                    # sub-array of known length
                    o = to_int(p[1])
                    if o is not None and k == "a":
                        v = ("a", v[1][o:o + p[2]])
                    else:
                        v = ("a", tuple(self.read_path(v, (("i", bdd.add(p[1], const(j, 64))[0]),)) for j in range(p[2])))
                    continue
                raise Unsupported("read of unsized slice")
            else:
                raise Unsupported(f"path {p}")
        return v

    def opq_field(self, v, p):
        ts = []
        for g, a in v[1]:
            if a[0] == "val":
                ts.append((g, self.read_path(a[1], (p,))))
            else:
                ts.append((g, atom("fld", a, p)))
        r = ts[0][1]
        for g, x in ts[1:]:
            r = merge(g, x, r)
        return r

    def union_read(self, v, i):
        if v[1] == i:
            return v[2]
        return v[2]

    def write_path(self, v, path, new, g):
        """value v with the place `path` set to new where g holds"""
        if not path:
            return merge(g, new, v)
        p = path[0]
        k = v[0]
        if k == "u":
            v = self.shell(p, v)
            k = v[0]
        if isinstance(p, int):
            if k == "a":
                f = v[1]
                if p >= len(f):
                    f = f + (U,) * (p + 1 - len(f))
                return ("a", f[:p] + (self.write_path(f[p], path[1:], new, g),) + f[p + 1:])
            if k == "U":
                if path[1:] == ():
                    if v[1] == p or g != 1:
                        return ("U", p, merge(g, new, v[2]))
                    return ("U", p, new)
                return ("U", p, self.write_path(v[2], path[1:], new, g))
            if k == "A":
                return self.arr_store(v, const(p, 64), path[1:], new, g)
            if k == "o":
                return atom("upd", v, p, new)
        elif p[0] == "v":
            if k == "e":
                pay = v[2][p[1]]
                if pay is None:
                    pay = (U,) * (p[2] + 1)
                if p[2] >= len(pay):
                    pay = pay + (U,) * (p[2] + 1 - len(pay))
                pay = pay[:p[2]] + (self.write_path(pay[p[2]], path[1:], new, g),) + pay[p[2] + 1:]
                return ("e", v[1], v[2][:p[1]] + (pay,) + v[2][p[1] + 1:])
        elif p[0] == "i":
            if k == "a":
                out = []
                for i, x in enumerate(v[1]):
                    c = B.and_(g, eqc(p[1], i))
                    out.append(self.write_path(x, path[1:], new, c) if c else x)
                return ("a", tuple(out))
            if k == "A":
                return self.arr_store(v, p[1], path[1:], new, g)
        elif p[0] == "s":
            if to_int(p[1]) == 0 and len(path) == 1:
                return merge(g, new, v)
            if len(p) == 3:
                for j in range(p[2]):
                    x = new[1][j] if len(path) == 1 else None
                    if x is None:
                        q = path[1]
                        if isinstance(q, int):
                            return self.write_path(v, (("i", bdd.add(p[1], const(q, 64))[0]),) + path[2:], new, g)
                        if q[0] == "i":
                            return self.write_path(v, (("i", bdd.add(p[1], q[1])[0]),) + path[2:], new, g)
                        raise Unsupported("subarray write")
                    i = bdd.add(p[1], const(j, 64))[0]
                    c = to_int(i)
                    v = self.write_path(v, (c if c is not None else ("i", i),), x, g)
                return v
        raise Unsupported(f"write {p} of {k}")

    def shell(self, p, v):
        if isinstance(p, int):
            return ("a", (U,) * (p + 1))
        raise Unsupported(f"write into uninitialised {p}")

    def arr_store(self, v, idx, rest, new, g):
        old = None
        if rest:
            old = self.arr_select(v, idx)
            new = self.write_path(old, rest, new, 1)
        term = ("st", v[3], idx, new)
        if g != 1:
            term = ("ite", g, term, v[3])
        return ("A", v[1], v[2], term)

    # ---------------------------------------------------------------- places
    def place(self, st, fr, pl):
        """[(guard, obj, path)] and the metadata of the last dereference."""
        local, proj = pl
        cur = [(1, ("L", fr, local), ())]
        meta = None
        variant = None
        for e in proj:
            k = e[0]
            if k == "*":
                nxt = {}
                meta = None
                for g, obj, path in cur:
                    v = self.read_path(self.load_obj(st, obj), path)
                    v = self.as_ptr(st, v)
                    m = v[2]
                    if m is not None:
                        meta = m if meta is None else merge(g, m, meta)
                    for h, (o2, p2) in v[1]:
                        c = B.and_(g, h)
                        if c and B.and_(c, st.g):
                            nxt[(o2, p2)] = B.or_(nxt.get((o2, p2), 0), c)
                if len(nxt) == 1:
                    cur = [(1,) + t for t in nxt]
                else:
                    cur = [(c,) + t for t, c in nxt.items()]
            elif k == "f":
                if variant is not None:
                    cur = [(g, o, p + (("v", variant, e[1]),)) for g, o, p in cur]
                    variant = None
                else:
                    cur = [(g, o, p + (e[1],)) for g, o, p in cur]
            elif k == "d":
                variant = e[1]
            elif k == "i":
                i = self.read_local(st, fr, e[1])[1]
                cur = [(g, o, self.idx(p, i)) for g, o, p in cur]
            elif k == "c":
                if e[3]:
                    out = []
                    for g, o, p in cur:
                        if meta is not None and p and p[-1][0] == "s":
                            i = bdd.sub(meta[1], const(e[1], 64))[0]
                        else:
                            a = self.read_path(self.load_obj(st, o), p)
                            i = const(len(a[1]) - e[1], 64)
                        out.append((g, o, self.idx(p, i)))
                    cur = out
                else:
                    cur = [(g, o, self.idx(p, const(e[1], 64))) for g, o, p in cur]
            elif k == "s":
                out, was, meta = [], meta, None
                for g, o, p in cur:
                    if p and not isinstance(p[-1], int) and p[-1][0] == "s":
                        off = p[-1][1]
                        n = was[1] if len(p[-1]) == 2 else const(p[-1][2], 64)
                        base = p[:-1]
                    else:
                        a = self.read_path(self.load_obj(st, o), p)
                        off = const(0, 64)
                        n = const(len(a[1]) if a[0] == "a" else a[2], 64)
                        base = p
                    end = bdd.sub(n, const(e[2], 64))[0] if e[3] else const(e[2], 64)
                    ln = bdd.sub(end, const(e[1], 64))[0]
                    meta = ("b", ln) if meta is None else merge(g, ("b", ln), meta)
                    no = bdd.add(off, const(e[1], 64))[0]
                    c = to_int(ln)
                    isarr = len(p) > 0 and not isinstance(p[-1], int) and p[-1][0] == "s" and len(p[-1]) == 2
                    out.append((g, o, base + ((("s", no) if isarr or c is None else ("s", no, c)),)))
                cur = out
            elif k == "o":
                pass
            else:
                raise Unsupported(f"projection {e}")
        if variant is not None:
            raise Unsupported("bare downcast place")
        return cur, meta

    def idx(self, p, i):
        if p and not isinstance(p[-1], int) and p[-1][0] == "s":
            i = bdd.add(p[-1][1], i)[0]
            p = p[:-1]
        c = to_int(i)
        return p + ((c if c is not None else ("i", i)),)

    def as_ptr(self, st, v):
        if v[0] == "p":
            return v
        if v[0] == "a":
            # Box / NonNull / Unique wrappers
            for f in v[1]:
                if f[0] == "p":
                    return f
                if f[0] == "a" and f[1]:
                    try:
                        return self.as_ptr(st, f)
                    except Unsupported:
                        pass
        if v[0] == "o":
            ts = []
            for g, a in v[1]:
                if a[0] == "val":
                    x = self.as_ptr(st, a[1])
                    ts.append((g, x))
                else:
                    obj = ("O", a)
                    ts.append((g, ("p", ((1, (obj, ())),), None)))
            r = ts[0][1]
            for g, x in ts[1:]:
                r = merge(g, x, r)
            return r
        if v[0] == "u":
            return ("p", ((1, (("N", "undef"), ())),), None)
        raise Unsupported(f"deref of {v[0]}")

    def read_local(self, st, fr, l):
        return st.mem.get(("L", fr, l), U)

    def read_place(self, st, fr, pl):
        local, proj = pl
        if not proj:
            return st.mem.get(("L", fr, local), U)
        cur, _ = self.place(st, fr, pl)
        return self.read_targets(st, cur)

    def read_targets(self, st, cur):
        r = None
        for g, obj, path in cur:
            if obj[0] == "O":
                v = atom("deref", obj[1], path) if path else atom("deref", obj[1])
            else:
                v = self.read_path(self.load_obj(st, obj), path)
            r = v if r is None else merge(g, v, r)
        return U if r is None else r

    def write_place(self, st, fr, pl, v, site=None):
        local, proj = pl
        if not proj:
            st.mem[("L", fr, local)] = v
            return
        cur, _ = self.place(st, fr, pl)
        self.write_targets(st, cur, v, site)

    def write_targets(self, st, cur, v, site=None):
        for g, obj, path in cur:
            if obj[0] in ("O", "N"):
                continue
            gg = 1 if len(cur) == 1 else g
            if self.watch is not None and obj in self.watch and site is not None:
                self.writers.setdefault((obj, path[:1]), set()).add(site)
            old = self.load_obj(st, obj)
            st.mem[obj] = self.write_path(old, path, v, gg)

    # -------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.konst(o[1])
        if k == "rc":
            return boolv(0)
        raise Unsupported(f"operand {k}")

    def op_ty(self, body, o):
        """Type index of an operand (locals without projection or constants)."""
        if o[0] == "k":
            return o[1]["t"]
        if o[0] in ("cp", "mv"):
            return self.place_ty(body, o[1])
        return None

    def place_ty(self, body, pl):
        t = body["locals"][pl[0]]
        for e in pl[1]:
            k = e[0]
            ty = self.T[t]
            if k == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty.get("args"):
                    t = ty["args"][0]
            elif k == "f":
                t = e[2]
            elif k in ("i", "c"):
                t = ty["e"]
            elif k == "o":
                t = e[1]
        return t

    # --------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, body, rv, site):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            cur, meta = self.place(st, fr, rv[2])
            cur = [(g, (o, p)) for g, o, p in cur]
            if not cur:
                raise Unsupported("reference to nothing")
            if len(cur) == 1:
                cur = [(1, cur[0][1])]
            # metadata belongs to the pointer only when the place is unsized
            last = rv[2][1][-1][0] if rv[2][1] else None
            if last not in ("*", "s"):
                t = self.place_ty(body, rv[2])
                if self.T[t]["k"] in ("slice", "str"):
                    cur = [(g, (o, p + (("s", const(0, 64)),))) for g, (o, p) in cur]
                elif self.T[t]["k"] != "dyn" and not self.unsized(t):
                    meta = None
            elif last == "s" and len(cur[0][1][1][-1]) == 3:
                meta = None
            return ("p", tuple(cur), meta)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]),
                              self.op_ty(body, rv[2]))
        if k == "cbin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.checked(rv[1], a, b, self.op_ty(body, rv[2]))
        if k == "un":
            return self.unop(rv[1], self.operand(st, fr, rv[2]))
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4], rv[5])
        if k == "disc":
            v = self.read_place(st, fr, rv[1])
            return self.discr(v, self.place_ty(body, rv[1]), rv[2])
        if k == "agg":
            kk, t, vi, ops, fi = rv[1:6]
            vals = tuple(self.operand(st, fr, o) for o in ops)
            ty = self.T[t]
            if kk == "adt":
                if ty["k"] == "enum":
                    n = len(ty["v"])
                    pays = [None] * n
                    pays[vi] = vals
                    return ("e", const(vi, clog2(n)), tuple(pays))
                if ty["k"] == "union":
                    return ("U", fi, vals[0])
                return ("a", vals)
            if kk == "rawptr":
                p, m = vals
                ety = self.T[ty["e"]]
                if ety["k"] in ("slice", "str"):
                    return ("p", tuple((g, (o, self.to_slice(st, o, pa))) for g, (o, pa) in self.as_ptr(st, p)[1]), m)
                if m == UNIT:
                    return ("p", self.as_ptr(st, p)[1], None)
                return ("p", self.as_ptr(st, p)[1], m)
            if kk == "array" and len(vals) > 4096:
                raise Unsupported("huge array literal")
            return ("a", vals)
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n > 64:
                t = self.op_ty(body, rv[1])
                return ("A", t, n, ("const", v))
            return ("a", (v,) * n)
        if k == "len":
            cur, meta = self.place(st, fr, rv[1])
            if meta is not None:
                return meta
            v = self.read_targets(st, cur)
            return bv(len(v[1]) if v[0] == "a" else v[2], 64)
        raise Unsupported(f"rvalue {k}")

    def to_slice(self, st, obj, path):
        """An element pointer (…, i) viewed as the start of a slice."""
        if path and isinstance(path[-1], int) and self.is_elem(st, obj, path):
            return path[:-1] + (("s", const(path[-1], 64)),)
        if path and not isinstance(path[-1], int):
            if path[-1][0] == "i":
                return path[:-1] + (("s", path[-1][1]),)
            if path[-1][0] == "s":
                return path[:-1] + (("s", path[-1][1]),)
        return path + (("s1",),)

    def is_elem(self, st, obj, path):
        t = self.path_ty(st, obj, path[:-1])
        return t == "arr"

    def path_ty(self, st, obj, path):
        v = self.read_path(self.load_obj(st, obj), path)
        if v[0] == "A":
            return "arr"
        if v[0] == "a":
            return "arr"   # element paths only arise from arrays in slice contexts
        return None

    def elem_ptr(self, path):
        if path and not isinstance(path[-1], int):
            if path[-1][0] == "s":
                i = path[-1][1]
                c = to_int(i)
                return path[:-1] + ((c if c is not None else ("i", i)),)
            if path[-1][0] == "s1":
                return path[:-1]
        return path

    def empty(self, t):
        """Has a type no values?"""
        ty = self.T[t]
        return ty["k"] == "never" or ty["k"] == "enum" and not ty.get("v")

    def discr(self, v, t, dt):
        ty = self.T[t]
        w = self.width(dt) if self.T[dt]["k"] in ("int", "uint", "bool", "char") else 64
        if v[0] == "o":
            if len(v[1]) == 1 and v[1][0][1][0] == "val":
                return self.discr(v[1][0][1][1], t, dt)
            key = f"discr({v!r})" if len(repr(v)) < 200 else f"discr#{hash(v)}"
            n = clog2(len(ty["v"])) if ty.get("v") else w
            return ("b", zext(fresh(key, n, 0), w))
        if v[0] == "u":
            # (a value with a single possible variant need not be written)
            vs = [i for i, x in enumerate(ty.get("v") or ()) if not any(self.empty(f[1]) for f in x["f"])]
            if len(vs) == 1:
                d = ty["v"][vs[0]]["d"]
                return ("b", const(int(d) if d is not None else vs[0], w))
            return ("b", zext(fresh(f"undef.{next(self.fid)}", 1), w))
        if v[0] != "e":
            raise Unsupported(f"discriminant of {v[0]} {ty['s']}")
        n = len(ty["v"])
        ds = [int(x["d"]) if x["d"] is not None else i for i, x in enumerate(ty["v"])]
        if ds == list(range(n)):
            return ("b", zext(v[1], w))
        r = const(ds[0] & ((1 << w) - 1), w)
        for i in range(1, n):
            c = eqc(v[1], i)
            r = vite(c, const(ds[i] & ((1 << w) - 1), w), r)
        return ("b", r)

    def signed(self, t):
        return t is not None and self.T[t]["k"] == "int"

    def binop(self, st, op, a, b, t):
        if op == "Offset":
            return self.ptr_offset(self.as_ptr(st, a), b[1], t)
        if a[0] in ("p", "a") or b[0] == "p":
            return self.ptr_binop(st, op, a, b)
        if a[0] in ("o", "u", "f", "e") or b[0] in ("o", "u", "f", "e"):
            if op in ("Eq", "Ne"):
                n = B.var(f"cmp({min(repr(a), repr(b))},{max(repr(a), repr(b))})", 0, 0) if a != b else 1
                return boolv(n if op == "Eq" else B.not_(n))
            w = len(a[1]) if a[0] == "b" else (len(b[1]) if b[0] == "b" else (self.width(t) if t is not None else 64))
            if op in ("Lt", "Le", "Gt", "Ge"):
                w = 1
            return ("b", bdd.uf(op, (a, b), w))
        x, y = a[1], b[1]
        s = self.signed(t)
        if op in ("Add", "AddUnchecked"):
            return ("b", bdd.add(x, y)[0])
        if op in ("Sub", "SubUnchecked"):
            return ("b", bdd.sub(x, y)[0])
        if op in ("Mul", "MulUnchecked"):
            return ("b", bdd.mul(x, y))
        if op == "BitAnd":
            return ("b", bdd.vand(x, y))
        if op == "BitOr":
            return ("b", bdd.vor(x, y))
        if op == "BitXor":
            return ("b", bdd.vxor(x, y))
        if op == "Eq":
            return boolv(eq(x, y))
        if op == "Ne":
            return boolv(B.not_(eq(x, y)))
        if op in ("Lt", "Le", "Gt", "Ge"):
            lt = bdd.slt if s else bdd.ult
            if op == "Lt":
                return boolv(lt(x, y))
            if op == "Ge":
                return boolv(B.not_(lt(x, y)))
            if op == "Gt":
                return boolv(lt(y, x))
            return boolv(B.not_(lt(y, x)))
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            w = len(x)
            n = clog2(w)
            kind = "shl" if op.startswith("Shl") else ("sar" if s else "shr")
            return ("b", bdd.shift(x, y[:n], kind))
        if op in ("Div", "Rem"):
            if s:
                return ("b", bdd.uf("s" + op, (x, y), len(x)))
            q, r = bdd.udivrem(x, y)
            return ("b", q if op == "Div" else r)
        if op == "Cmp":
            lt = (bdd.slt if s else bdd.ult)(x, y)
            e = eq(x, y)
            # Ordering: Less(-1)=variant 0, Equal=1, Greater=2
            tag = vite(lt, const(0, 2), vite(e, const(1, 2), const(2, 2)))
            return ("e", tag, ((), (), ()))
        raise Unsupported(f"binop {op}")

    def ptr_binop(self, st, op, a, b):
        a, b = self.as_ptr(st, a), self.as_ptr(st, b)
        if op == "Offset":
            raise Unsupported("offset by pointer")
        r = 0
        for g, (o1, p1) in a[1]:
            for h, (o2, p2) in b[1]:
                c = B.and_(g, h)
                if not c:
                    continue
                p1e, p2e = self.elem_ptr(p1), self.elem_ptr(p2)
                if o1 == o2 and p1e == p2e:
                    e, lt = 1, 0
                elif o1 == o2 and p1e[:-1] == p2e[:-1] and p1e and p2e:
                    i, j = self.ibits(p1e[-1]), self.ibits(p2e[-1])
                    e, lt = eq(i, j), bdd.ult(i, j)
                elif o1 == o2 and len(p1e) != len(p2e):
                    # one-past / base of a single object
                    x, y = (p1e, p2e) if len(p1e) > len(p2e) else (p2e, p1e)
                    if x[:len(y)] == y and len(x) == len(y) + 1 and isinstance(x[-1], int):
                        e, lt = (1 if x[-1] == 0 else 0), 0
                    else:
                        e, lt = 0, 0
                else:
                    e, lt = 0, 0
                if op in ("Eq", "Ne"):
                    v = e
                elif op == "Lt":
                    v = lt
                elif op == "Ge":
                    v = B.not_(lt)
                elif op == "Le":
                    v = B.or_(lt, e)
                elif op == "Gt":
                    v = B.not_(B.or_(lt, e))
                else:
                    raise Unsupported(f"pointer {op}")
                r = B.or_(r, B.and_(c, v))
        return boolv(B.not_(r) if op == "Ne" else r)

    def ibits(self, e):
        if isinstance(e, int):
            return const(e, 64)
        if e[0] in ("i", "s"):
            return e[1]
        raise Unsupported(f"index {e}")

    def ptr_offset(self, p, off, t=None):
        ts = []
        for g, (o, path) in p[1]:
            path = self.elem_ptr(path)
            if to_int(off) == 0:
                ts.append((g, (o, path)))
                continue
            if not path:
                ts.append((g, (o, self.bump(path, off))))
                continue
            ts.append((g, (o, self.bump(path, off))))
        return ("p", tuple(ts), p[2])

    def bump(self, path, off):
        if not path:
            # one past a lone object
            c = to_int(off)
            return (("past", c if c is not None else off),)
        last = path[-1]
        if not isinstance(last, int) and last[0] == "past":
            c = to_int(off)
            n = last[1] + (c - (1 << 64) if c >> 63 else c)
            return path[:-1] if n == 0 else path[:-1] + (("past", n),)
        i = bdd.add(self.ibits(last), off)[0]
        c = to_int(i)
        return path[:-1] + ((c if c is not None else ("i", i)),)

    def checked(self, op, a, b, t):
        if a[0] != "b" or b[0] != "b":
            w = self.width(t)
            return ("a", (("b", bdd.uf("c" + op, (a, b), w)), boolv(bdd.uf("ov" + op, (a, b), 1)[0])))
        x, y = a[1], b[1]
        s = self.signed(t)
        w = len(x)
        if op == "Add":
            r, c = bdd.add(x, y)
            if s:
                c = B.and_(B.not_(B.xor(x[-1], y[-1])), B.xor(x[-1], r[-1]))
            return ("a", (("b", r), boolv(c)))
        if op == "Sub":
            r, c = bdd.sub(x, y)
            if s:
                c = B.and_(B.xor(x[-1], y[-1]), B.xor(x[-1], r[-1]))
            return ("a", (("b", r), boolv(c)))
        if op == "Mul":
            if s:
                ca, cb = to_int(x), to_int(y)
                if ca is not None and cb is not None:
                    sa = ca - (1 << w) if ca >> (w - 1) else ca
                    sb = cb - (1 << w) if cb >> (w - 1) else cb
                    p = sa * sb
                    return ("a", (bv(p & ((1 << w) - 1), w), boolv(int(not -(1 << (w - 1)) <= p < (1 << (w - 1))))))
                return ("a", (("b", bdd.uf("smul", (x, y), w)), boolv(bdd.uf("smulov", (x, y), 1)[0])))
            ta, tb = bdd.trim(x), bdd.trim(y)
            ca, cb = to_int(x), to_int(y)
            r = bdd.mul(x, y)
            if ca is not None and cb is not None:
                ov = int(ca * cb >= (1 << w))
            elif len(ta) + len(tb) <= w or ca == 0 or cb == 0:
                ov = 0
            else:
                k = cb if cb is not None else ca
                if k is not None:
                    z = x if cb is not None else y
                    lim = ((1 << w) - 1) // k
                    ov = bdd.ult(const(lim, w), z)
                else:
                    ov = bdd.uf("mulov", tuple(sorted((ta, tb))), 1)[0]
            return ("a", (("b", r), boolv(ov)))
        raise Unsupported(f"checked {op}")

    def unop(self, op, a):
        if op == "PtrMetadata":
            if a[0] == "p":
                return a[2] if a[2] is not None else UNIT
            raise Unsupported("metadata")
        if a[0] != "b":
            return ("b", bdd.uf("un" + op, (a,), 1 if op == "Not" else 64))
        if op == "Not":
            return ("b", bdd.vnot(a[1]))
        if op == "Neg":
            return ("b", bdd.neg(a[1]))
        raise Unsupported(f"unop {op}")

    # ------------------------------------------------------------------ casts
    def cast(self, st, kind, v, t, ot, extra):
        ty = self.T[t]
        oty = self.T[ot] if ot is not None else None
        if kind == "IntToInt":
            if v[0] == "e":
                v = self.discr(v, ot, t)
                return v
            if v[0] != "b":
                return ("b", bdd.uf("conv", (v,), self.width(t)))
            w = self.width(t)
            x = v[1]
            if len(x) >= w:
                return ("b", x[:w])
            if oty is not None and oty["k"] == "int":
                return ("b", sext(x, w))
            return ("b", zext(x, w))
        if kind.startswith("PointerCoercion(Reify") or kind.startswith("PointerCoercion(ClosureFn"):
            if extra is None:
                raise Unsupported("unresolved fn pointer")
            return ("f", ((1, extra),))
        if kind == "PointerCoercion(Unsize)":
            return self.unsize(st, v, t, ot)
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            return self.ptr_cast(st, v, t, ot)
        if kind == "Transmute" or kind == "BoxDerefTransmute" or kind == "Subtype":
            return self.transmute(st, v, t, ot)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            return ("b", bdd.uf("addr", (v,), 64))
        if kind in ("PointerWithExposedProvenance",):
            return ("p", ((1, (("N", repr(v)), ())),), None)
        raise Unsupported(f"cast {kind}")

    def unsize(self, st, v, t, ot):
        ty, oty = self.T[t], self.T[ot]
        if ty["k"] in ("ref", "ptr"):
            e, oe = self.T[ty["e"]], self.T[oty["e"]]
            if e["k"] in ("slice",) and oe["k"] == "array":
                return ("p", tuple((g, (o, self.arr_slice(p))) for g, (o, p) in v[1]), bv(oe["n"], 64))
            if e["k"] == "dyn":
                if oe["k"] == "dyn":
                    return v
                return ("p", v[1], atom("vtty", oty["e"]))
            if e["k"] == "struct":
                n = self.tail_len(oty["e"])
                if n is not None and self.unsized(ty["e"]):
                    return ("p", v[1], bv(n, 64))
                return v
        # Box<T> -> Box<dyn>, etc.: rebuild the wrapper around the pointer
        if v[0] == "a":
            fs, ofs = self.T[t]["v"][0]["f"], self.T[ot]["v"][0]["f"]
            out = []
            for x, f, of in zip(v[1], fs, ofs):
                out.append(x if f[1] == of[1] else self.unsize(st, x, f[1], of[1]))
            return ("a", tuple(out))
        return v

    def unsized(self, t):
        for _ in range(8):
            ty = self.T[t]
            if ty["k"] in ("slice", "str", "dyn"):
                return True
            if ty["k"] != "struct" or not ty["v"][0]["f"]:
                return False
            t = ty["v"][0]["f"][-1][1]
        return False

    def tail_len(self, t):
        """Length of the array at the end of a (nested) struct."""
        for _ in range(8):
            ty = self.T[t]
            if ty["k"] == "array":
                return ty["n"]
            if ty["k"] != "struct" or not ty["v"][0]["f"]:
                return None
            t = ty["v"][0]["f"][-1][1]
        return None

    def arr_slice(self, p):
        if p and not isinstance(p[-1], int) and p[-1][0] == "s" and len(p[-1]) == 3:
            return p[:-1] + (("s", p[-1][1]),)
        return p + (("s", const(0, 64)),)

    def ptr_cast(self, st, v, t, ot):
        ty, oty = self.T[t], self.T[ot]
        if ty["k"] not in ("ref", "ptr") or oty["k"] not in ("ref", "ptr"):
            return v
        v = self.as_ptr(st, v)
        e, oe = self.T[ty["e"]], self.T[oty["e"]]
        fat = e["k"] in ("slice", "str", "dyn")
        ofat = oe["k"] in ("slice", "str", "dyn")
        if ofat and not fat:
            if oe["k"] == "dyn":
                return ("p", v[1], None)
            if e["k"] == "array":
                return ("p", tuple((g, (o, self.to_subarr(p, e["n"]))) for g, (o, p) in v[1]), None)
            return ("p", tuple((g, (o, self.elem_ptr(p))) for g, (o, p) in v[1]), None)
        if not ofat and not fat:
            if oe["k"] == "array" and e["k"] != "array" and ty["e"] == oe["e"] or \
                    (oe["k"] == "array" and e["k"] not in ("array",) and self.peel(oe["e"]) == self.peel(ty["e"])):
                return ("p", tuple((g, (o, self.elem_ptr(self.arr_slice(p)))) for g, (o, p) in v[1]), None)
            if e["k"] == "array" and oe["k"] != "array" and self.peel(e["e"]) == self.peel(oty["e"]):
                return ("p", tuple((g, (o, self.to_subarr(p, e["n"]))) for g, (o, p) in v[1]), None)
            if oe["k"] == "union" and e["k"] != "union" and self.peel(oty["e"]) == self.peel(ty["e"]):
                return ("p", tuple((g, (o, p + self.peel_path(oty["e"], ty["e"]))) for g, (o, p) in v[1]), None)
            if oe["k"] == "struct" and oe["v"][0]["f"] and self.peel(oty["e"]) == self.peel(ty["e"]) and oty["e"] != ty["e"]:
                return ("p", tuple((g, (o, p + self.peel_path(oty["e"], ty["e"]))) for g, (o, p) in v[1]), None)
        return v

    def to_subarr(self, p, n):
        if p and isinstance(p[-1], int):
            return p[:-1] + (("s", const(p[-1], 64), n),)
        if p and p[-1][0] == "i":
            return p[:-1] + (("s", p[-1][1], n),)
        if p and p[-1][0] == "s":
            return p[:-1] + (("s", p[-1][1], n),)
        return p

    def peel(self, t):
        """Strip transparent wrappers (MaybeUninit, ManuallyDrop, ...)"""
        for _ in range(8):
            ty = self.T[t]
            if ty["k"] == "union" and "MaybeUninit" in ty.get("def", ""):
                t = max((f[1] for f in ty["v"][0]["f"]), key=lambda x: self.size(x) or 0)
            elif ty["k"] == "struct" and any(n in ty.get("def", "") for n in ("ManuallyDrop", "MaybeDangling", "UnsafeCell")):
                t = ty["v"][0]["f"][0][1]
            else:
                break
        return t

    def peel_path(self, t, want):
        path = ()
        for _ in range(8):
            if t == want:
                return path
            ty = self.T[t]
            if ty["k"] == "union":
                fs = ty["v"][0]["f"]
                i = max(range(len(fs)), key=lambda x: self.size(fs[x][1]) or 0)
            elif ty["k"] == "struct" and ty["v"][0]["f"]:
                i = 0
                fs = ty["v"][0]["f"]
            else:
                break
            path += (i,)
            t = fs[i][1]
        return path

    # leaves: (offset, size, value) of a value of type t
    def leaves(self, t, v, off, out):
        ty = self.T[t]
        k = ty["k"]
        if ty.get("size") == 0:
            return
        if v[0] == "u":
            out.append((off, ty["size"], U))
            return
        if k in ("bool", "int", "uint", "char"):
            out.append((off, ty["size"], v))
            return
        if k in ("ref", "ptr", "fnptr"):
            if ty["size"] == 16 and v[0] == "p":
                out.append((off, 8, ("p", v[1], None)))
                out.append((off + 8, 8, v[2]))
            else:
                out.append((off, ty["size"], v))
            return
        if v[0] == "o":
            out.append((off, ty["size"], v))
            return
        if k == "array":
            es = self.size(ty["e"])
            if v[0] != "a":
                out.append((off, ty["size"], v))
                return
            for i, x in enumerate(v[1]):
                self.leaves(ty["e"], x, off + i * es, out)
            return
        if k in ("tuple", "closure"):
            for f, o, x in zip(ty["fields"], ty["off"], v[1]):
                self.leaves(f, x, off + o, out)
            return
        if k == "struct":
            for f, o, x in zip(ty["v"][0]["f"], ty["off"], v[1]):
                self.leaves(f[1], x, off + o, out)
            return
        if k == "union":
            f = ty["v"][0]["f"][v[1]]
            self.leaves(f[1], v[2], off, out)
            return
        if k == "enum" and v[0] == "e":
            if ty.get("tag") == "direct" and all(not x["f"] for x in ty["v"]):
                w = 8 * ty["tagsize"]
                ds = [int(x["d"]) & ((1 << w) - 1) for x in ty["v"]]
                r = const(ds[0], w)
                for i in range(1, len(ds)):
                    r = vite(eqc(v[1], i), const(ds[i], w), r)
                out.append((off, ty["tagsize"], ("b", r)))
                return
            # single-payload niche around a pointer: Some(p) only
            vi = to_int(v[1])
            if vi is not None and "untagged" in (ty.get("tag") or {}) and vi == ty["tag"]["untagged"]:
                x = ty["v"][vi]
                for f, o, y in zip(x["f"], x["off"], v[2][vi]):
                    self.leaves(f[1], y, off + o, out)
                return
            if "single" in ty:
                x = ty["v"][ty["single"]]
                for f, o, y in zip(x["f"], x["off"], v[2][ty["single"]]):
                    self.leaves(f[1], y, off + o, out)
                return
        out.append((off, ty["size"], ("val", t, v)))

    def build(self, t, leaves, off):
        """A value of type t from leaves at absolute offsets."""
        ty = self.T[t]
        k = ty["k"]
        if ty.get("size") == 0:
            return self.zst(t)
        if k in ("bool", "int", "uint", "char"):
            need = ty["size"]
            bits = []
            pos = off
            while pos < off + need:
                hit = None
                for o, s, v in leaves:
                    if o <= pos < o + s:
                        hit = (o, s, v)
                        break
                if hit is None or hit[2][0] != "b":
                    if hit is not None and hit[2][0] == "u":
                        return U
                    if hit is not None and hit[2][0] == "o" and hit[0] == off and hit[1] == need:
                        return ("b", bdd.uf("bits", (hit[2],), self.width(t)))
                    if hit is not None and hit[2][0] == "p":
                        return ("b", bdd.uf("addr", (hit[2],), self.width(t)))
                    raise Unsupported(f"transmute into {ty['s']}")
                o, s, v = hit
                vb = zext(v[1], 8 * s)
                bits.extend(vb[8 * (pos - o):8 * (pos - o) + 8])
                pos += 1
            return ("b", tuple(bits[:self.width(t)]))
        if k in ("ref", "ptr", "fnptr"):
            for o, s, v in leaves:
                if o == off:
                    if ty["size"] == 16:
                        m = [x for p, q, x in leaves if p == off + 8]
                        if v[0] == "p":
                            return ("p", v[1], m[0] if m else None)
                    if v[0] == "b":
                        c = to_int(v[1])
                        return ("p", ((1, (("N", c if c is not None else v[1]), ())),), None)
                    return v
            raise Unsupported("transmute into pointer")
        if k == "array":
            es = self.size(ty["e"])
            return ("a", tuple(self.build(ty["e"], leaves, off + i * es) for i in range(ty["n"])))
        if k in ("tuple", "closure"):
            return ("a", tuple(self.build(f, leaves, off + o) for f, o in zip(ty["fields"], ty["off"])))
        if k == "struct":
            for o, s, v in leaves:
                if o == off and s == ty["size"] and v[0] == "val" and v[1] == t:
                    return v[2]
            return ("a", tuple(self.build(f[1], leaves, off + o) for f, o in zip(ty["v"][0]["f"], ty["off"])))
        if k == "union":
            fs = ty["v"][0]["f"]
            i = max(range(len(fs)), key=lambda x: self.size(fs[x][1]) or 0)
            return ("U", i, self.build(fs[i][1], leaves, off))
        if k == "enum":
            for o, s, v in leaves:
                if o == off and v[0] == "val":
                    return v[2]
                if o == off and v[0] == "u":
                    return U
            tag = ty.get("tag")
            if isinstance(tag, dict):
                x = ty["v"][tag["untagged"]]
                n = len(ty["v"])
                ptrs = [v for o, s, v in leaves if o == off + (ty["tagoff"] or 0)]
                if ptrs and ptrs[0][0] == "p":
                    pays = [None] * n
                    pays[tag["untagged"]] = tuple(self.build(f[1], leaves, off + o) for f, o in zip(x["f"], x["off"]))
                    return ("e", const(tag["untagged"], clog2(n)), tuple(pays))
                if ptrs and ptrs[0][0] == "b" and all(not y["f"] for i, y in enumerate(ty["v"]) if i != tag["untagged"]):
                    ts = ty["tagsize"]
                    r = const(tag["untagged"], clog2(n))
                    for i in range(tag["lo"], tag["hi"] + 1):
                        c = eqc(zext(ptrs[0][1], 8 * ts), (int(tag["start"]) + i - tag["lo"]) & ((1 << (8 * ts)) - 1))
                        r = vite(c, const(i, clog2(n)), r)
                    pays = [() for _ in range(n)]
                    pays[tag["untagged"]] = tuple(self.build(f[1], leaves, off + o) for f, o in zip(x["f"], x["off"]))
                    return ("e", r, tuple(pays))
            if tag == "direct" and all(not y["f"] for y in ty["v"]):
                for o, s, v in leaves:
                    if o == off and v[0] == "b":
                        n = len(ty["v"])
                        r = const(0, clog2(n))
                        for i, y in enumerate(ty["v"]):
                            r = vite(eqc(v[1], int(y["d"]) & ((1 << (8 * s)) - 1)), const(i, clog2(n)), r)
                        return ("e", r, tuple(() for _ in ty["v"]))
        raise Unsupported(f"transmute into {ty['s']}")

    def transmute(self, st, v, t, ot):
        if t == ot:
            return v
        ty, oty = self.T[t], self.T[ot]
        if ty["k"] in ("ref", "ptr") and oty["k"] in ("ref", "ptr"):
            return self.ptr_cast(st, v, t, ot)
        if ty["k"] == "fnptr" and oty["k"] == "fnptr":
            return v
        if v[0] == "o":
            if ty["k"] in ("bool", "int", "uint", "char"):
                return ("b", bdd.uf("bits", (v,), self.width(t)))
            return v
        if v[0] == "u":
            return U
        if ty["k"] in ("ref", "ptr") and v[0] in ("p", "a") and oty.get("size") == ty.get("size"):
            w = v
            while w[0] == "a" and len(w[1]) >= 1 and all(x == UNIT or x[0] == "a" for x in w[1][1:]):
                w = w[1][0]
            if w[0] == "p":
                return w
        if v[0] == "A" and ty["k"] == "array":
            return ("A", ty["e"], ty["n"], v[3])
        if v[0] == "A":
            p = self.peel(t)
            if p != t and self.T[p]["k"] == "array":
                return self.wrap(t, p, ("A", self.T[p]["e"], self.T[p]["n"], v[3]))
        if v[0] == "U" and self.T[self.peel(ot)]["k"] == "array" and ty["k"] == "array":
            x = v
            while x[0] in ("U",) or (x[0] == "a" and len(x[1]) == 1):
                x = x[2] if x[0] == "U" else x[1][0]
                if x[0] == "A":
                    return ("A", ty["e"], ty["n"], x[3])
        out = []
        self.leaves(ot, v, 0, out)
        return self.build(t, out, 0)

    def wrap(self, t, inner, v):
        ty = self.T[t]
        if t == inner:
            return v
        if ty["k"] == "union":
            fs = ty["v"][0]["f"]
            i = max(range(len(fs)), key=lambda x: self.size(fs[x][1]) or 0)
            return ("U", i, self.wrap(fs[i][1], inner, v))
        return ("a", (self.wrap(ty["v"][0]["f"][0][1], inner, v),))

    # ----------------------------------------------------------------- events
    def emit(self, st, kind, args, ret=None, site=None):
        """The next interaction with the environment; returns its answer."""
        live = []
        for L, g in st.tr.lens.items():
            h = B.and_(st.g, g)
            if h:
                live.append((L, h))
        live.sort()
        slots = list(st.tr.slots)
        newlens = {}
        res = None
        for L, h in live:
            while len(slots) <= L:
                slots.append({})
            d = dict(slots[L])
            s = frozenset([site]) if site else frozenset()
            if kind in d:
                g0, a0, s0 = d[kind]
                gg = B.or_(g0, h)
                c = B.restrict(h, gg)
                d[kind] = (gg, tuple(merge(c, x, y) for x, y in zip(args, a0)), s0 | s)
            else:
                d[kind] = (h, tuple(args), s)
            slots[L] = d
            newlens[L + 1] = h if len(live) > 1 else 1
            if ret is not None:
                r = ret(f"R{L}.{kind}")
                if res is None:
                    res = r
                else:
                    res = merge(B.restrict(h, st.g), r, res)
        st.tr = Trace(tuple(slots), newlens)
        return res if res is not None else UNIT

    # -------------------------------------------------------------- execution
    def site(self, key, bb, line=None):
        b = self.F.insts[key]["body"]
        sp = b["blocks"][bb]["sp"]
        f = b["sp"][0] if line is not None else sp[0]
        return (self.F.insts[key]["nm"], f, line if line is not None else sp[1])

    def panic(self, st, site, what):
        self.panics.append((st.g, site, what, tuple(self.F.insts[k]["nm"] for k in self.stack)))

    def call(self, st, key, args, site=None):
        """Abstract call. Returns (state, value) or (None, None)."""
        wp, self._wp = self._wp, False
        inst = self.F.insts[key]
        nm = inst["nm"]
        m = self.models.get(nm)
        if m is None:
            for pre, fn in self.prefix_models:
                if nm.startswith(pre) or pre in nm and pre.startswith("~") is False and pre.startswith("*"):
                    m = fn
                    break
        if m is not None:
            r = m(self, st, inst, args, site)
            if r is not NotImplemented:
                return r
        if inst.get("intrinsic"):
            r = self.intrinsic(st, inst, args, site)
            if r is not NotImplemented:
                return r
        body = inst.get("body")
        if inst.get("empty"):
            return st, UNIT
        if body is None:
            c = self.ctor(inst, args)
            if c is not None:
                return st, c
            if is_panic(nm):
                self.panic(st, site, nm)
                return None, None
            if self.default_call:
                return self.default_call(self, st, inst, args, site)
            raise Unsupported(f"call to {nm} in " + " > ".join(self.F.insts[k]["nm"] for k in self.stack[-5:]))
        return self.run(st, key, args, wp)

    def ctor(self, inst, args):
        """A tuple struct / variant constructor used as a function."""
        t = inst.get("ret")
        if t is None:
            return None
        ty = self.T[t]
        d = inst["def"]
        if ty["k"] == "struct" and ty.get("def") == d and len(ty["v"][0]["f"]) == len(args):
            return ("a", tuple(args))
        if ty["k"] == "enum" and d.startswith(ty.get("def", "\0") + "::"):
            v = d[len(ty["def"]) + 2:]
            for i, x in enumerate(ty["v"]):
                if x["name"] == v and len(x["f"]) == len(args):
                    pays = [None] * len(ty["v"])
                    pays[i] = tuple(args)
                    return ("e", const(i, clog2(len(ty["v"]))), tuple(pays))
        return None

    def run(self, st, key, args, parts=False):
        if len(self.stack) >= self.maxdepth:
            raise Unsupported("call depth: " + " > ".join(self.F.insts[k]["nm"] for k in self.stack[-4:]))
        body = self.F.insts[key]["body"]
        fr = next(self.fid)
        argc = body["argc"]
        if body["spread"] is not None:
            sp = body["spread"]
            n = sp - 1
            if len(args) != argc or (len(args) == argc and not self.is_tuple(body["locals"][sp], args[n])):
                args = list(args[:n]) + [("a", tuple(args[n:]))]
        elif len(args) != argc:
            if len(args) == 2 and args[1][0] == "a" and 1 + len(args[1][1]) == argc:
                args = [args[0]] + list(args[1][1])
            elif len(args) == 2 and args[1][0] == "a" and len(args[1][1]) == argc:
                args = list(args[1][1])
            else:
                raise Unsupported(f"arity of {self.F.insts[key]['nm']}: {len(args)} for {argc}")
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        self.stack.append(key)
        self.calls += 1
        vis = self.visited.setdefault(key, set())
        rpo = self.F.rpo(key)
        kill = self.F.kill(key)
        pending = {(0, None): st}
        visits = {}
        dones = {}
        enum = parts and self.T[body["locals"][0]]["k"] == "enum"
        while pending:
            bb, lab = at = min(pending, key=lambda x: (rpo[x[0]], str(x[1])))
            s = pending.pop(at)
            vis.add(bb)
            self.blocks += 1
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > self.unroll:
                raise Unbounded(f"{self.F.insts[key]['nm']} block {bb}")
            term = body["blocks"][bb]["t"][0]
            for e in self.block(s, key, fr, body, bb):
                nb, ns = e[:2]
                if nb == "ret":
                    tag = None
                    if enum:
                        r = ns.mem.get(("L", fr, 0), U)
                        tag = to_int(r[1]) if r[0] == "e" else None
                    dones[tag] = join(dones.get(tag), ns)
                else:
                    for l in kill[nb]:
                        ns.mem.pop(("L", fr, l), None)
                    nl = e[2] if len(e) > 2 else None if term in ("switch", "call") or lab is None else lab[0]
                    if enum:
                        r = ns.mem.get(("L", fr, 0), U)
                        nl = (nl, to_int(r[1]) if r[0] == "e" else None)
                    elif nl is not None:
                        nl = (nl, None)
                    p = pending.get((nb, nl))
                    pending[(nb, nl)] = ns if p is None else join(p, ns)
        self.stack.pop()
        if not dones:
            return None, None
        out = []
        if len(dones) > 1 and None in dones:
            d = None
            for x in dones.values():
                d = join(d, x)
            dones = {None: d}
        for tag in sorted(dones, key=str):
            done = dones[tag]
            ret = done.mem.get(("L", fr, 0), U)
            if body["locals"] and self.is_zst(body["locals"][0]) and ret == U:
                ret = self.zst(body["locals"][0])
            for l in range(len(body["locals"])):
                done.mem.pop(("L", fr, l), None)
            out.append((done, ret))
        if len(out) > 1:
            self._got = out
        return out[0]

    def is_tuple(self, t, v):
        ty = self.T[t]
        return ty["k"] == "tuple" and v[0] == "a" and len(v[1]) == len(ty["fields"])

    def block(self, st, key, fr, body, bb):
        blk = body["blocks"][bb]
        for s in blk["s"]:
            k = s[0]
            if k == "dead":
                st.mem.pop(("L", fr, s[1]), None)
            elif k == "=":
                line = s[3]["l"]
                site = (self.F.insts[key]["nm"], body["sp"][0], line)
                v = self.rvalue(st, fr, body, s[2], site)
                self.write_place(st, fr, s[1], v, site)
            elif k == "setd":
                t = self.place_ty(body, s[1])
                v = self.read_place(st, fr, s[1])
                n = len(self.T[t]["v"])
                pays = v[2] if v[0] == "e" else (None,) * n
                pays = tuple(() if p is None and i == s[2] else p for i, p in enumerate(pays))
                self.write_place(st, fr, s[1], ("e", const(s[2], clog2(n)), pays))
            elif k == "assume":
                v = self.operand(st, fr, s[1])
                if v[0] == "b":
                    g = B.and_(st.g, v[1][0])
                    if g:
                        st.g = g
            elif k == "cno":
                self.copy_mem(st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]))
            else:
                raise Unsupported(f"statement {k}")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            out = []
            if v[0] != "b":
                raise Unsupported(f"switch on {v[0]} in {self.F.insts[key]['nm']}")
            rest = 1
            for val, tb in t[2]:
                c = eqc(v[1], int(val) & ((1 << len(v[1])) - 1))
                if int(val) >> len(v[1]):
                    c = 0
                rest = B.and_(rest, B.not_(c))
                ns = st.fork(c)
                if ns is not None:
                    out.append((tb, ns))
            if t[3] is not None:
                ns = st.fork(rest)
                if ns is not None:
                    if body["blocks"][t[3]]["t"][0] == "unreachable" and not body["blocks"][t[3]]["s"]:
                        pass
                    else:
                        out.append((t[3], ns))
            return out
        if k == "assert":
            v = self.operand(st, fr, t[1])
            c = v[1][0] if t[2] else B.not_(v[1][0])
            if t[3] in ("misaligned", "null") or t[3].startswith("Null") or t[3].startswith("Misal"):
                return [(t[4], st)]
            bad = st.fork(B.not_(c))
            if bad is not None:
                self.panic(bad, self.site(key, bb), t[3])
            ok = st.fork(c)
            return [(t[4], ok)] if ok is not None else []
        if k == "call":
            site = self.site(key, bb)
            args = [self.operand(st, fr, a) for a in t[2]]
            callee = t[1]
            if "i" in callee:
                if CLOSURE.search(self.F.insts[callee["i"]]["nm"]) and len(args) == 2 and args[1][0] == "a":
                    # rust-call ABI: the arguments arrive as one tuple
                    args = [args[0]] + list(args[1][1])
                self._wp = self.split
                ns, v = self.call(st, callee["i"], args, site)
                self._wp = False
                if self._got is not None:
                    got, self._got = self._got, None
                    out = []
                    for n, (ns, v) in enumerate(got):
                        self.write_place(ns, fr, t[3], v, site)
                        if t[4] is not None:
                            out.append((t[4], ns, n))
                    return out
                if ns is None:
                    return []
                self.write_place(ns, fr, t[3], v, site)
                return [(t[4], ns)] if t[4] is not None else []
            if "p" in callee:
                f = self.operand(st, fr, callee["p"])
                if f[0] != "f":
                    raise Unsupported("call through unknown function pointer")
                acc, av = None, None
                for g, inst in f[1]:
                    s2 = st.fork(g)
                    if s2 is None:
                        continue
                    a2 = list(args)
                    if CLOSURE.search(self.F.insts[inst]["nm"]):
                        a2 = [UNIT] + a2      # a closure without captures
                    elif self.F.insts[inst]["nm"].startswith("<{closure@"):
                        a2 = [UNIT, ("a", tuple(a2))]
                    ns, v = self.call(s2, inst, a2, site)
                    if ns is None:
                        continue
                    if acc is None:
                        acc, av = ns, v
                    else:
                        j = join(acc, ns)
                        av = merge(B.restrict(acc.g, j.g), av, v)
                        acc = j
                if acc is None:
                    return []
                self.write_place(acc, fr, t[3], av, site)
                return [(t[4], acc)] if t[4] is not None else []
            raise Unsupported(f"unresolved call {callee}")
        if k == "drop":
            if t[5] is not None and self.drop_hook is not None:
                st = self.drop_hook(self, st, fr, body, t, self.site(key, bb))
                if st is None:
                    return []
            return [(t[2], st)]
        if k == "unreachable":
            self.unreach.append((st.g, self.site(key, bb)))
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported(f"terminator {k}")

    def copy_mem(self, st, src, dst, n):
        c = to_int(n[1])
        if c is None:
            raise Unsupported("copy of unknown length")
        src, dst = self.as_ptr(st, src), self.as_ptr(st, dst)
        vals = []
        for i in range(c):
            p = self.ptr_offset(src, const(i, 64))
            vals.append(self.read_targets(st, [(g, o, pa) for g, (o, pa) in p[1]]))
        for i in range(c):
            p = self.ptr_offset(dst, const(i, 64))
            self.write_targets(st, [(g, o, pa) for g, (o, pa) in p[1]], vals[i])

    # -------------------------------------------------------------- intrinsics
    def intrinsic(self, st, inst, args, site):
        n = inst["intrinsic"]
        a = args
        if n in ("assert_inhabited", "cold_path", "assert_zero_valid", "assert_mem_uninitialized_valid"):
            return st, UNIT
        if n in ("size_of_val", "align_of_val") and inst["args"]:
            t = inst["args"][0]
            if self.T[t]["k"] not in ("slice", "str", "dyn"):
                return st, bv(self.size(t) if n == "size_of_val" else 8, 64)
            return st, ("b", bdd.uf(n, (a[0],), 64))
        if n in ("saturating_add", "saturating_sub"):
            t = inst["args"][0]
            if self.signed(t) or a[0][0] != "b" or a[1][0] != "b":
                return st, ("b", bdd.uf(n, tuple(a), self.width(t)))
            w = self.width(t)
            if n == "saturating_add":
                r, c = bdd.add(a[0][1], a[1][1])
                return st, ("b", vite(c, const((1 << w) - 1, w), r))
            r, c = bdd.sub(a[0][1], a[1][1])
            return st, ("b", vite(c, const(0, w), r))
        if n in ("integer_min", "integer_max") and a[0][0] == "b" and a[1][0] == "b":
            lt = (bdd.slt if self.signed(inst["args"][0]) else bdd.ult)(a[0][1], a[1][1])
            x, y = (a[0][1], a[1][1]) if n == "integer_min" else (a[1][1], a[0][1])
            return st, ("b", vite(lt, x, y))
        if n in ("arith_offset", "offset"):
            return st, self.ptr_offset(self.as_ptr(st, a[0]), a[1][1])
        if n == "is_val_statically_known":
            return st, boolv(0)
        if n in ("ptr_offset_from_unsigned", "ptr_offset_from"):
            p, q = self.as_ptr(st, a[0]), self.as_ptr(st, a[1])
            r = None
            for g, (o1, p1) in p[1]:
                for h, (o2, p2) in q[1]:
                    c = B.and_(g, h)
                    if not c or o1 != o2:
                        continue
                    p1, p2 = self.elem_ptr(p1), self.elem_ptr(p2)
                    if p1 == p2:
                        x = const(0, 64)
                    elif p1[:-1] == p2[:-1]:
                        x = bdd.sub(self.ibits(p1[-1]), self.ibits(p2[-1]))[0]
                    else:
                        raise Unsupported("pointer difference")
                    r = x if r is None else vite(c, x, r)
            if r is None:
                raise Unsupported("pointer difference")
            return st, ("b", r)
        if n == "raw_eq":
            x = self.read_targets(st, [(g, o, p) for g, (o, p) in self.as_ptr(st, a[0])[1]])
            y = self.read_targets(st, [(g, o, p) for g, (o, p) in self.as_ptr(st, a[1])[1]])
            return st, boolv(self.val_eq(x, y))
        if n in ("copy", "copy_nonoverlapping"):
            self.copy_mem(st, a[0], a[1], a[2])
            return st, UNIT
        if n in ("ctpop", "cttz", "ctlz"):
            w = 32
            return st, ("b", bdd.uf(n, (a[0][1],), w))
        if n == "abort":
            self.panic(st, site, "abort")
            return None, None
        return NotImplemented

    def val_eq(self, x, y):
        """Condition under which two values are equal (structural)."""
        if x == y:
            return 1
        if x[0] == "b" and y[0] == "b":
            return eq(x[1], y[1]) if len(x[1]) == len(y[1]) else 0
        if x[0] == "a" and y[0] == "a":
            if len(x[1]) != len(y[1]):
                return 0
            r = 1
            for p, q in zip(x[1], y[1]):
                r = B.and_(r, self.val_eq(p, q))
            return r
        if x[0] == "e" and y[0] == "e":
            r = eq(x[1], y[1])
            for i, (p, q) in enumerate(zip(x[2], y[2])):
                if not p and not q:
                    continue
                c = eqc(x[1], i)
                if B.and_(c, r) == 0:
                    continue
                if p is None or q is None:
                    e = 0 if (p or q) else 1
                else:
                    e = 1
                    for u, v in zip(p, q):
                        e = B.and_(e, self.val_eq(u, v))
                r = B.and_(r, B.or_(B.not_(c), e))
            return r
        if x[0] == "U" and y[0] == "U":
            return self.val_eq(x[2], y[2])
        if x[0] == y[0] and x[0] in ("p", "o", "f"):
            r = 0
            for g, t in x[1]:
                for h, u in y[1]:
                    if t == u:
                        r = B.or_(r, B.and_(g, h))
            if x[0] == "p" and x[2] is not None and y[2] is not None:
                r = B.and_(r, self.val_eq(x[2], y[2]))
            return r
        if x[0] == "A" and y[0] == "A":
            return self.term_eq(x[3], y[3])
        return 0

    def term_eq(self, s, t):
        if s == t:
            return 1
        if s[0] == "ite":
            return B.ite(s[1], self.term_eq(s[2], t), self.term_eq(s[3], t))
        if t[0] == "ite":
            return B.ite(t[1], self.term_eq(s, t[2]), self.term_eq(s, t[3]))
        if s[0] == "st" and t[0] == "st":
            return B.and_(B.and_(eq(s[2], t[2]), self.val_eq(s[3], t[3])), self.term_eq(s[1], t[1]))
        if s[0] == "const" and t[0] == "const":
            return self.val_eq(s[1], t[1])
        return 0


CLOSURE = re.compile(r"\{closure#\d+\}$")
PANICS = ("core::panicking::", "std::rt::panic", "core::slice::index::slice_", "std::rt::begin_panic",
          "core::str::slice_error_fail", "std::option::unwrap_failed", "std::option::expect_failed",
          "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
          "std::result::unwrap_failed", "std::process::abort", "std::intrinsics::abort",
          "core::slice::copy_from_slice_impl::len_mismatch_fail", "alloc::raw_vec::handle_error",
          "alloc::alloc::handle_alloc_error", "std::alloc::handle_alloc_error",
          "core::num::from_ascii_bytes_radix_panic")


def is_panic(nm):
    return any(nm.startswith(p) for p in PANICS) or "assert_failed" in nm
