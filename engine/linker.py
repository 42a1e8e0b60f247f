"""The linker: its main function over arbitrary object files."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, atom, State, Trace, bv, boolv, UNIT, U, Unsupported, clog2, join, merge
from facts import MissingAnchor
import maps
import natives
import objfile
import rt
from objfile import get, panics_of, differ
from tools import Tool, BinWorld, first, orall, PRINTED



def below(n, k):
    return bdd.ult(zext(n, 8), const(k, 8))


def str_maps(T):
    """Hash maps with string keys: (guard, key, value cell) in the order of their insertion; equal strings are the same string."""
    I, reg = T.I, T.reg
    n = [0]
    H = r"(?:std|alloc)::collections::HashMap::<std::boxed::Box<str>, .*>::"

    # (the map is a number; its entries, each with the condition it is there under, are kept aside: every insertion
    # on a path is interpreted before any later look-up on it, and entries of other paths have disjoint conditions)
    ents = []

    def new(I, st, inst, args, site):
        ents.append([])
        return st, ("a", (bv(len(ents) - 1, 8),))

    def numbers(st, m):
        """(condition, number) of the maps that a pointer points to"""
        def go(g, x):
            while x[0] == "a":
                x = x[1][0]
            if x[0] == "b":
                yield g, x[1]
                return
            for c, a in x[1] if x[0] == "o" else ():
                c = B.and_(g, c)
                if c and a[0] == "val":
                    yield from go(c, a[1])
                elif B.and_(c, st.g):
                    raise Unsupported("hash map")
        for g, o, p in rt.targets(I, st, m):
            yield from go(g, I.read_path(I.load_obj(st, o), p))

    def entries(st, m):
        r = []
        for g, x in numbers(st, m):
            for i, es in enumerate(ents):
                c = B.and_(g, eqc(x, i))
                if c:
                    r += [(B.and_(c, e[0]),) + e[1:] for e in es]
        return r

    def find(st, m, k):
        while k[0] == "p" and k[2] is None:
            k = rt.deref(I, st, k)
            if k[0] != "p":
                k = rt.slice_of(I, st, k) if rt.is_vec(natives.strip(k)) else I.as_ptr(st, k)
        hit, ts = 0, []
        for g, key, cell in entries(st, m):
            c = B.and_(g, T.same_name(st, key, k))
            c = B.and_(B.and_(c, B.not_(hit)), st.g)
            if c:
                ts.append((c, (cell, ())))
                hit = B.or_(hit, c)
        return rt.where(st.g, hit), ("p", tuple(ts), None)

    def get_(I, st, inst, args, site):
        hit, p = find(st, args[0], args[1])
        return st, ("e", (hit,), ((), (p if p[1] else U,)))

    def insert(I, st, inst, args, site):
        key = I.as_ptr(st, args[1])
        hit, p = find(st, args[0], key)
        old = U
        if hit:
            old = rt.deref(I, st, p)
            for g, (cell, _) in p[1]:
                st.mem[cell] = merge(g, args[2], st.mem[cell])
        add(st, args[0], key, args[2], B.and_(st.g, B.not_(hit)))
        return st, ("e", (hit,), ((), (old,)))

    def add(st, m, key, v, miss):
        cell = ("S", f"map cell {n[0]}")
        n[0] += 1
        st.mem[cell] = v
        T.cells.append(cell)
        for g, x in numbers(st, m):
            for i, es in enumerate(ents):
                c = B.and_(miss, B.and_(g, eqc(x, i)))
                if c:
                    es.append((c, key, cell))
        return cell
    T.cells = []
    T.map_entries, T.map_find, T.map_add = entries, find, add
    reg(H + "new", new)
    reg(H + r"get(_mut)?::<.*>", get_)
    reg(H + "insert", insert)
    reg(H + r"contains_key::<.*>", lambda I, st, inst, args, site: (st, ("b", (find(st, args[0], args[1])[0],))))

    # ---- entries: (map pointer, key)
    def entry(I, st, inst, args, site):
        ts = [t for t in I.T if t["s"].startswith("std::collections::hash_map::Entry<") and t.get("v")]
        vs = [v["name"] for v in ts[0]["v"]] if ts else ["Occupied", "Vacant"]
        k = I.as_ptr(st, args[1])
        hit, _ = find(st, args[0], k)
        w = clog2(len(vs))
        tag = vite(hit, const(vs.index("Occupied"), w), const(vs.index("Vacant"), w))
        return st, ("e", tag, ((("a", (args[0], k)),),) * len(vs))

    def pair(st, e):
        while e[0] in "ep":
            e = e[2][0][0] if e[0] == "e" else rt.deref(I, st, e)
        return natives.strip(e)[1]

    def and_modify(I, st, inst, args, site):
        hit, p = find(st, *pair(st, args[0]))
        if B.and_(st.g, hit):
            s2, _ = natives.call_closure(I, st.fork(B.and_(st.g, hit)), inst["args"][-1], args[1], (p,))
            if s2 is None:
                raise Unsupported("diverging update of an entry")
            st = join(s2, st.fork(B.and_(st.g, B.not_(hit))))
        return st, args[0]

    def or_insert(I, st, inst, args, site):
        m, k = pair(st, args[0])
        hit, p = find(st, m, k)
        miss = B.and_(st.g, B.not_(hit))
        if "or_insert_with" in inst["nm"]:
            if not miss:
                return st, p
            s2, v = natives.call_closure(I, st.fork(miss), inst["args"][-1], args[1], ())
            if s2 is None:
                raise Unsupported("diverging value of an entry")
            st = join(s2, st.fork(B.and_(st.g, hit)))
        else:
            v = args[1]
        cell = add(st, m, k, v, miss)
        return st, ("p", tuple(p[1]) + ((B.not_(hit), (cell, ())),), None)

    def vacant_insert(I, st, inst, args, site):
        m, k = pair(st, args[0])
        return st, rt.P(add(st, m, k, args[1], st.g))

    def occupied(I, st, inst, args, site):
        return st, find(st, *pair(st, args[0]))[1]

    def occ_insert(I, st, inst, args, site):
        _, p = find(st, *pair(st, args[0]))
        old = rt.deref(I, st, p)
        for g, (cell, _) in p[1]:
            st.mem[cell] = merge(g, args[1], st.mem[cell])
        return st, old
    E = r"std::collections::hash_map::"
    KEY = r"(?:'_, )?std::boxed::Box<str>, .*"
    reg(H + "entry", entry)
    reg(E + rf"Entry::<{KEY}>::and_modify::<.*>", and_modify)
    reg(E + rf"Entry::<{KEY}>::(or_insert|or_insert_with::<.*>)", or_insert)
    reg(E + rf"VacantEntry::<{KEY}>::insert", vacant_insert)
    reg(E + rf"OccupiedEntry::<{KEY}>::(get|get_mut|into_mut)", occupied)
    reg(E + rf"OccupiedEntry::<{KEY}>::insert", occ_insert)
    reg(r"std::ptr::drop_glue::<std::collections::hash_map::(Entry|VacantEntry|OccupiedEntry)<(?:'_, )?std::boxed::Box<str>, .*>>", lambda I, st, inst, args, site: (st, UNIT))
    reg(r"std::ptr::drop_glue::<.*HashMap<std::boxed::Box<str>, .*>>", lambda I, st, inst, args, site: (st, UNIT))


def archives_fn(F):
    """The function whose result is the objects to be linked besides the inputs."""
    r = "std::result::Result<std::vec::Vec<(std::string::String, telda2::aalv::obj::Object)>, std::io::Error>"
    ks = [k for k, i in F.insts.items() if i.get("body") and i["nm"].startswith("tl::") and not i["nm"].endswith("}") and
          F.tys[i["body"]["locals"][0]]["s"] == r]
    if len(ks) != 1:
        raise MissingAnchor("selection of archived objects")
    return ks[0]


class Tl(Tool):
    def __init__(self, F, kinds=("Text",), nobj=2, nsyms=1, nrel=1, size=3, nlib=0, big=False, alignment=128, fix=None, names=3, set_entry=False):
        super().__init__(F, 0)
        I = self.I
        self.kinds, self.nobj, self.nsyms, self.nrel, self.size, self.big = kinds, nobj, nsyms, nrel, size, big
        # (choices that are not left open: the ends of their names)
        self.nlib, self.alignment, self.fix = nlib, alignment, fix or {}
        self.NAMES, self.set_entry = names, set_entry
        self.to = F.ty_named("telda2::aalv::obj::Object")
        self.tsd = F.ty_named("telda2::aalv::obj::SymbolDefinition")
        self.tre = F.ty_named("telda2::aalv::obj::RelocationEntry")
        ts = F.ty_named("telda2::aalv::obj::SegmentType")
        self.ts = ts
        self.sv = [v["name"] for v in F.tys[ts]["v"]]
        self.order = maps.order(I, ts)
        self.care = 1
        self.names = [("S", f"name {i}") for i in range(self.NAMES)]
        self.namelen = [zext(fresh(f"name {i} len", 8), 64) for i in range(self.NAMES)]
        str_maps(self)
        self.objs = [self.object(k) for k in range(nobj + nlib)]
        self.cli()
        self.models_tl()

    def flag(self, name):
        for k, v in self.fix.items():
            if name.endswith(k):
                return v
        return B.var(name, 0, 0)

    def num(self, name, n):
        """A number whose bits come first, unless it is closed to one value."""
        return const(self.fix[name], n) if name in self.fix else first(name, n)

    def same_name(self, st, a, b):
        r = 0
        for ga, ta in a[1]:
            for gb, tb in b[1]:
                if ta == tb:
                    r = B.or_(r, B.and_(ga, gb))
        return r

    def name(self, label):
        """One of the names; (pointer, which)"""
        s = self.num(f"{label} name", clog2(self.NAMES))
        self.need(below(s, self.NAMES))
        n = None
        for i in range(self.NAMES):
            n = self.namelen[i] if n is None else vite(eqc(s, i), self.namelen[i], n)
        return ("p", tuple((eqc(s, i), (self.names[i], ())) for i in range(self.NAMES)), ("b", n)), s

    def need(self, c, g=1):
        self.care = B.and_(self.care, B.or_(B.not_(g), c))

    def struct(self, t, **kw):
        fs = objfile.fields(self.F, t)
        if set(kw) != set(fs):
            raise MissingAnchor(f"fields of {self.F.tys[t]['s']}")
        return ("a", tuple(kw[f] for f in fs))

    def vec(self, n, ety, cells):
        term = ("const", cells[-1]) if cells else ("const", U)
        for i in range(len(cells) - 1):
            term = ("st", term, const(i, 64), cells[i])
        return ("a", (("b", zext(n, 64)), ("A", ety, None, term)))

    def seg_tag(self, i):
        """The segment kind of a choice number: the kinds analysed, then unknown."""
        w = clog2(len(self.sv))
        t = const(self.sv.index("Unknown"), w)
        for j, k in enumerate(self.kinds):
            t = vite(eqc(i, j), const(self.sv.index(k), w), t)
        return t

    def object(self, k):
        """An arbitrary well-formed object."""
        F, I = self.F, self.I
        o = f"object{k}"
        K = len(self.kinds)
        kb = clog2(K + 1)
        segs, segv = [], [maps.some(U, 0)] * len(self.sv)
        for j, kind in enumerate(self.kinds):
            have = self.flag(f"{o} has {kind}")
            # (in one piece: each start only matters with the numbers of its own segment)
            start = fresh(f"{o}.{kind}.start", 16) if self.big else first(f"{o}.{kind}.start", 16)
            if self.big:
                n = fresh(f"{o}.{kind}.len", 16, 1)
            else:
                n = self.num(f"{o}.{kind}.len", clog2(self.size + 1))
                self.need(below(n, self.size + 1))
            end = bdd.add(zext(start, 17), zext(n, 17))[0]
            # (so that a location after its last byte can be expressed)
            self.need(B.not_(end[16]), have)
            cells = [("b", fresh(f"{o}.{kind}[{i}]", 8, 2)) for i in range(self.size)]
            if self.big:
                b = self.vec(n, I.u8(), [bv(0, 8)])
            else:
                b = self.vec(n, I.u8(), cells)
            segs.append(dict(have=have, start=start, n=n, cells=cells))
            segv[self.sv.index(kind)] = maps.some(("a", (("b", start), b)), have)
        syms, symv = [], []
        ns = self.num(f"{o} symbols", clog2(self.nsyms + 1)) if self.nsyms else (0,)
        self.need(below(ns, self.nsyms + 1))
        for i in range(self.nsyms):
            l = f"{o}.symbol{i}"
            there = bdd.ult(const(i, 8), zext(ns, 8))
            name, which = self.name(l)
            glob = self.flag(f"{l} global")
            seg = self.num(f"{l} segment", kb)
            self.need(below(seg, K + 1))
            off = fresh(f"{l} offset", 16, 1) if self.big else first(f"{l} offset", clog2(self.size + 1))
            loc = const(0, 16)
            defined = 0
            for j, s in enumerate(segs):
                c = eqc(seg, j)
                defined = B.or_(defined, c)
                h = B.and_(c, s["have"])
                self.need(B.not_(bdd.ult(zext(s["n"], 16), zext(off, 16))), B.and_(there, h))
                loc = vite(h, bdd.add(s["start"], zext(off, 16))[0], loc)
                # (a label in a segment without data)
                self.need(eqc(off, 0), B.and_(c, B.not_(s["have"])))
            self.need(B.or_(glob, defined), there)
            syms.append(dict(there=there, name=name, which=which, glob=glob, seg=seg, off=off, defined=defined, loc=loc))
            symv.append(self.struct(self.tsd, name=self.box(name), is_global=("b", (glob,)), location=("b", loc),
                                    segment_type=("e", self.seg_tag(seg), ((),) * len(self.sv))))
        rels, relv = [], []
        nr = self.num(f"{o} relocations", clog2(self.nrel + 1)) if self.nrel else (0,)
        self.need(below(nr, self.nrel + 1))
        for i in range(self.nrel):
            l = f"{o}.relocation{i}"
            there = bdd.ult(const(i, 8), zext(nr, 8))
            seg = self.num(f"{l} segment", kb)
            off = fresh(f"{l} offset", 16, 1) if self.big else first(f"{l} offset", clog2(self.size + 1))
            sy = self.num(f"{l} symbol", max(1, clog2(self.nsyms)))
            loc = const(0, 16)
            good = 0
            for j, s in enumerate(segs):
                c = B.and_(eqc(seg, j), s["have"])
                good = B.or_(good, c)
                self.need(B.not_(bdd.ult(zext(s["n"], 17), bdd.add(zext(off, 17), const(2, 17))[0])), B.and_(there, c))
                loc = vite(c, bdd.add(s["start"], zext(off, 16))[0], loc)
            for q in rels:
                same = B.and_(there, B.and_(eq(q["seg"], seg), 1))
                a, b = zext(q["off"], 17), zext(off, 17)
                self.need(B.or_(B.not_(bdd.ult(b, bdd.add(a, const(2, 17))[0])), B.not_(bdd.ult(a, bdd.add(b, const(2, 17))[0]))), same)
            missing = self.flag(f"{l} in a missing segment") if i == 0 else 0
            bad = 0
            for j, s in enumerate(segs):
                bad = B.or_(bad, B.and_(eqc(seg, j), B.not_(s["have"])))
            self.need(B.or_(B.and_(good, B.not_(missing)), B.and_(bad, missing)), there)
            self.need(bdd.ult(zext(sy, 8), zext(ns, 8)), there)
            rels.append(dict(there=there, seg=seg, off=off, sym=sy, missing=B.and_(there, missing)))
            relv.append(self.struct(self.tre, reference_location=("b", loc), symbol_index=("b", zext(sy, 16)),
                                    reference_segment=("e", self.seg_tag(seg), ((),) * len(self.sv))))
        te = F.ty_named("telda2::aalv::obj::Entry")
        ent = self.flag(f"{o} has an entry")
        seg = self.num(f"{o}.entry segment", kb)
        off = fresh(f"{o}.entry offset", 16, 1) if self.big else first(f"{o}.entry offset", clog2(self.size + 1))
        loc = const(0, 16)
        self.need(below(seg, K))
        for j, s in enumerate(segs):
            c = B.and_(eqc(seg, j), s["have"])
            self.need(B.not_(bdd.ult(zext(s["n"], 16), zext(off, 16))), B.and_(ent, c))
            loc = vite(c, bdd.add(s["start"], zext(off, 16))[0], loc)
            self.need(eqc(off, 0), B.and_(eqc(seg, j), B.not_(s["have"])))
        entry = ("e", (ent,), ((), (("a", (("e", self.seg_tag(seg), ((),) * len(self.sv)), ("b", loc))),)))
        if [F.tys[f[1]]["k"] for f in F.tys[te]["v"][0]["f"]] != ["enum", "int"] and len(F.tys[te]["v"][0]["f"]) != 2:
            raise MissingAnchor("entry")
        kw = {f[0]: I.fresh(f[1], f"{o}.{f[0]}") for f in F.tys[self.to]["v"][0]["f"] if f[0] in ("flags", "stack_size", "heap_size", "file_offset")}
        v = self.struct(self.to, entry=entry, segs=("a", tuple(segv)),
                        symbols=("a", (self.vec(ns, self.tsd, symv),)),
                        relocation_table=("a", (self.vec(nr, self.tre, relv),)), **kw)
        return dict(v=v, segs=segs, syms=syms, rels=rels, ent=ent, eseg=seg, eoff=off, bad=self.flag(f"{o} cannot be read"))

    def box(self, p):
        t = [f[1] for f in self.F.tys[self.tsd]["v"][0]["f"] if f[0] == "name"][0]
        return natives.ptr_value(self.I, t, p)

    def cli(self):
        F, I = self.F, self.I
        t = [i for i, t in enumerate(F.tys) if t.get("def") == "tl::Cli"]
        if len(t) != 1:
            raise MissingAnchor("command line of tl")
        fs = F.tys[t[0]]["v"][0]["f"]
        tp = I.T[[f[1] for f in fs if f[0] == "input_files"][0]]["args"][0]
        v = {}
        v["input_files"] = self.vec(const(self.nobj, 8), tp, [atom(f"input {k}") for k in range(self.nobj)])
        self.out_given = self.flag("output given")
        v["out"] = ("e", (self.out_given,), ((), (atom("output"),)))
        # -E: an address or a name
        self.se = self.flag("entry set") if self.set_entry else 0
        self.se_hex = self.flag("entry is an address")
        self.se_bad = self.flag("entry is no number")
        self.se_addr = fresh("entry address", 16, 2)
        es, self.se_name = self.name("entry") if self.set_entry else (("p", (), ("b", const(0, 64))), None)
        text = ("a", (("b", zext(fresh("entry length", 16, 2), 64)), ("A", I.u8(), None, ("base", "entry option"))))
        self.need(self.flag("executable"), self.se)     # (required by the option)
        v["set_entry"] = ("e", (self.se,), ((), (text,)))
        DIG = ("S", "digits of the entry option")
        self.es = ("p", ((self.se_hex, (("S", "entry option"), ())),) + tuple((B.and_(g, B.not_(self.se_hex)), t) for g, t in es[1]), es[2])

        def is_option(st, p):
            for g, o, q in rt.targets(I, st, p):
                x = natives.strip(I.read_path(I.load_obj(st, o), q))
                if x == text:
                    return True
            return False

        def text_of(I, st, inst, args, site):
            if is_option(st, args[0]):
                return st, self.es
            return st, rt.slice_of(I, st, args[0])
        self.reg(r"<std::string::String as std::ops::Deref>::deref|std::string::String::as_str", text_of)

        def strip_prefix(I, st, inst, args, site):
            if args[0] != self.es:
                raise Unsupported("prefix of a text")
            k = args[1]
            lit = [to_int(rt.slice_get(I, st, k, const(i, 64))[1]) for i in range(2)] if to_int(rt.slice_len(k)) == 2 else None
            if lit != [ord("0"), ord("x")]:
                self.w.chk(st.g, "an address is not recognised by 0x", [site])
            return st, rt.option(rt.where(st.g, self.se_hex), ("p", ((1, (DIG, ())),), ("b", zext(fresh("digits", 16, 2), 64))))
        self.reg(r"core::str::<impl str>::strip_prefix::<&str>", strip_prefix)

        def radix(I, st, inst, args, site):
            if {t[0] for g, t in args[0][1] if g} != {DIG}:
                raise Unsupported("number in a text")
            if to_int(args[1][1]) != 16:
                self.w.chk(st.g, "the entry address is not read as hexadecimal", [site])
            return st, rt.result(rt.where(st.g, self.se_bad), ("b", self.se_addr), atom("not a number"))
        self.reg(r"core::num::<impl u16>::from_str_radix", radix)
        self.strip = self.flag("strip internal")
        v["strip_internal"] = ("b", (self.strip,))
        v["verbose"] = ("b", (self.flag("verbose"),))
        self.exe = self.flag("executable")
        v["executable"] = ("b", (self.exe,))
        v["raw_binary"] = ("b", (0,))
        v["archives"] = self.vec(const(0, 8), tp, [])
        if self.alignment is None:
            a = first("alignment", 4)
            al = tuple(eqc(a, i) for i in range(16))
        else:
            al = const(self.alignment, 16)
        self.al = al
        v["segment_alignment"] = ("b", al)
        if set(v) != {f[0] for f in fs}:
            raise MissingAnchor("options of tl")
        val = ("a", tuple(v[f[0]] for f in fs))
        self.reg(r"<tl::Cli as clap::Parser>::parse", lambda I, st, inst, args, site: (st, val), True)

    def models_tl(self):
        F, I = self.F, self.I
        self.writes, self.log = [], []

        def from_file(I, st, inst, args, site):
            x = args[0]
            while x[0] == "p":
                x = rt.deref(I, st, x)
            v, bad = None, 0
            for k in range(self.nobj):
                c = 0
                for g, a in x[1]:
                    if a == atom(f"input {k}")[1][0][1]:
                        c = B.or_(c, g)
                if not B.and_(st.g, c):
                    continue
                v = self.objs[k]["v"] if v is None else merge(c, self.objs[k]["v"], v)
                bad = B.or_(bad, B.and_(c, self.objs[k]["bad"]))
            if v is None:
                raise Unsupported("input file")
            return st, rt.result(rt.where(st.g, bad), v, self.w.E.any("kind"))
        self.reg(r"telda2::aalv::obj::Object::from_file::<.*>", from_file, True)
        self.reg(r"<std::path::Display<'_> as std::string::ToString>::to_string|<std::path::Display as std::string::ToString>::to_string",
                 lambda I, st, inst, args, site: (st, rt.vec_empty(I, I.u8())), True)
        self.reg(r"std::path::Path::display", lambda I, st, inst, args, site: (st, atom("text")))
        self.reg(r"<std::path::PathBuf as std::ops::Deref>::deref", lambda I, st, inst, args, site: (st, args[0]))
        self.libs_bad = self.flag("archives cannot be read")
        to = self.to

        def libs(I, st, inst, args, site):
            t = inst["body"]["locals"][0]
            ety = I.T[I.T[I.T[t]["args"][0]]["args"][0]]
            v = self.vec(const(self.nlib, 8), I.T[I.T[t]["args"][0]]["args"][0],
                         [("a", (rt.vec_empty(I, I.u8()), self.objs[self.nobj + k]["v"])) for k in range(self.nlib)])
            return st, rt.result(rt.where(st.g, self.libs_bad), v, self.w.E.any("kind"))
        self.anchor = archives_fn(F)
        I.models[F.insts[self.anchor]["nm"]] = libs
        self.reg(r"<std::path::PathBuf as std::convert::From<&str>>::from", lambda I, st, inst, args, site: (st, atom("default output")))
        self.reg(r"<std::boxed::Box<str> as std::clone::Clone>::clone", lambda I, st, inst, args, site: (st, rt.deref(I, st, args[0])))
        self.reg(r"<&str as std::convert::Into<std::boxed::Box<str>>>::into", lambda I, st, inst, args, site: (st, self.box(I.as_ptr(st, args[0]))))
        self.reg(r"std::ptr::drop_glue::<std::boxed::Box<str>>", lambda I, st, inst, args, site: (st, UNIT))

        def items(I, st, tit, it, site, bound):
            """Calls an iterator until it ends: (state, condition, item) for each item."""
            if I.T[tit]["s"].startswith("std::iter::Empty<"):
                yield st, 0, None
                return
            if I.T[tit]["s"].startswith("std::iter::Chain<"):
                for t, o in zip(I.T[tit]["args"], natives.strip(it)[1]):
                    for st, some, x in items(I, st, t, o[2][1][0], site, bound):
                        if some:
                            yield st, B.and_(o[1][0], some), x
                yield st, 0, None
                return
            if I.T[tit]["s"].startswith("std::iter::Map<"):
                ti, tf = I.T[tit]["args"][:2]
                src, f = natives.strip(it)[1]
                for st, some, x in items(I, st, ti, src, site, bound):
                    if some:
                        s2, y = natives.call_closure(I, st.fork(B.and_(st.g, some)), tf, f, (x,))
                        if s2 is None:
                            return
                        st = I.join(st, s2) if hasattr(I, "join") and False else st
                        st.mem.update({k: v for k, v in s2.mem.items() if k not in st.mem})
                        yield st, some, y
                yield st, 0, None
                return
            nk = [k for k, i in F.insts.items() if i["nm"] == f"<{I.T[tit]['s']} as std::iter::Iterator>::next"]
            if len(nk) != 1:
                raise Unsupported(f"iterator {I.T[tit]['s'][:120]} ({len(nk)})")
            cell = ("S", f"iterator {next(natives._heap)}")
            st.mem[cell] = it
            live = 1
            for _ in range(bound + 1):
                st, v = I.call(st, nk[0], [rt.P(cell)], site)
                if st is None:
                    return
                live = B.and_(live, rt.where(st.g, v[1][0]))
                if not B.and_(st.g, live):
                    yield st, 0, None
                    return
                yield st, live, v[2][1][0]
            raise Unsupported("unbounded collection")

        def collect(I, st, inst, args, site):
            # a map from an iterator of pairs
            tm = inst["body"]["locals"][0]
            n = len(I.T[I.T[tm]["args"][0]]["v"])
            m = ("a", (maps.some(U, 0),) * n)
            end = None
            for end, some, x in items(I, st, inst["args"][-1], args[0], site, n + 1):
                if some:
                    kk, x = natives.strip(x)[1]
                    if kk[0] == "p":
                        kk = rt.deref(I, end, kk)
                    m = ("a", tuple(merge(B.and_(some, eqc(kk[1], i)), maps.some(x), s) for i, s in enumerate(m[1])))
            return (end, m) if end is not None else (None, None)
        self.reg(r"<std::collections::BTreeMap<telda2::aalv::obj::SegmentType, .*> as std::iter::FromIterator<.*>>::from_iter::<.*>", collect)

        def extended(I, st, tit, it, site, v):
            v = rt.as_vec(v)
            n, (_, ety, _, term) = v[1][0][1], v[1][1]
            end = None
            for end, some, x in items(I, st, tit, it, site, 12):
                if some:
                    term = ("st", term, n, x)
                    n = bdd.add(n, zext((some,), 64))[0]
                    n = rt.narrow(end.g, n)
            return end, ("a", (("b", n), ("A", ety, None, term)))

        def from_iter(I, st, inst, args, site):
            tv = inst["body"]["locals"][0]
            st, v = extended(I, st, inst["args"][-1], args[0], site, rt.vec_empty(I, I.T[tv]["args"][0]))
            return (st, v) if st is not None else (None, None)
        L = r"<std::vec::Vec<\(std::string::String, telda2::aalv::obj::Object\)> as "
        self.reg(L + r"std::iter::FromIterator<.*>>::from_iter::<.*>", from_iter)

        def extend(I, st, inst, args, site):
            end, v = extended(I, st, inst["args"][-1], args[1], site, rt.deref(I, st, args[0]))
            if end is None:
                return None, None
            rt.upd(I, end, args[0], lambda x: v)
            return end, UNIT
        self.reg(L + r"std::iter::Extend<.*>>::extend::<.*>", extend)
        # (how many items an iterator announces only matters for capacities)
        self.reg(r"<.* as std::iter::Iterator>::size_hint", lambda I, st, inst, args, site: (st, ("a", (bv(0, 64), ("e", (0,), ((), (bv(0, 64),)))))))

        # ---- the output file
        self.fault = {}

        def fault(what, st):
            if what not in self.fault:
                self.fault[what] = self.flag(f"{what} fails")
            return rt.where(st.g, self.fault[what])

        def is_out(st, p):
            x = p
            while x[0] == "p":
                x = rt.deref(I, st, x)
            ok = 0
            for g, a in x[1] if x[0] == "o" else ():
                if a == atom("output")[1][0][1]:
                    ok = B.or_(ok, B.and_(g, self.out_given))
                if a == atom("default output")[1][0][1]:
                    ok = B.or_(ok, B.and_(g, B.not_(self.out_given)))
            return ok

        def create(I, st, inst, args, site):
            bad = fault("create", st)
            self.log.append(("create", st.g, is_out(st, args[0]), [site]))
            return st, rt.result(bad, atom("output file"), self.w.E.any("kind"))
        self.reg(r"std::fs::File::create::<.*>", create, True)

        def header(I, st, inst, args, site):
            bad = fault("header", st)
            self.log.append(("header", st.g, 1, [site]))
            return st, rt.result(bad, UNIT, self.w.E.any("kind"))
        self.reg(r"<std::fs::File as std::io::Write>::write_(fmt|all)", header, True)
        self.pos = fresh("header length", 64)
        self.reg(r"<std::fs::File as std::io::Seek>::stream_position",
                 lambda I, st, inst, args, site: (st, rt.result(fault("position", st), ("b", self.pos), self.w.E.any("kind"))))
        self.reg(r"std::ptr::drop_glue::<std::fs::File>", lambda I, st, inst, args, site: (st, UNIT))

        def write(I, st, inst, args, site):
            bad = fault("write", st)
            self.writes.append((st.g, rt.deref(I, st, args[0]), is_out(st, args[1]), [site], st.fork(st.g)))
            return st, rt.result(bad, UNIT, self.w.E.any("kind"))
        self.reg(r"telda2::aalv::obj::Object::write_to_file::<.*>", write, True)
        self.reg(r"std::fs::metadata::<.*>", lambda I, st, inst, args, site: (st, rt.result(fault("metadata", st), atom("metadata"), self.w.E.any("kind"))))
        self.reg(r"std::fs::Metadata::permissions", lambda I, st, inst, args, site: (st, ("a", (("b", self.mode),))))
        self.mode = fresh("mode", 32)
        self.reg(r"<std::fs::Permissions as std::os::unix::fs::PermissionsExt>::mode", lambda I, st, inst, args, site: (st, natives.strip(rt.deref(I, st, args[0]))[1][0]))

        def set_mode(I, st, inst, args, site):
            rt.upd(I, st, args[0], lambda x: ("a", (args[1],)))
            return st, UNIT
        self.reg(r"<std::fs::Permissions as std::os::unix::fs::PermissionsExt>::set_mode", set_mode)

        def set_perm(I, st, inst, args, site):
            bad = fault("permissions", st)
            m = natives.strip(args[1])[1][0][1]
            want = tuple(1 if 0o111 >> i & 1 else b for i, b in enumerate(self.mode))
            self.log.append(("mode", st.g, B.and_(is_out(st, args[0]), eq(m, want)), [site]))
            return st, rt.result(bad, UNIT, self.w.E.any("kind"))
        self.reg(r"std::fs::set_permissions::<.*>", set_perm)

    # ---- specification
    def spec(self):
        """What linking gives (decided where self.care)."""
        K, c = len(self.kinds), self.care
        objs = self.objs
        W_ = 20
        ordk = sorted(range(K), key=lambda j: self.order.index(self.sv.index(self.kinds[j])))
        s = dict(start={}, have={}, total={}, base={})
        last = const(0x80, W_)      # the pages of the I/O area stay free
        over = 0
        mask = bdd.sub(zext(self.al, W_), const(1, W_))[0]
        for j in ordk:
            have, total = 0, const(0, W_)
            for k, o in enumerate(objs):
                g = o["segs"][j]
                have = B.or_(have, g["have"])
                s["base"][k, j] = total
                total = bdd.add(total, tuple(B.and_(g["have"], b) for b in zext(g["n"], W_)))[0]
                total = rt.narrow(c, total)
            up = bdd.add(last, mask)[0]
            start = rt.narrow(c, tuple(B.and_(x, B.not_(m)) for x, m in zip(up, mask)))
            end = rt.narrow(c, bdd.add(start, total)[0])
            over = B.or_(over, B.and_(have, bdd.ult(const(0xffff, W_), end)))
            last = vite(have, end, last)
            s["start"][j], s["have"][j], s["total"][j] = start, have, total
        s["over"] = over
        # addresses
        s["addr"] = {}
        for k, o in enumerate(objs):
            for i, y in enumerate(o["syms"]):
                a = const(0, W_)
                for j in range(K):
                    h = B.and_(eqc(y["seg"], j), s["have"][j])
                    a = vite(h, self.at(s, k, j, zext(y["off"], W_)), a)
                s["addr"][k, i] = a
        # definitions of the global names
        s["def"], s["names"] = {}, {}
        dup = 0
        for n in range(self.NAMES):
            d, m = 0, 0
            for k, o in enumerate(objs):
                for i, y in enumerate(o["syms"]):
                    is_n = B.and_(y["there"], B.and_(y["glob"], eqc(y["which"], n)))
                    m = B.or_(m, is_n)
                    x = B.and_(is_n, y["defined"])
                    dup = B.or_(dup, B.and_(x, d))
                    d = B.or_(d, x)
            s["def"][n], s["names"][n] = d, m
        s["dup"] = dup
        und, miss = 0, 0
        for k, o in enumerate(objs):
            for r in o["rels"]:
                miss = B.or_(miss, r["missing"])
                for i, y in enumerate(o["syms"]):
                    u = B.and_(r["there"], eqc(r["sym"], i))
                    for n in range(self.NAMES):
                        und = B.or_(und, B.and_(B.and_(u, y["glob"]), B.and_(eqc(y["which"], n), B.not_(s["def"][n]))))
        s["undefined"], s["missing"] = und, miss
        s["entry"] = B.or_(self.se, orall(o["ent"] for o in objs))
        noent = B.and_(self.se_hex, self.se_bad)
        for n in range(self.NAMES) if self.set_entry else ():
            noent = B.or_(noent, B.and_(B.and_(B.not_(self.se_hex), eqc(self.se_name, n)), B.not_(s["def"][n])))
        s["bad entry"] = B.and_(self.se, noent)
        bad = self.libs_bad
        for o in objs[:self.nobj]:
            bad = B.or_(bad, o["bad"])
        s["unread"] = bad
        return s

    def at(self, s, k, j, off):
        return bdd.add(bdd.add(s["start"][j], s["base"][k, j])[0], off)[0]

    def check(self, s, c, o, site, st):
        """Compare a written object, where c."""
        F, I, w = self.F, self.I, self.w
        K, objs = len(self.kinds), self.objs
        W_ = 20
        chk = lambda x, what: w.chk(B.and_(c, x), what, site)
        out = maps.slots(get(F, self.to, o, "segs"))
        mems = {}
        for i, nm in enumerate(self.sv):
            if nm not in self.kinds:
                chk(maps.has(out[i]), "a segment is invented")
                continue
            j = self.kinds.index(nm)
            chk(B.xor(maps.has(out[i]), s["have"][j]), "a segment is lost or invented")
            cj = B.and_(c, B.and_(s["have"][j], maps.has(out[i])))
            if not cj:
                continue
            start, mem = maps.val(out[i])[1]
            mems[j] = (cj, mem)
            w.chk(differ(cj, zext(start[1], W_), s["start"][j]), "a segment is not at the next aligned address", site)
            w.chk(differ(cj, zext(rt.vlen(mem), 64)[:W_], s["total"][j]), "a segment is not as long as its parts", site)
        # symbols
        sy = get(F, self.to, o, "symbols")[1][0]
        n = len(objs) * self.nsyms
        want = const(0, 8)
        for m in range(self.NAMES):
            want = bdd.add(want, zext((s["names"][m],), 8))[0]
        for ob in objs:
            for y in ob["syms"]:
                want = bdd.add(want, zext((B.and_(y["there"], B.not_(y["glob"])),), 8))[0]
        w.chk(differ(c, rt.vlen(sy), zext(want, 64)), "a symbol is lost, doubled or invented", site)
        ents = []
        for i in range(n):
            ci = B.and_(c, bdd.ult(const(i, 64), rt.vlen(sy)))
            ents.append((ci, rt.get_where(I, ci, sy, const(i, 64)) if ci else None))
        f = lambda e, x: get(F, self.tsd, e, x)

        def is_symbol(e, ce, k, i):
            """Is the symbol e what symbol i of object k refers to (decided where ce)?"""
            y = objs[k]["syms"][i]
            p = I.as_ptr(st, f(e, "name"))
            named = self.same_name(st, p, y["name"])
            empty = eqc(rt.slice_len(p), 0)
            g = f(e, "is_global")[1][0]
            loc, seg = f(e, "location")[1], f(e, "segment_type")[1]
            isn = B.and_(B.not_(y["glob"]), B.and_(B.not_(g), vite1(self.strip, empty, named)))
            isn = B.and_(isn, B.and_(eq_where(ce, zext(loc, W_), s["addr"][k, i]), eq_where(ce, seg, self.seg_tag(y["seg"]))))
            glo = B.and_(y["glob"], B.and_(g, named))
            right = 0
            for nn in range(self.NAMES):
                cn = B.and_(eqc(y["which"], nn), ce)
                if not cn:
                    continue
                for k2, o2 in enumerate(objs):
                    for i2, y2 in enumerate(o2["syms"]):
                        d = B.and_(B.and_(y2["there"], y2["glob"]), B.and_(eqc(y2["which"], nn), y2["defined"]))
                        x = B.and_(cn, d)
                        if x:
                            right = B.or_(right, B.and_(x, B.and_(eq_where(x, zext(loc, W_), s["addr"][k2, i2]), eq_where(x, seg, self.seg_tag(y2["seg"])))))
                x = B.and_(cn, B.not_(s["def"][nn]))
                right = B.or_(right, B.and_(x, eqc(seg, self.sv.index("Unknown"))))
            return B.or_(isn, B.and_(glo, right))

        same = {}
        for k, ob in enumerate(objs):
            for i, y in enumerate(ob["syms"]):
                cy = B.and_(c, y["there"])
                found = 0
                for z, (ci, e) in enumerate(ents):
                    ce = B.and_(cy, ci)
                    same[z, k, i] = B.and_(ce, is_symbol(e, ce, k, i)) if ce else 0
                    found = B.or_(found, same[z, k, i])
                w.chk(B.and_(cy, B.not_(found)), "a symbol of an object has not its linked address, segment, name and visibility", site)
        # relocations
        rl = get(F, self.to, o, "relocation_table")[1][0]
        cnt = const(0, 8)
        for ob in objs:
            for r in ob["rels"]:
                cnt = bdd.add(cnt, zext((r["there"],), 8))[0]
        w.chk(differ(c, rt.vlen(rl), zext(cnt, 64)), "a relocation is lost, doubled or invented", site)
        outs = []
        for q in range(len(objs) * self.nrel):
            cq = B.and_(c, bdd.ult(const(q, 64), rt.vlen(rl)))
            if cq:
                outs.append((cq, rt.get_where(I, cq, rl, const(q, 64))))
        h = lambda e, x: get(F, self.tre, e, x)
        patched = {}
        for k, ob in enumerate(objs):
            for r in ob["rels"]:
                cr = B.and_(c, r["there"])
                if not cr:
                    continue
                place = const(0, W_)
                for j in range(K):
                    place = vite(eqc(r["seg"], j), self.at(s, k, j, zext(r["off"], W_)), place)
                found = 0
                for cq, e in outs:
                    cc = B.and_(cr, cq)
                    if not cc:
                        continue
                    m = B.and_(eq_where(cc, h(e, "reference_segment")[1], self.seg_tag(r["seg"])), eq_where(cc, zext(h(e, "reference_location")[1], W_), place))
                    cc = B.and_(cc, m)
                    if not cc:
                        continue
                    idx = rt.narrow(cc, h(e, "symbol_index")[1])
                    for z, (ci, es) in enumerate(ents):
                        cz = B.and_(B.and_(cc, ci), eqc(idx, z))
                        if not cz:
                            continue
                        for i, y in enumerate(ob["syms"]):
                            cs = B.and_(cz, eqc(r["sym"], i))
                            found = B.or_(found, B.and_(cs, same[z, k, i]))
                w.chk(B.and_(cr, B.not_(found)), "a use of a symbol has no relocation to that symbol at its linked place", site)
        # bytes
        if not self.big:
            for j, (cj, mem) in mems.items():
                bad = 0
                for k, ob in enumerate(objs):
                    g = ob["segs"][j]
                    for b in range(self.size):
                        cb = B.and_(cj, B.and_(g["have"], bdd.ult(const(b, 8), zext(g["n"], 8))))
                        if not cb:
                            continue
                        at = rt.narrow(cb, bdd.add(s["base"][k, j], const(b, W_))[0])
                        got = rt.get_where(I, cb, mem, zext(at, 64))[1]
                        used = 0
                        for r in ob["rels"]:
                            for half in range(2):
                                if b - half < 0:
                                    continue
                                u = B.and_(cb, B.and_(r["there"], B.and_(eqc(r["seg"], j), eqc(r["off"], b - half))))
                                used = B.or_(used, u)
                                for i, y in enumerate(ob["syms"]):
                                    cu = B.and_(u, eqc(r["sym"], i))
                                    cl = B.and_(cu, B.not_(y["glob"]))
                                    bad = B.or_(bad, differ(cl, got, s["addr"][k, i][8 * half:8 * half + 8]))
                                    cg = B.and_(cu, y["glob"])
                                    for k2, o2 in enumerate(objs):
                                        for i2, y2 in enumerate(o2["syms"]):
                                            d = B.and_(B.and_(y2["there"], y2["glob"]), B.and_(eq(y2["which"], y["which"]), y2["defined"]))
                                            cx = B.and_(cg, d)
                                            bad = B.or_(bad, differ(cx, got, s["addr"][k2, i2][8 * half:8 * half + 8]))
                        bad = B.or_(bad, differ(B.and_(cb, B.not_(used)), got, g["cells"][b][1]))
                w.chk(bad, "a byte is not what its object had, with the uses of symbols replaced by their addresses", site)
        # the entry point: of the first object that has one
        ent = get(F, self.to, o, "entry")
        chk(B.xor(ent[1][0], s["entry"]), "an entry point is lost or invented")
        before = self.se
        bad = 0
        cs = B.and_(B.and_(c, self.se), ent[1][0])
        if cs:
            seg, loc = natives.strip(ent[2][1][0])[1]
            bad = differ(B.and_(cs, self.se_hex), loc[1], self.se_addr)
            for k, o2 in enumerate(objs):
                for i, y in enumerate(o2["syms"]):
                    d = B.and_(B.and_(y["there"], y["glob"]), B.and_(eq(y["which"], self.se_name), y["defined"]))
                    d = B.and_(B.and_(cs, B.not_(self.se_hex)), d)
                    if d:
                        bad = B.or_(bad, B.or_(differ(d, seg[1], self.seg_tag(y["seg"])), differ(d, zext(loc[1], W_), s["addr"][k, i])))
        for k, ob in enumerate(objs):
            ck = B.and_(B.and_(c, ob["ent"]), B.not_(before))
            before = B.or_(before, ob["ent"])
            ck = B.and_(ck, ent[1][0])
            if not ck:
                continue
            seg, loc = natives.strip(ent[2][1][0])[1]
            bad = B.or_(bad, differ(ck, seg[1], self.seg_tag(ob["eseg"])))
            for j in range(K):
                cj = B.and_(ck, eqc(ob["eseg"], j))
                bad = B.or_(bad, differ(B.and_(cj, s["have"][j]), zext(loc[1], W_), self.at(s, k, j, zext(ob["eoff"], W_))))
        w.chk(bad, "the entry point is not at its linked address", site)
        fo = get(F, self.to, o, "file_offset")[1]
        w.chk(B.or_(differ(B.and_(c, self.exe), fo, self.pos), differ(B.and_(c, B.not_(self.exe)), fo, const(0, 64))),
              "the object does not start after the executable header, or at the start", site)


def eq_where(c, a, b):
    return eq(rt.narrow(c, a), rt.narrow(c, b)) if c else 0


def vite1(c, a, b):
    return vite(c, (a,), (b,))[0]


def link(F, *a, **k):
    T = Tl(F, *a, **k)
    w, I = T.w, T.I
    w.st.g = B.and_(w.st.g, T.care)
    key = T.main_key()
    site = [I.site(key, 0)]
    fs, rv = I.call(w.st, key, [])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    g = fs.g
    s = T.spec()
    refuse = B.or_(s["unread"], B.or_(s["over"], B.or_(s["dup"], s["missing"])))
    refuse = B.or_(refuse, s["bad entry"])
    refuse = B.or_(refuse, B.and_(T.exe, B.or_(s["undefined"], B.not_(s["entry"]))))
    did = 0
    for c, o, right, where, st in T.writes:
        w.chk(B.and_(c, refuse), "an object is written although linking must fail", where)
        w.chk(B.and_(c, B.not_(right)), "another file than the output is written", where)
        w.chk(B.and_(c, did), "the output is written twice", where)
        did = B.or_(did, c)
        cc = B.and_(c, B.not_(refuse))
        if cc:
            T.check(s, cc, o, where, st)
    made, moded, headed = 0, 0, 0
    for what, c, right, where in T.log:
        w.chk(B.and_(c, B.not_(right)), {"create": "another file than the output is created", "mode": "the output is not made executable"}.get(what, what), where)
        w.chk(B.and_(c, refuse), "the output file is touched although linking must fail", where)
        w.chk(B.and_(c, B.not_(T.exe)), "the output is made an executable unasked", where)
        if what == "mode":
            moded = B.or_(moded, c)
        elif what == "header":
            headed = B.or_(headed, c)
        else:
            made = B.or_(made, c)
    fail = refuse
    reach = B.not_(refuse)
    for what in ("create", "header", "position"):
        if what in T.fault:
            x = B.and_(B.and_(reach, T.exe), T.fault[what])
            fail = B.or_(fail, x)
            reach = B.and_(reach, B.not_(x))
    w.chk(B.and_(B.and_(g, reach), B.not_(did)), "nothing is written although linking succeeds", site)
    x = B.and_(reach, T.fault.get("write", 0))
    fail = B.or_(fail, x)
    reach = B.and_(reach, B.not_(x))
    for what in ("metadata", "permissions"):
        if what in T.fault:
            x = B.and_(B.and_(reach, T.exe), T.fault[what])
            fail = B.or_(fail, x)
    ok = B.and_(g, B.not_(fail))
    for x, what in ((moded, "an executable is not made executable"), (headed, "an executable has no header"), (made, "an executable replaces no old file")):
        w.chk(B.and_(B.and_(ok, T.exe), B.not_(x)), what, site)
    code = T.exit_code(rv)
    w.chk(B.and_(g, B.and_(fail, eqc(code, 0))), "the exit status is success although linking failed", site)
    w.chk(B.and_(g, B.and_(B.not_(fail), B.not_(eqc(code, 0)))), "linking fails although nothing is wrong", site)
    w.chk(B.and_(g, B.and_(fail, eqc(fs.mem[PRINTED][1], 0))), "nothing is said about a failure", site)
    return w.out, panics_of(I), I
