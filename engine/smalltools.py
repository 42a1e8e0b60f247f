"""The smaller command-line tools."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import atom, bv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import maps
import natives
import objfile
import rt
import linker
from linker import below
from objfile import get, panics_of, differ
from tools import Tool, first, orall, PRINTED
from srcproc import val_differs

LOADED = ("S", "what is in the machine")
RAN = ("S", "times run")


class Small(Tool):
    fix = {}
    vec, struct, flag, box, need = linker.Tl.vec, linker.Tl.struct, linker.Tl.flag, linker.Tl.box, linker.Tl.need

    def __init__(self, F, crate):
        super().__init__(F, 0)
        self.crate = crate
        self.care = 1
        self.faults, self.log = {}, []
        self.reg(r"std::path::Path::display", lambda I, st, inst, args, site: (st, atom("text")))
        self.reg(r"std::ptr::drop_glue::<(std::vec::Vec<|std::vec::IntoIter<|\(std::string::String, )?telda2::aalv::obj::.*>", lambda I, st, inst, args, site: (st, UNIT))
        self.reg(r"std::ptr::drop_glue::<std::fs::File>", lambda I, st, inst, args, site: (st, UNIT))
        if not any(t["s"] == "telda2::aalv::obj::Object" for t in F.tys):
            return
        self.to = F.ty_named("telda2::aalv::obj::Object")
        self.tsd = F.ty_named("telda2::aalv::obj::SymbolDefinition")
        self.tre = F.ty_named("telda2::aalv::obj::RelocationEntry")
        ts = F.ty_named("telda2::aalv::obj::SegmentType")
        self.sv = [v["name"] for v in F.tys[ts]["v"]]

    def options(self, **vals):
        """The command line: the given options, all others absent."""
        F, I = self.F, self.I
        t = [i for i, t in enumerate(F.tys) if t.get("def") == f"{self.crate}::Cli"]
        if len(t) != 1:
            raise MissingAnchor(f"command line of {self.crate}")
        out = []
        for f in F.tys[t[0]]["v"][0]["f"]:
            n, ft = f[0], F.tys[f[1]]
            if n in vals:
                out.append(vals.pop(n))
            elif ft["k"] == "bool":
                out.append(("b", (0,)))
            elif ft["s"].startswith("std::option::Option<"):
                out.append(("e", (0,), ((), (U,))))
            else:
                raise Unsupported(f"option {n}")
        if vals:
            raise MissingAnchor(f"options {', '.join(vals)}")
        val = ("a", tuple(out))
        self.reg(rf"<{self.crate}::Cli as clap::Parser>::parse", lambda I, st, inst, args, site: (st, val), True)

    def paths(self, n):
        t = [i for i, t in enumerate(self.F.tys) if t["s"] == "std::path::PathBuf"]
        return self.vec(const(n, 8), t[0], [atom(f"input {k}") for k in range(n)])

    def which(self, st, p):
        """Conditions under which a path is the k-th input."""
        x = p
        while x[0] == "p":
            x = rt.deref(self.I, st, x)
        r = {}
        for g, a in x[1] if x[0] == "o" else ():
            r[a] = B.or_(r.get(a, 0), g)
        return lambda name: r.get(atom(name)[1][0][1], 0)

    def fails(self, what, st):
        if what not in self.faults:
            self.faults[what] = self.flag(f"{what} fails")
        return rt.where(st.g, self.faults[what])

    def failed(self, what):
        return self.faults.get(what, 0)

    def event(self, what, c, site, *x):
        self.log.append((what, c, [site]) + x)

    def bump(self, st, cell, g=None):
        c = st.mem[cell][1]
        n = bdd.add(c, const(1, len(c)))[0]
        st.mem[cell] = ("b", vite(eqc(c, 2 ** len(c) - 1), c, n))

    def object(self, o, nsyms=2, nrel=1, entry=True):
        """An object with some symbols; what is in its other tables does not matter here."""
        F, I = self.F, self.I
        ns = first(f"{o} symbols", clog2(nsyms + 1))
        self.need(below(ns, nsyms + 1))
        syms = []
        for i in range(nsyms):
            l = f"{o}.symbol{i}"
            n = zext(fresh(f"{l} name length", 4), 64)
            w = clog2(len(self.sv))
            seg = first(f"{l} segment", w)
            self.need(below(seg, len(self.sv)))
            syms.append(dict(there=bdd.ult(const(i, 8), zext(ns, 8)), name=("p", ((1, (("S", f"{l} name"), ())),), ("b", n)), len=n,
                             glob=self.flag(f"{l} global"), seg=seg, loc=fresh(f"{l} location", 16)))
        symv = [self.struct(self.tsd, name=self.box(y["name"]), is_global=("b", (y["glob"],)), location=("b", y["loc"]),
                            segment_type=("e", y["seg"], ((),) * len(self.sv))) for y in syms]
        nr = first(f"{o} relocations", clog2(nrel + 1))
        self.need(below(nr, nrel + 1))
        relv = [I.fresh(self.tre, f"{o}.relocation{i}") for i in range(nrel)]
        kw = {f[0]: I.fresh(f[1], f"{o}.{f[0]}") for f in F.tys[self.to]["v"][0]["f"] if f[0] not in ("segs", "symbols", "relocation_table", "entry")}
        ft = {f[0]: f[1] for f in F.tys[self.to]["v"][0]["f"]}
        w = clog2(len(self.sv))
        eseg = first(f"{o} entry segment", w)
        self.need(below(eseg, len(self.sv)))
        ent = self.flag(f"{o} has an entry")
        e = ("e", (ent,), ((), (("a", (("e", eseg, ((),) * len(self.sv)), ("b", fresh(f"{o} entry", 16)))),)))
        v = self.struct(self.to, entry=e, segs=("a", (maps.some(("b", fresh(f"{o} segment", 16)), B.var(f"{o} a segment", 0, 0)),) + (maps.some(U, 0),) * (len(self.sv) - 1)),
                        symbols=("a", (self.vec(ns, self.tsd, symv),)), relocation_table=("a", (self.vec(nr, self.tre, relv),)), **kw)
        return dict(v=v, syms=syms, ent=ent, nr=nr, ns=ns, rels=relv)

    def reads_objects(self, objs):
        """Object::from_file gives the object of the input it is asked for."""
        def from_file(I, st, inst, args, site):
            is_ = self.which(st, args[0])
            v, bad = None, 0
            for k, o in enumerate(objs):
                c = is_(f"input {k}")
                if not B.and_(st.g, c):
                    continue
                f = self.fails(f"reading {k}", st)
                bad = B.or_(bad, B.and_(c, f))
                v = o["v"] if v is None else merge(c, o["v"], v)
                self.event("read", B.and_(st.g, c), site, k)
            if v is None:
                raise Unsupported("input file")
            return st, rt.result(rt.where(st.g, bad), v, self.w.E.any("kind"))
        self.reg(r"telda2::aalv::obj::Object::from_file::<.*>", from_file, True)

    def run(self):
        self.w.st.g = B.and_(self.w.st.g, self.care)
        key = self.main_key()
        self.site = [self.I.site(key, 0)]
        fs, rv = self.I.call(self.w.st, key, [])
        if fs is None:
            self.w.chk(1, "never returns", self.site)
            return None, None
        return fs, self.exit_code(rv)

    def done(self):
        return self.w.out, panics_of(self.I), self.I

    def status(self, fs, code, fail):
        g, chk = fs.g, self.w.chk
        chk(B.and_(g, B.and_(fail, eqc(code, 0))), "the exit status is success although something failed", self.site)
        chk(B.and_(g, B.and_(B.not_(fail), B.not_(eqc(code, 0)))), "the exit status is a failure although nothing failed", self.site)
        chk(B.and_(g, B.and_(fail, eqc(fs.mem[PRINTED][1], 0))), "nothing is said about a failure", self.site)


# ------------------------------------------------------------------ t
def emulate(F, nsyms=2):
    T = Small(F, "t")
    I, chk = T.I, T.w.chk
    o = T.object("object", nsyms)
    T.reads_objects([o])
    raw, tp = T.flag("raw binary"), T.flag("termination point")
    T.options(binary=atom("input 0"), raw_binary=("b", (raw,)), termination_point=("b", (tp,)))
    tm_t = [i for i, t in enumerate(F.tys) if t.get("def") == "telda2::machine::Machine" and "StdIo" in t["s"]]
    if len(tm_t) != 1:
        raise MissingAnchor("the emulator's machine")
    fs_ = F.tys[tm_t[0]]["v"][0]["f"]
    if not {"cpu", "memory"} <= {f[0] for f in fs_}:
        raise MissingAnchor("machine")
    tcpu = [f[1] for f in fs_ if f[0] == "cpu"][0]
    nothing = lambda I, st, inst, args, site: (st, atom("new"))
    T.reg(r"telda2::mem::LazyMain::<.*>::new|telda2::blf4::Blf4::new", nothing, True)
    T.w.st.mem[LOADED] = bv(0, 2)
    T.w.st.mem[RAN] = bv(0, 2)
    cpu0 = I.fresh(tcpu, "cpu")
    T.reg(r"std::ptr::drop_glue::<(telda2::machine::Machine|telda2::mem::LazyMain|telda2::blf4::Blf4).*>", lambda I, st, inst, args, site: (st, UNIT))
    T.reg(r"telda2::machine::Machine::<.*StdIo.*>::new",
          lambda I, st, inst, args, site: (st, ("a", tuple(cpu0 if f[0] == "cpu" else atom(f[0]) for f in fs_))), True)
    text_ = ("a", (("b", zext(fresh("file length", 17), 64)), ("A", I.u8(), None, ("base", "file content"))))

    def open_(I, st, inst, args, site):
        chk(B.and_(st.g, B.not_(T.which(st, args[0])("input 0"))), "another file is opened", [site])
        return st, rt.result(T.fails("opening", st), atom("file"), T.w.E.any("kind"))
    T.reg(r"std::fs::File::open::<.*>", open_, True)

    def read_all(I, st, inst, args, site):
        bad = T.fails("reading", st)
        rt.upd(I, st, args[1], lambda x: text_)
        return st, rt.result(bad, text_[1][0], T.w.E.any("kind"))
    T.reg(r"<std::fs::File as std::io::Read>::read_to_end", read_all)

    def fs_read(I, st, inst, args, site):
        chk(B.and_(st.g, B.not_(T.which(st, args[0])("input 0"))), "another file is opened", [site])
        return st, rt.result(B.or_(T.fails("opening", st), T.fails("reading", st)), text_, T.w.E.any("kind"))
    T.reg(r"std::fs::read::<.*>", fs_read)

    def rom(I, st, inst, args, site):
        p = I.as_ptr(st, args[1])
        i = fresh("any place", 64, 1)
        bad = differ(st.g, rt.slice_len(p), text_[1][0][1])
        x = rt.slice_get(I, st, p, i)
        bad = B.or_(bad, differ(B.and_(st.g, bdd.ult(i, text_[1][0][1])), x[1], rt.vget(I, text_, i)[1]))
        chk(B.or_(bad, B.and_(st.g, B.not_(raw))), "what is put in read-only memory is not the file's content", [site])
        T.bump(st, LOADED)
        return st, args[0]
    T.reg(r"telda2::mem::LazyMain::<.*>::with_rom", rom, True)

    def load(I, st, inst, args, site):
        x = rt.deref(I, st, args[1])
        bad = 0
        for f in F.tys[T.to]["v"][0]["f"]:
            if f[0] not in ("symbols", "relocation_table"):
                bad = B.or_(bad, val_differs(st.g, get(F, T.to, x, f[0]), get(F, T.to, o["v"], f[0])))
        chk(B.or_(bad, B.and_(st.g, raw)), "what is loaded is not the object in the file", [site])
        T.bump(st, LOADED)
        return st, UNIT
    T.reg(r".*::load_user_binary", load, True)
    tt = [i for i, t in enumerate(F.tys) if t.get("def") == "telda2::blf4::TrapMode" or t["s"] == "telda2::blf4::TrapMode"][0]
    names = [v["name"] for v in F.tys[tt]["v"]]
    w = clog2(len(names))
    tm = first("trap", w)
    T.need(below(tm, len(names)))
    pc = fresh("final program counter", 16)

    def run(I, st, inst, args, site):
        chk(B.and_(st.g, B.not_(eqc(st.mem[LOADED][1], 1))), "the machine runs without the program, or with more than it", [site])
        T.bump(st, RAN)

        def halted(m):
            cpu = m[1][[f[0] for f in fs_].index("cpu")]
            cf = F.tys[tcpu]["v"][0]["f"]
            i = [f[0] for f in cf].index("program_counter")
            cpu = natives.strip(cpu)
            c2 = ("a", cpu[1][:i] + (("b", pc),) + cpu[1][i + 1:])
            return ("a", tuple(c2 if f[0] == "cpu" else y for f, y in zip(fs_, m[1])))
        rt.upd(I, st, args[0], halted)
        return st, ("e", tm, ((),) * len(names))
    T.reg(r"telda2::machine::Machine::<.*StdIo.*>::run_until_abort", run, True)

    shown = []

    def hexed(I, st, inst, args, site):
        shown.append(("offset", st.g, rt.deref(I, st, args[0]), site))
        return st, atom("text")
    n1 = T.reg(r"core::fmt::rt::Argument::new_(upper|lower)_hex::<u16>", hexed)

    def named(I, st, inst, args, site):
        shown.append(("name", st.g, I.as_ptr(st, rt.deref(I, st, args[0])), site))
        return st, atom("text")
    n2 = T.reg(r"core::fmt::rt::Argument::new_display::<std::boxed::Box<str>>", named)

    def trap(I, st, inst, args, site):
        v = rt.deref(I, st, args[0])
        while v[0] == "p":
            v = rt.deref(I, st, v)
        chk(differ(st.g, v[1], tm), "another trap than the last is reported", [site])
        return st, atom("text")
    T.reg(r"core::fmt::rt::Argument::new_debug::<&?telda2::blf4::TrapMode>", trap)
    T.reg(r"<&str as std::convert::Into<std::boxed::Box<str>>>::into", lambda I, st, inst, args, site: (st, T.box(I.as_ptr(st, args[0]))))
    T.reg(r"std::ptr::drop_glue::<std::boxed::Box<str>>", lambda I, st, inst, args, site: (st, UNIT))
    fs, code = T.run()
    if fs is None:
        return T.done()
    g = fs.g
    bad = vite(raw, (B.or_(T.failed("opening"), T.failed("reading")),), (B.or_(T.failed("reading 0"), B.not_(o["ent"])),))[0]
    ran = fs.mem[RAN][1]
    chk(B.and_(B.and_(g, bad), B.not_(eqc(ran, 0))), "a program is run although it could not be read or has no entry point", T.site)
    chk(B.and_(B.and_(g, B.not_(bad)), B.not_(eqc(ran, 1))), "the program is not run exactly once", T.site)
    halt = eqc(tm, names.index("Halt"))
    T.status(fs, code, B.or_(bad, B.and_(B.not_(tp), B.not_(halt))))
    # the place where it ended: the nearest symbol with a name at or before it
    ok = B.and_(g, B.and_(tp, B.not_(bad)))
    seen = {"offset": 0, "name": 0}
    best_n, best_d, some = None, pc, 0
    for y in o["syms"]:
        c = B.and_(B.and_(y["there"], B.not_(raw)), B.and_(B.not_(eqc(y["len"], 0)), B.not_(bdd.ult(pc, y["loc"]))))
        d = bdd.sub(pc, y["loc"])[0]
        c = B.and_(c, bdd.ult(d, best_d))
        y["best"] = c
        best_d = vite(c, d, best_d)
        for z in o["syms"]:
            if z is not y and "best" in z:
                z["best"] = B.and_(z["best"], B.not_(c))
        some = B.or_(some, c)
    for what, c, v, where in shown:
        seen[what] = B.or_(seen[what], c)
        if what == "offset":
            chk(differ(c, v[1], best_d), "the termination point is not the distance from the nearest symbol before it", [where])
        else:
            b = 0
            for y in o["syms"]:
                same = orall(h for h, t in v[1] if t == y["name"][1][0][1])
                b = B.or_(b, B.and_(y["best"], B.not_(same)))
            b = B.or_(b, B.and_(B.not_(some), B.not_(eqc(rt.narrow(B.and_(c, B.not_(some)), rt.slice_len(v)), 0))))
            chk(B.and_(c, b), "the termination point is not named after the nearest symbol before it", [where])
    if n1 and n2:
        chk(B.and_(ok, B.not_(B.and_(seen["offset"], seen["name"]))), "the termination point is not shown", T.site)
    return T.done()


# ------------------------------------------------------------------ tstrip
def same_symbols(T, st, c, got, o, i, emptied):
    """Difference of symbol i of what was written from the object's (its name emptied where given)."""
    F, I = T.F, T.I
    y = o["syms"][i]
    e = rt.get_where(I, c, got, const(i, 64))
    bad = 0
    for f, want in (("is_global", (y["glob"],)), ("segment_type", y["seg"]), ("location", y["loc"])):
        bad = B.or_(bad, differ(c, get(F, T.tsd, e, f)[1], want))
    p = I.as_ptr(st, get(F, T.tsd, e, "name"))
    same = orall(h for h, t in p[1] if t == y["name"][1][0][1])
    keep = B.and_(c, B.not_(emptied))
    if keep:
        bad = B.or_(bad, B.and_(keep, B.not_(same)))
        bad = B.or_(bad, differ(keep, rt.slice_len(p), y["len"]))
    gone = B.and_(c, emptied)
    if gone:
        bad = B.or_(bad, B.and_(gone, B.not_(eqc(rt.narrow(gone, rt.slice_len(p)), 0))))
    return bad


def strip(F, nfiles=2, nsyms=2):
    T = Small(F, "tstrip")
    I, chk = T.I, T.w.chk
    objs = [T.object(f"object{k}", nsyms) for k in range(nfiles)]
    T.reads_objects(objs)
    all_, force = T.flag("all"), T.flag("force")
    T.need(all_, force)         # (required by the option)
    T.options(input_files=T.paths(nfiles), all=("b", (all_,)), force=("b", (force,)))
    T.reg(r"<&str as std::convert::Into<std::boxed::Box<str>>>::into", lambda I, st, inst, args, site: (st, T.box(I.as_ptr(st, args[0]))))
    T.reg(r"std::ptr::drop_glue::<std::boxed::Box<str>>", lambda I, st, inst, args, site: (st, UNIT))
    written = [0] * nfiles

    def write(I, st, inst, args, site):
        is_ = T.which(st, args[1])
        x = rt.deref(I, st, args[0])
        bad = B.and_(st.g, B.not_(orall(is_(f"input {k}") for k in range(nfiles))))
        chk(bad, "another file is written", [site])
        f = 0
        for k, o in enumerate(objs):
            c = B.and_(st.g, is_(f"input {k}"))
            if not c:
                continue
            f = B.or_(f, B.and_(c, T.fails(f"writing {k}", st)))
            chk(B.and_(c, written[k]), "a file is written twice", [site])
            written[k] = B.or_(written[k], c)
            chk(B.and_(c, T.failed(f"reading {k}")), "a file that could not be read is overwritten", [site])
            chk(B.and_(c, B.and_(all_, B.and_(B.not_(force), B.not_(o["ent"])))), "all is stripped of an object without entry point unforced", [site])
            bad = 0
            for fld in F.tys[T.to]["v"][0]["f"]:
                if fld[0] not in ("symbols", "relocation_table"):
                    bad = B.or_(bad, val_differs(c, get(F, T.to, x, fld[0]), get(F, T.to, o["v"], fld[0])))
            chk(bad, "stripping changes more than symbols", [site])
            sy = get(F, T.to, x, "symbols")[1][0]
            rl = get(F, T.to, x, "relocation_table")[1][0]
            ca, cn = B.and_(c, all_), B.and_(c, B.not_(all_))
            chk(B.or_(differ(ca, rt.vlen(sy), const(0, 64)), differ(ca, rt.vlen(rl), const(0, 64))), "symbols or relocations are left", [site])
            chk(differ(cn, rt.vlen(sy), zext(o["ns"], 64)), "a symbol is lost", [site])
            bad = differ(cn, rt.vlen(rl), zext(o["nr"], 64))
            for i, q in enumerate(o["rels"]):
                ci = B.and_(cn, bdd.ult(const(i, 8), zext(o["nr"], 8)))
                if ci:
                    bad = B.or_(bad, val_differs(ci, rt.get_where(I, ci, rl, const(i, 64)), q))
            chk(bad, "relocations change", [site])
            bad = 0
            for i, y in enumerate(o["syms"]):
                ci = B.and_(cn, y["there"])
                if ci:
                    bad = B.or_(bad, same_symbols(T, st, ci, sy, o, i, B.not_(y["glob"])))
            chk(bad, "a symbol does not keep all but a local name", [site])
        return st, rt.result(rt.where(st.g, f), UNIT, T.w.E.any("kind"))
    T.reg(r"telda2::aalv::obj::Object::write_to_file::<.*>", write, True)
    fs, code = T.run()
    if fs is None:
        return T.done()
    fail = 0
    for k, o in enumerate(objs):
        f = B.or_(T.failed(f"reading {k}"), B.and_(all_, B.and_(B.not_(force), B.not_(o["ent"]))))
        chk(B.and_(B.and_(fs.g, B.not_(f)), B.not_(written[k])), "a file is not stripped", T.site)
        fail = B.or_(fail, B.or_(f, T.failed(f"writing {k}")))
    T.status(fs, code, fail)
    return T.done()


# ------------------------------------------------------------------ tar
AT = ("S", "parts written")
MAGIC = "álvasavn\n".encode()


def archive(F, nfiles=3):
    T = Small(F, "tar")
    I, chk = T.I, T.w.chk
    T.options(input_files=T.paths(nfiles), output_file=atom("output"))
    W_ = clog2(nfiles + 3)
    T.w.st.mem[AT] = bv(0, W_)
    text_ = [("a", (("b", zext(fresh(f"file {k} length", 16, 1), 64)), ("A", I.u8(), None, ("base", f"content of {k}")))) for k in range(nfiles)]

    def step(st, c, n, what, site):
        """Part n of the output is written: everything before it must have been."""
        chk(B.and_(c, B.not_(eqc(st.mem[AT][1], n))), what, [site])

    def bump(st, bad):
        at = st.mem[AT][1]
        st.mem[AT] = ("b", vite(bad, at, bdd.add(at, const(1, W_))[0]))

    def create(I, st, inst, args, site):
        bad = T.fails("creating", st)
        chk(B.and_(st.g, B.not_(T.which(st, args[0])("output"))), "another file is created", [site])
        step(st, st.g, 0, "the archive is created late or twice", site)
        bump(st, bad)
        return st, rt.result(bad, atom("archive"), T.w.E.any("kind"))
    T.reg(r"std::fs::File::create::<.*>", create, True)

    def open_(I, st, inst, args, site):
        is_ = T.which(st, args[0])
        v, bad = None, 0
        for k in range(nfiles):
            c = B.and_(st.g, is_(f"input {k}"))
            if not c:
                continue
            bad = B.or_(bad, B.and_(c, T.fails(f"opening {k}", st)))
            v = atom(f"file {k}") if v is None else merge(c, atom(f"file {k}"), v)
        if v is None:
            raise Unsupported("input file")
        return st, rt.result(rt.where(st.g, bad), v, T.w.E.any("kind"))
    T.reg(r"std::fs::File::open::<.*>", open_)

    def copy(I, st, inst, args, site):
        is_, to = T.which(st, args[0]), T.which(st, args[1])
        chk(B.and_(st.g, B.not_(to("archive"))), "something else than the archive is written", [site])
        bad = 0
        for k in range(nfiles):
            c = B.and_(st.g, is_(f"file {k}"))
            if c:
                bad = B.or_(bad, B.and_(c, T.fails(f"copying {k}", st)))
                step(st, c, k + 2, "a file is not where it belongs in the archive", site)
        bump(st, bad)
        return st, rt.result(rt.where(st.g, bad), bv(0, 64), T.w.E.any("kind"))
    T.reg(r"std::io::copy::<.*>", copy)

    def read_(I, st, inst, args, site):
        is_ = T.which(st, args[0])
        v, bad = None, 0
        for k in range(nfiles):
            c = B.and_(st.g, B.or_(is_(f"file {k}"), is_(f"input {k}")))
            if c:
                bad = B.or_(bad, B.and_(c, T.fails(f"copying {k}", st)))
                v = text_[k] if v is None else merge(c, text_[k], v)
        if v is None:
            raise Unsupported("input file")
        if len(args) == 2:
            rt.upd(I, st, args[1], lambda x: v)
            return st, rt.result(rt.where(st.g, bad), v[1][0], T.w.E.any("kind"))
        return st, rt.result(rt.where(st.g, bad), v, T.w.E.any("kind"))
    T.reg(r"std::fs::read::<.*>|<std::fs::File as std::io::Read>::read_to_end", read_)

    def write(I, st, inst, args, site):
        to = T.which(st, args[0])
        chk(B.and_(st.g, B.not_(to("archive"))), "something else than the archive is written", [site])
        p = I.as_ptr(st, args[1])
        at = st.mem[AT][1]
        bad = T.fails("writing", st)
        c = B.and_(st.g, eqc(at, 1))
        if c:
            n = rt.narrow(c, rt.slice_len(p))
            wrong = B.and_(c, B.not_(eqc(n, len(MAGIC))))
            for i, b in enumerate(MAGIC):
                ci = B.and_(c, eqc(n, len(MAGIC)))
                if ci:
                    wrong = B.or_(wrong, differ(ci, rt.slice_get(I, st, p, const(i, 64))[1], const(b, 8)))
            chk(wrong, "an archive does not start with its magic number", [site])
        for k in range(nfiles):
            c = B.and_(st.g, eqc(at, k + 2))
            if not c:
                continue
            i = fresh("any place", 64, 1)
            wrong = differ(c, rt.slice_len(p), text_[k][1][0][1])
            wrong = B.or_(wrong, differ(B.and_(c, bdd.ult(i, text_[k][1][0][1])), rt.slice_get(I, st, p, i)[1], rt.vget(I, text_[k], i)[1]))
            chk(wrong, "a file is not where it belongs in the archive", [site])
        chk(B.and_(st.g, B.or_(eqc(at, 0), B.not_(bdd.ult(at, const(nfiles + 2, W_))))), "more than the files is written", [site])
        bump(st, bad)
        return st, rt.result(bad, UNIT, T.w.E.any("kind"))
    T.reg(r"<std::fs::File as std::io::Write>::write_all", write, True)
    T.reg(r"std::fs::File::sync_(all|data)|<std::fs::File as std::io::Write>::flush", lambda I, st, inst, args, site: (st, rt.result(T.fails("syncing", st), UNIT, T.w.E.any("kind"))))
    fs, code = T.run()
    if fs is None:
        return T.done()
    fail = 0
    for f in T.faults.values():
        fail = B.or_(fail, f)
    chk(B.and_(fs.g, B.and_(B.not_(fail), B.not_(eqc(fs.mem[AT][1], nfiles + 2)))), "a file is missing in the archive", T.site)
    T.status(fs, code, fail)
    return T.done()


# ------------------------------------------------------------------ reading archives
POS = ("S", "position in the archive")
NOW = ("S", "objects begun")


def unarchive(F, crate, nobj=3):
    """read_archive, and next until it ends, over an archive of up to nobj objects."""
    T = Small(F, crate)
    I, chk = T.I, T.w.chk
    one = lambda rx, what: ([k for k, i in F.insts.items() if re.fullmatch(rx, i["nm"]) and i.get("body")] or [None])[0]
    ra = one(r"telda2::aalv::(savn::)?read_archive::<.*>", "read_archive")
    nx = one(r"telda2::aalv::(savn::)?Iter::next::<telda2::aalv::obj::Object, .*>", "next")
    if ra is None or nx is None:
        raise MissingAnchor("reading of archives")
    W_ = 10
    m = len(MAGIC)
    n = first("objects", clog2(nobj + 1))
    T.need(below(n, nobj + 1))
    size = fresh("file size", W_)
    T.need(bdd.ult(size, const(1000, W_)))
    head = [fresh(f"byte {i}", 8, 2) for i in range(m)]
    # where each object ends: (after the magic, then growing; the last at the end of the file)
    ends = [const(m, W_)] + [fresh(f"end of object {k}", W_) for k in range(nobj)]
    right = 1
    for i, b in enumerate(MAGIC):
        right = B.and_(right, eqc(head[i], b))
    whole = B.not_(bdd.ult(size, const(m, W_)))
    is_archive = B.and_(whole, right)
    for k in range(nobj):
        c = B.and_(is_archive, bdd.ult(const(k, 8), zext(n, 8)))
        T.need(bdd.ult(ends[k], ends[k + 1]), c)
        T.need(eq(ends[k + 1], size), B.and_(c, eqc(n, k + 1)))
    # an archive has at least one object
    T.need(B.not_(eqc(n, 0)), is_archive)
    st = T.w.st
    st.g = T.care
    st.mem[POS] = ("b", const(0, W_))
    st.mem[NOW] = bv(0, 4)
    T.reg(r"std::fs::File::open::<.*>", lambda I, st, inst, args, site: (st, rt.result(T.fails("opening", st), atom("file"), T.w.E.any("kind"))), True)
    T.reg(r"std::io::BufReader::<std::fs::File>::new", lambda I, st, inst, args, site: (st, args[0]), True)
    nread = [0]

    def put(st, sl, i, c, x):
        I.write_targets(st, [(B.and_(g, c), o, I.idx(p, const(i, 64)) if p and not isinstance(p[-1], int) and p[-1][0] == "s" else p + (i,))
                             for g, (o, p) in sl[1]] + [(0, ("N", "x"), ())], ("b", x))

    def read_exact(I, st, inst, args, site):
        p = I.as_ptr(st, args[1])
        k = to_int(rt.slice_len(p))
        pos = st.mem[POS][1]
        if k is None:
            raise Unsupported("read of unknown length")
        nread[0] += 1
        f = T.fails(f"read {nread[0]}", st)
        end = bdd.add(pos, const(k, W_))[0]
        short = rt.where(st.g, B.not_(B.or_(bdd.ult(end, size), eq(end, size))))
        bad = rt.where(st.g, B.or_(short, f))
        if to_int(rt.narrow(st.g, pos)) == 0 and k == m:
            for i in range(m):
                put(st, p, i, B.not_(bad), head[i])
        elif k == 1:
            put(st, p, 0, B.not_(bad), fresh(f"byte read {nread[0]}", 8, 2))
        else:
            raise Unsupported("read")
        st.mem[POS] = ("b", vite(bad, pos, end))
        E = T.w.E
        return st, rt.result(bad, UNIT, merge(B.and_(short, B.not_(f)), E.err("UnexpectedEof"), E.any("kind")))
    T.reg(r"<std::io::BufReader<std::fs::File> as std::io::Read>::read_exact", read_exact, True)

    def back(I, st, inst, args, site):
        if len(args[1][1]) != 64:
            raise Unsupported("seek")
        st.mem[POS] = ("b", bdd.add(st.mem[POS][1], args[1][1][:W_])[0])
        return st, rt.result(T.fails("seeking", st), UNIT, T.w.E.any("kind"))
    T.reg(r"std::io::BufReader::<std::fs::File>::seek_relative", back)

    def begin(I, st, inst, args, site):
        now = st.mem[NOW][1]
        bad, f = 0, 0
        for k in range(nobj):
            c = B.and_(st.g, B.and_(eqc(now, k), bdd.ult(const(k, 8), zext(n, 8))))
            bad = B.or_(bad, differ(c, st.mem[POS][1], ends[k]))
            f = B.or_(f, B.and_(c, T.fails(f"opening object {k}", st)))
        over = B.and_(st.g, B.not_(bdd.ult(now, zext(n, 4))))
        chk(bad, "an object is not read from where it starts", [site])
        chk(over, "more objects are read than there are", [site])
        f = rt.where(st.g, B.or_(f, over))
        return st, rt.result(f, args[0], T.w.E.any("kind"))
    T.reg(r"telda2::aalv::AalvReader::<std::io::BufReader<std::fs::File>>::new", begin, True)
    fresh_obj = [atom(f"object {k}") for k in range(nobj)]

    def load(I, st, inst, args, site):
        now = st.mem[NOW][1]
        v, f = fresh_obj[nobj - 1], 0
        for k in range(nobj):
            c = eqc(now, k)
            v = merge(c, fresh_obj[k], v)
            f = B.or_(f, B.and_(c, T.fails(f"loading object {k}", st)))
        return st, rt.result(rt.where(st.g, f), v, T.w.E.any("kind"))
    T.reg(r"telda2::aalv::obj::Object::from_aalv_reader::<.*>", load)

    def end(I, st, inst, args, site):
        now = st.mem[NOW][1]
        pos, f = st.mem[POS][1], 0
        for k in range(nobj):
            c = eqc(now, k)
            pos = vite(c, ends[k + 1], pos)
            f = B.or_(f, B.and_(c, T.fails(f"ending object {k}", st)))
        st.mem[POS] = ("b", pos)
        st.mem[NOW] = ("b", bdd.add(now, const(1, 4))[0])
        return st, rt.result(rt.where(st.g, f), args[0], T.w.E.any("kind"))
    T.reg(r"telda2::aalv::AalvReader::<std::io::BufReader<std::fs::File>>::end", end, True)
    T.reg(r"std::ptr::drop_glue::<(std::io::BufReader|telda2::aalv::|std::result::Result<telda2::aalv::|std::io::Error|std::io::error).*>", lambda I, st, inst, args, site: (st, UNIT))
    site = [I.site(ra, 0)]
    st, v = I.call(st, ra, [atom("path")])
    if st is None:
        return [("never returns", {}, site)], panics_of(I), I
    bad = B.or_(T.failed("opening"), B.or_(T.failed("read 1"), B.not_(is_archive)))
    chk(B.and_(st.g, B.xor(v[1][0], bad)), "what is (or is not) an archive is not recognised", site)
    ok = B.and_(st.g, B.not_(B.or_(v[1][0], bad)))
    st.g = ok
    cell = ("S", "iterator")
    st.mem[cell] = v[2][0][0]
    site = [I.site(nx, 0)]
    dead = 0
    for k in range(nobj + 1):
        if not st.g:
            break
        before = st.mem[NOW][1]
        nr = nread[0]
        st, r = I.call(st, nx, [rt.P(cell), U])
        if st is None:
            chk(ok, "never returns", site)
            break
        err = r[1][0]
        there = bdd.ult(const(k, 8), zext(n, 8))
        want_err = 0
        for w in ("opening", "loading", "ending"):
            want_err = B.or_(want_err, T.failed(f"{w} object {k}"))
        for q in range(nr + 1, nread[0] + 1):
            want_err = B.or_(want_err, T.failed(f"read {q}"))
        want_err = B.or_(want_err, T.failed("seeking"))
        alive = B.and_(st.g, B.not_(dead))
        c = B.and_(alive, there)
        chk(B.and_(c, B.and_(B.not_(want_err), err)), "an object of an archive cannot be read", site)
        chk(B.and_(c, B.and_(B.and_(want_err, B.not_(T.failed("seeking"))), B.not_(err))), "a failure to read an object is ignored", site)
        some = natives.strip(r[2][0][0]) if r[2][0] else None
        c = B.and_(c, B.not_(err))
        if c and some is not None:
            chk(B.and_(c, B.not_(some[1][0])), "an object of an archive is skipped", site)
            cs = B.and_(c, some[1][0])
            if cs:
                x = some[2][1][0]
                same = orall(g for g, a in x[1] if a == fresh_obj[k][1][0][1]) if x[0] == "o" else 0
                chk(B.and_(cs, B.not_(same)), "the objects of an archive are not read in order", site)
        c = B.and_(alive, B.not_(there))
        chk(B.and_(c, err), "the end of an archive is an error", site)
        c = B.and_(c, B.not_(err))
        if c and some is not None:
            chk(B.and_(c, some[1][0]), "an archive does not end", site)
        dead = B.or_(dead, B.or_(want_err, err))
    return T.done()


# ------------------------------------------------------------------ tobjdump
NAMED, PLACED, SEGGED = ("S", "names shown"), ("S", "locations shown"), ("S", "segments shown")


def dump(F, nfiles=2, nobj=1, nsyms=1, dis=False):
    """What tobjdump reports of files that cannot be read, and of which objects it shows what.
    Each file may be an archive of up to nobj objects."""
    T = Small(F, "tobjdump")
    I, chk = T.I, T.w.chk
    dis = T.flag("disassemble") if dis else 0
    show, rel = T.flag("show symbols"), T.flag("show relocations")
    objs, files = [], []
    for k in range(nfiles):
        os_ = [T.object(f"object{k}.{j}" if j else f"object{k}", nsyms, 0) for j in range(nobj)]
        ar = T.flag(f"file {k} is an archive")
        n = first(f"objects in file {k}", clog2(nobj + 1))
        T.need(below(n, nobj + 1))
        files.append(dict(objs=os_, ar=ar, n=n))
    i_off = objfile.fields(F, T.to).index("file_offset") if hasattr(objfile, "fields") else None
    for k, f in enumerate(files):
        for j, o in enumerate(f["objs"]):
            # (an object is recognised by the place it was read from)
            v = o["v"]
            o["id"] = k * nobj + j
            o["v"] = ("a", v[1][:i_off] + (bv(o["id"], 64),) + v[1][i_off + 1:])
            objs.append((k, j, o))
    T.reads_objects([f["objs"][0] for f in files])
    T.options(input_files=T.paths(nfiles), disassemble=("b", (dis,)), show_symbols=("b", (show,)), show_relocations=("b", (rel,)))

    def read_archive(I, st, inst, args, site):
        is_ = T.which(st, args[0])
        v, bad = None, 0
        for k, f in enumerate(files):
            c = B.and_(st.g, is_(f"input {k}"))
            if not c:
                continue
            bad = B.or_(bad, B.and_(c, B.not_(f["ar"])))
            x = ("a", (bv(k, 8), bv(0, 8)))
            v = x if v is None else merge(c, x, v)
        return st, rt.result(rt.where(st.g, bad), v, T.w.E.any("kind"))
    T.reg(r"telda2::aalv::(savn::)?read_archive::<.*>", read_archive, True)

    def next_(I, st, inst, args, site):
        it = rt.deref(I, st, args[0])
        k_, j_ = it[1][0][1], it[1][1][1]
        v, some, bad = objs[0][2]["v"], 0, 0
        for k, j, o in objs:
            c = B.and_(st.g, B.and_(eqc(k_, k), eqc(j_, j)))
            there = B.and_(c, bdd.ult(const(j, 8), zext(files[k]["n"], 8)))
            if there:
                v = merge(c, o["v"], v)
                some = B.or_(some, there)
                bad = B.or_(bad, B.and_(there, T.fails(f"reading object {j} of {k}", st)))
        rt.upd(I, st, args[0], lambda x: ("a", (it[1][0], ("b", bdd.add(j_, const(1, 8))[0]))))
        return st, rt.result(rt.where(st.g, bad), rt.option(rt.where(st.g, some), v), T.w.E.any("kind"))
    T.reg(r"telda2::aalv::(savn::)?Iter::next::<.*>", next_, True)
    T.reg(r"std::ptr::drop_glue::<(telda2::aalv::|std::result::Result<telda2::aalv::|std::io::Error|std::iter::FlatMap<|std::boxed::Box<str>).*>", lambda I, st, inst, args, site: (st, UNIT))
    T.reg(r"<std::path::PathBuf as std::ops::Deref>::deref", lambda I, st, inst, args, site: (st, args[0]))
    ids = lambda x: get(F, T.to, x, "file_offset")[1][:8]
    shown = {o["id"]: 0 for _, _, o in objs}

    def disassembly(I, st, inst, args, site):
        x = rt.deref(I, st, args[0])
        for _, _, o in objs:
            c = B.and_(st.g, eqc(ids(x), o["id"]))
            chk(B.and_(c, shown[o["id"]]), "an object is disassembled twice", [site])
            shown[o["id"]] = B.or_(shown[o["id"]], c)
        chk(B.and_(st.g, B.not_(dis)), "a disassembly is shown unasked", [site])
        r = [a[1] for a in args if a[0] == "b" and len(a[1]) == 1]
        chk(differ(st.g, r[0], (rel,)) if len(r) == 1 else 0, "relocations are shown unasked, or not as asked", [site])
        return st, UNIT
    ks = [k for k, i in F.insts.items() if i.get("body") and i["nm"].startswith("tobjdump::") and "{" not in i["nm"]
          and i["body"]["argc"] == 3 and F.tys[i["body"]["locals"][1]]["s"] == "&telda2::aalv::obj::Object"]
    if len(ks) != 1:
        raise MissingAnchor("disassembly of tobjdump")
    I.models[F.insts[ks[0]]["nm"]] = disassembly
    # every place in the list of all symbols shown
    T.w.st.mem[NAMED] = T.w.st.mem[PLACED] = T.w.st.mem[SEGGED] = bv(0, 6)
    got = []
    for k, f in enumerate(files):
        one = B.and_(B.not_(f["ar"]), B.not_(T.flag(f"reading {k} fails")))
        ok = B.and_(f["ar"], 1)
        for j, o in enumerate(f["objs"]):
            ok = B.and_(ok, B.or_(B.not_(bdd.ult(const(j, 8), zext(f["n"], 8))), B.not_(T.flag(f"reading object {j} of {k} fails"))))
        f["ok"] = B.or_(one, ok)
        for j, o in enumerate(f["objs"]):
            o["read"] = B.or_(one if j == 0 else 0, B.and_(ok, bdd.ult(const(j, 8), zext(f["n"], 8))))
    at, sat = const(0, 6), const(0, 6)
    unk = T.sv.index("Unknown")
    for k, j, o in objs:
        for y in o["syms"]:
            y["at"], y["sat"] = at, sat
            y["listed"] = B.and_(B.and_(o["read"], show), y["there"])
            at = bdd.add(at, zext((y["listed"],), 6))[0]
            y["defined"] = B.and_(y["listed"], B.not_(eqc(y["seg"], unk)))
            sat = bdd.add(sat, zext((y["defined"],), 6))[0]

    def event(cell, value, what):
        def f(I, st, inst, args, site):
            h = st.mem[cell][1]
            v = args[0]
            bad, any_ = 0, 0
            for k, j, o in objs:
                for y in o["syms"]:
                    c = B.and_(st.g, B.and_(y["defined"] if cell is SEGGED else y["listed"], eq(y["sat" if cell is SEGGED else "at"], h)))
                    if c:
                        any_ = B.or_(any_, c)
                        bad = B.or_(bad, value(st, v, y, c))
            chk(bad, what, [site])
            chk(B.and_(st.g, B.not_(any_)), "more symbols than those asked for are listed", [site])
            st.mem[cell] = ("b", bdd.add(h, const(1, 6))[0])
            return st, atom("text")
        return f

    def deep(st, v, stop):
        while v[0] == "p" and not stop(v):
            v = rt.deref(I, st, v)
        return v

    def name_(st, v, y, c):
        while v[0] == "p" and v[2] is None:
            v = rt.deref(I, st, v)
            if v[0] != "p":
                v = I.as_ptr(st, v)
        return B.and_(c, B.not_(orall(g for g, t in v[1] if t == y["name"][1][0][1])))
    names = T.reg(r"core::fmt::rt::Argument::new_display::<&*std::boxed::Box<str>>", event(NAMED, name_, "another name than the symbol's is listed"))
    hexes = T.reg(r"core::fmt::rt::Argument::new_(lower|upper)_hex::<&*u16>",
                  event(PLACED, lambda st, v, y, c: differ(c, deep(st, v, lambda x: False)[1], y["loc"]), "another place than the symbol's is listed"))
    segn = T.reg(r"core::fmt::rt::Argument::new_display::<&*telda2::aalv::obj::SegmentType>",
                 event(SEGGED, lambda st, v, y, c: differ(c, deep(st, v, lambda x: False)[1], y["seg"]), "another segment than the symbol's is listed"))
    T.reg(r"core::fmt::rt::Argument::from_usize", lambda I, st, inst, args, site: (st, atom("text")))
    fs, code = T.run()
    if fs is None:
        return T.done()
    g = fs.g
    for n, cell, want in ((names, NAMED, at), (hexes, PLACED, at), (segn, SEGGED, sat)):
        if n:
            chk(differ(g, fs.mem[cell][1], want), "a symbol is not listed", T.site)
    for k, j, o in objs:
        chk(B.and_(B.and_(g, dis), B.and_(o["read"], B.not_(shown[o["id"]]))), "an object is not disassembled", T.site)
        chk(B.and_(B.and_(g, B.not_(o["read"])), shown[o["id"]]), "an object is shown although reading its file failed", T.site)
    fail = 0
    for f in files:
        fail = B.or_(fail, B.not_(f["ok"]))
    T.status(fs, code, fail)
    return T.done()
