"""The debugger: what it does at each command."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import atom, bv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import archsel
import lexer
import linker
import natives
import rt
import strs
from objfile import get, panics_of, differ
from smalltools import Small
from srcproc import val_differs
from tools import first, orall

# what may come next
LOOK, SHOW, ASK, RUN, END, REG, FLAGS, MEM, TRAP = range(9)
STATE = {"phase": 4, "value": 16, "shown": 3, "current": 6, "target": 6, "next": 6, "reads": 2, "good": 2, "byte0": 8, "byte1": 8,
         "commands": 3, "runs": 3, "named": 1, "cpu known": 1, "trap": 8, "loaded": 1}
LONG = 200          # length of a formatted text
WORDS = {"quit": ("q", "quit"), "next": ("n", "next"), "in": ("si", "in", "stepin"), "out": ("so", "out", "stepout")}
# (the 8-bit registers: bits 0-4 of the wide register, half)
WIDE = [f"r{i}" for i in range(11)]
SPECIAL = {"rs": "stack", "rl": "link", "rf": "frame", "rp": "page", "rh": "trap_handler", "rpc": "program_counter"}


class Dbg(Small):
    def __init__(self, F, commands, runs=2, nsyms=2, names=("main", "f"), entry=None):
        super().__init__(F, "tdbg")
        self.commands, self.runs, self.cells = commands, runs, []
        strs.install(self.I)
        linker.str_maps(self)
        self.backwards = 0
        archsel.entries_of_maps(self)
        self.number_maps()
        for k, w in STATE.items():
            self.w.st.mem[("D", k)] = bv(0, w)
        self.names = list(names)
        self.obj(nsyms)
        self.entry = entry
        self.entry_case()
        self.machine()
        self.terminal()

    # ---- ghost state
    def q(self, st, k):
        return rt.narrow(st.g, st.mem[("D", k)][1])

    def put(self, st, k, v, c=1):
        w = STATE[k]
        v = const(v, w) if isinstance(v, int) else v
        st.mem[("D", k)] = ("b", vite(c, v, st.mem[("D", k)][1]))

    def up(self, st, k, c=1):
        x = self.q(st, k)
        self.put(st, k, bdd.add(x, const(1, len(x)))[0], c)

    def at(self, st, *ps):
        x = self.q(st, "phase")
        return orall(eqc(x, p) for p in ps)

    def must(self, st, c, what, site):
        self.w.chk(B.and_(st.g, B.not_(c)), what, [site])

    # ---- maps by number
    def number_maps(self):
        I, ents, n = self.I, [], [0]
        H = r"(?:std|alloc)::collections::HashMap::<u16, .*>::"

        def new(I, st, inst, args, site):
            return st, ("a", (bv(77, 8),))

        def key(st, k):
            while k[0] == "p":
                k = rt.deref(I, st, k)
            return k[1]

        def find(st, k):
            hit, ts = 0, []
            for g, key_, cell in ents:
                c = B.and_(B.and_(st.g, g), B.and_(eq(key_, k), B.not_(hit)))
                if c:
                    ts.append((c, (cell, ())))
                    hit = B.or_(hit, c)
            return rt.where(st.g, hit), ("p", tuple(ts), None)

        def add(st, k, v, miss):
            cell = ("S", f"number map cell {n[0]}")
            n[0] += 1
            st.mem[cell] = v
            if miss:
                ents.append((miss, k, cell))
            return cell

        def read(st, p):
            r = None
            for g, (cell, _) in p[1]:
                r = st.mem[cell] if r is None else merge(g, st.mem[cell], r)
            return r

        def insert(I, st, inst, args, site):
            k = key(st, args[1])
            hit, p = find(st, k)
            old = read(st, p) if p[1] else U
            for g, (cell, _) in p[1]:
                st.mem[cell] = merge(g, args[2], st.mem[cell])
            add(st, k, args[2], B.and_(st.g, B.not_(hit)))
            return st, ("e", (hit,), ((), (old,)))

        def get_(I, st, inst, args, site):
            hit, p = find(st, key(st, args[1]))
            return st, ("e", (hit,), ((), (p if p[1] else U,)))

        def or_insert(I, st, inst, args, site):
            k = natives.strip(args[0])[1][1][1]
            hit, p = find(st, k)
            cell = add(st, k, args[1], B.and_(st.g, B.not_(hit)))
            return st, ("p", tuple(p[1]) + ((B.not_(hit), (cell, ())),), None)
        E = r"std::collections::hash_map::Entry::<(?:'_, )?u16, .*>::"
        self.reg(H + "(new|with_capacity)", new)
        self.reg(H + "insert", insert)
        self.reg(H + "get::<.*>", get_)
        self.reg(H + "contains_key::<.*>", lambda I, st, inst, args, site: (st, ("b", (find(st, key(st, args[1]))[0],))))
        self.reg(H + "entry", lambda I, st, inst, args, site: (st, ("a", (args[0], ("b", key(st, args[1]))))))
        self.reg(E + "or_insert", or_insert)

        def drop_none(I, st, inst, args, site):
            return st, UNIT
        self.reg(r"std::ptr::drop_glue::<(std::collections::HashMap<.*>|std::option::Option<std::boxed::Box<str>>|std::string::String|std::option::Option<std::string::String>|"
                 r"std::boxed::Box<str>|telda2::.*|std::result::Result<.*>|std::vec::.*)>", drop_none)

        def clone(I, st, inst, args, site):
            return st, rt.deref(I, st, args[0])
        self.reg(r"<std::boxed::Box<str> as std::clone::Clone>::clone", clone)

    def same_name(self, st, a, b):
        x, y = strs.Text(self.I, st, a), strs.Text(self.I, st, b)
        r = eq(x.n, y.n)
        for i in range(min(x.m, y.m)):
            r = B.and_(r, B.or_(B.not_(x.inside(i)), eq(x.b[i], y.b[i])))
        return r

    # ---- the object
    def literal(self, s):
        o = ("S", f"text {s}")
        if o not in self.w.st.mem:
            self.w.st.mem[o] = lexer.Line(self.I, list(s.encode())).value[1][1]
        return o, len(s)

    def obj(self, nsyms):
        F = self.F
        o = self.object("object", nsyms)
        for i, y in enumerate(o["syms"]):
            s = first(f"name of symbol {i}", clog2(len(self.names)) or 1)
            self.need(below_(s, len(self.names)))
            y["which"] = s
            ts, n = [], None
            for j, x in enumerate(self.names):
                ob, ln = self.literal(x)
                ts.append((eqc(s, j), (ob, (("s", const(0, 64)),))))
                n = const(ln, 64) if n is None else vite(eqc(s, j), const(ln, 64), n)
            y["name"] = ("p", tuple(ts), ("b", n))
        symv = [self.struct(self.tsd, name=self.box(y["name"]), is_global=("b", (y["glob"],)), location=("b", y["loc"]),
                            segment_type=("e", y["seg"], ((),) * len(self.sv))) for y in o["syms"]]
        i = [f[0] for f in F.tys[self.to]["v"][0]["f"]].index("symbols")
        fs = list(o["v"][1])
        fs[i] = ("a", (self.vec(o["ns"], self.tsd, symv),))
        o["v"] = ("a", tuple(fs))
        self.o = o
        self.reads_objects([o])

    def label(self, c, pc):
        """(is there a symbol at a place, the number of its name): a global one before local ones, of global ones the last, of local ones the first"""
        r, g, l = (0, const(0, 1)), (0, None), (0, None)
        for y in self.o["syms"]:
            h = B.and_(B.and_(c, y["there"]), eq(y["loc"], pc))
            hg = B.and_(h, y["glob"])
            g = (B.or_(g[0], hg), y["which"] if g[1] is None else vite(hg, y["which"], g[1]))
            hl = B.and_(B.and_(h, B.not_(y["glob"])), B.not_(l[0]))
            l = (B.or_(l[0], hl), y["which"] if l[1] is None else vite(hl, y["which"], l[1]))
        return B.or_(g[0], l[0]), vite(g[0], g[1], l[1])

    def is_name(self, st, p, which):
        r = 0
        for j, x in enumerate(self.names):
            ob, n = self.literal(x)
            r = B.or_(r, B.and_(eqc(which, j), self.same_name(st, p, ("p", ((1, (ob, (("s", const(0, 64)),))),), bv(n, 64)))))
        return r

    def entry_case(self):
        """The entry point asked for: None, ("hex", shape), or ("name", text)."""
        self.entry_fails, self.entry_at, self.entry_set = 0, const(0, 16), 0
        if self.entry is None:
            self.options(input_file=atom("input 0"))
            return
        if self.entry[0] == "hex":
            L = lexer.Line(self.I, list(b"0x") + list(self.entry[1]), "entry ", -30, 1)
            self.need(L.care)
            bs = L.cells[2:]
            if bs:
                self.need(B.not_(B.or_(lexer.is_(bs[0], "+"), lexer.is_(bs[0], "-"))))
            good, v = lexer.number(self.care, bs, 16, 16, 0, 0xffff)
            self.entry_fails, self.entry_set, self.entry_at = B.not_(good), good, v
        else:
            L = lexer.Line(self.I, list(self.entry[1].encode()))
            g, l = [0, const(0, 16)], [0, const(0, 16)]
            twice = 0
            for y in self.o["syms"]:
                h = B.and_(y["there"], eqc(y["which"], self.names.index(self.entry[1]))) if self.entry[1] in self.names else 0
                hg, hl = B.and_(h, y["glob"]), B.and_(B.and_(h, B.not_(y["glob"])), B.not_(l[0]))
                twice = B.or_(twice, B.and_(g[0], hg))
                g = [B.or_(g[0], hg), vite(hg, y["loc"], g[1])]
                l = [B.or_(l[0], hl), vite(hl, y["loc"], l[1])]
            self.need(B.not_(twice))        # (global symbols are unique)
            self.entry_set, self.entry_at = B.or_(g[0], l[0]), vite(g[0], g[1], l[1])
            self.need(self.entry_set)       # (left open: an unknown symbol)
        self.options(input_file=atom("input 0"), entry=("e", (1,), ((), (L.value,))))

    # ---- the machine
    def machine(self):
        F, I = self.F, self.I
        ts = [i for i, t in enumerate(F.tys) if t.get("def") == "telda2::machine::Machine"]
        if len(ts) != 1:
            raise MissingAnchor("the debugger's machine")
        fs_ = F.tys[ts[0]]["v"][0]["f"]
        if not {"cpu", "memory"} <= {f[0] for f in fs_}:
            raise MissingAnchor("machine")
        self.ci = [f[0] for f in fs_].index("cpu")
        self.tcpu = tcpu = fs_[self.ci][1]
        self.cf = [f[0] for f in F.tys[tcpu]["v"][0]["f"]]
        CPU = ("D", "cpu")
        cpu0 = I.fresh(tcpu, "cpu")
        self.w.st.mem[CPU] = cpu0
        nothing = lambda I, st, inst, args, site: (st, atom("new"))
        self.reg(r"telda2::mem::LazyMain::<.*>::new|telda2::blf4::Blf4::new", nothing, True)
        self.reg(r"std::ptr::drop_glue::<(telda2::machine::Machine|telda2::mem::LazyMain|telda2::blf4::Blf4).*>", lambda I, st, inst, args, site: (st, UNIT))

        def new(I, st, inst, args, site):
            self.put(st, "phase", LOOK)
            return st, ("a", tuple(cpu0 if f[0] == "cpu" else atom(f[0]) for f in fs_))
        self.reg(r"telda2::machine::Machine::<.*>::new", new, True)

        def cpu_of(st, p):
            m = rt.deref(I, st, p)
            while m[0] == "p":
                m = rt.deref(I, st, m)
            return m[1][self.ci]

        def havoc(st, p, what):
            new = I.fresh(tcpu, what)
            rt.upd(I, st, p, lambda m: ("a", tuple(new if i == self.ci else x for i, x in enumerate(natives.strip(m)[1]))))
            st.mem[CPU] = merge(st.g, new, st.mem[CPU]) if st.g != 1 else new
            return new

        def load(I, st, inst, args, site):
            x = rt.deref(I, st, args[1])
            bad = 0
            for f in F.tys[self.to]["v"][0]["f"]:
                if f[0] not in ("symbols", "relocation_table"):
                    bad = B.or_(bad, val_differs(st.g, get(F, self.to, x, f[0]), get(F, self.to, self.o["v"], f[0])))
            self.w.chk(bad, "what is loaded is not the object in the file", [site])
            self.must(st, B.not_(self.q(st, "loaded")[0]), "the program is loaded twice", site)
            self.put(st, "loaded", 1)
            new = havoc(st, args[0], "cpu of the program")
            # (where the debugger is asked to begin)
            pc = get(F, tcpu, new, "program_counter")[1]
            st.mem[CPU] = self.with_pc(new, vite(self.entry_set, self.entry_at, pc))
            return st, UNIT
        self.reg(r".*::load_user_binary", load)

        def same_cpu(st, p, site):
            have, want = cpu_of(st, p), st.mem[CPU]
            self.w.chk(val_differs(st.g, have, want), "the machine is changed (or is not at the place it should be)", [site])
        self.same_cpu, self.cpu_of = same_cpu, cpu_of

        tdi = [i for i, t in enumerate(F.tys) if t.get("def") == "telda2::disassemble::DisassembledInstruction"][0]
        tnd = [f[1] for f in F.tys[tdi]["v"][0]["f"] if f[0] == "nesting_difference"][0]
        wn = I.width(tnd)
        count = [0]

        def disassemble(I, st, inst, args, site):
            k = count[0]
            count[0] += 1
            self.must(st, self.at(st, LOOK), "an instruction is shown when a command or the program should have had its turn", site)
            self.must(st, self.q(st, "loaded")[0], "the program is not loaded", site)
            self.w.chk(B.and_(st.g, self.entry_fails), "it begins although the place to begin at could not be read", [site])
            same_cpu(st, args[0], site)
            # the names it is given
            a = fresh(f"place asked for {k}", 16)
            ft = inst["args"][-1]
            s2, nm = natives.call_closure(I, st.fork(1), ft, args[1], [("b", a)])
            hit, which = self.label(st.g, a)
            named = natives.strip(nm)
            self.w.chk(B.and_(st.g, B.xor(named[1][0], hit)), "a symbol's name is not known where it is (or one is where there is none)", [site])
            c = B.and_(B.and_(st.g, hit), named[1][0])
            if c:
                s3 = s2.fork(c)
                s3.g = c
                self.w.chk(B.and_(c, B.not_(self.is_name(s3, I.as_ptr(s3, named[2][1][0]), which))), "another name than the symbol's is given", [site])
            bad = self.flag(f"fetch {k} fails")
            up, down = self.flag(f"instruction {k} calls"), self.flag(f"instruction {k} returns")
            down = B.and_(down, B.not_(up))
            nd = lambda w: vite(up, const(1, w), vite(down, const(2 ** w - 1, w), const(0, w)))
            cur = self.q(st, "current")
            shown = eq(cur, self.q(st, "target"))
            self.put(st, "next", bdd.add(cur, vite(bad, const(0, 6), nd(6)))[0])
            self.put(st, "phase", vite(shown, const(SHOW, 4), const(RUN, 4)))
            self.put(st, "named", 0)
            line = self.text()
            v = ("a", tuple(line if f[0] == "annotated_source" else ("b", nd(wn)) if f[0] == "nesting_difference" else I.fresh(f[1], f"instruction {k}.{f[0]}")
                            for f in F.tys[tdi]["v"][0]["f"]))
            tt = F.ty_named("telda2::blf4::TrapMode")
            return st, rt.result(rt.where(st.g, bad), v, I.fresh(tt, f"fetch trap {k}"))
        self.reg(r"telda2::disassemble::disassemble_instruction::<.*>", disassemble, True)

        tt = F.ty_named("telda2::blf4::TrapMode")
        nt = len(F.tys[tt]["v"])
        execs = [0]

        def execute(I, st, inst, args, site):
            k = execs[0]
            execs[0] += 1
            self.must(st, self.at(st, RUN), "the program runs on although no command asks for it", site)
            same_cpu(st, args[0], site)
            tm = zext(first(f"trap {k}", clog2(nt)), clog2(nt))
            self.need_now(st, below_(tm, nt))
            ends = B.or_(self.flag(f"run {k} ends"), eqc(self.q(st, "runs"), self.runs - 1))
            ends = rt.where(st.g, ends)
            self.up(st, "runs")
            havoc(st, args[0], f"cpu after {k}")
            self.put(st, "current", self.q(st, "next"), B.not_(ends))
            self.put(st, "phase", vite(ends, const(TRAP, 4), const(LOOK, 4)))
            self.put(st, "trap", zext(tm, 8))
            return st, rt.result(ends, UNIT, ("e", tm, ((),) * nt))
        self.reg(r"telda2::machine::Machine::<.*>::execute_once", execute, True)

        def context(I, st, inst, args, site):
            c = rt.deref(I, st, args[0])
            self.w.chk(val_differs(st.g, c, st.mem[CPU]), "memory is not read as the program would", [site])
            return st, atom("context")
        self.reg(r"telda2::blf4::Blf4::context", context)
        tb = [0]

        def read(I, st, inst, args, site):
            k = tb[0]
            tb[0] += 1
            n = self.q(st, "reads")
            self.must(st, B.and_(self.at(st, MEM), bdd.ult(n, const(2, 2))), "memory is read without being asked for", site)
            want = bdd.add(self.q(st, "value"), zext(n, 16))[0]
            self.w.chk(differ(B.and_(st.g, self.at(st, MEM)), args[1][1], want), "another place of memory is read than asked for", [site])
            bad = self.flag(f"read {k} fails")
            b = fresh(f"byte {k}", 8)
            good = self.q(st, "good")
            self.put(st, "byte0", b, B.and_(B.not_(bad), eqc(good, 0)))
            self.put(st, "byte1", b, B.and_(B.not_(bad), eqc(good, 1)))
            self.up(st, "good", B.not_(bad))
            self.up(st, "reads")
            return st, rt.result(rt.where(st.g, bad), ("b", b), I.fresh(tt, f"read trap {k}"))
        self.reg(r"telda2::blf4::HandlerContext::<?.*>?::?read|telda2::blf4::HandlerContext::read", read)

    def need_now(self, st, c):
        st.g = B.and_(st.g, c)

    def with_pc(self, cpu, pc):
        cpu = natives.strip(cpu)
        i = self.cf.index("program_counter")
        return ("a", cpu[1][:i] + (("b", pc),) + cpu[1][i + 1:])

    def text(self):
        return ("a", (bv(LONG, 64), ("A", self.I.u8(), None, ("base", "a formatted text"))))

    # ---- the terminal
    def terminal(self):
        F, I = self.F, self.I
        CPU = ("D", "cpu")
        self.reg(r"std::io::(stdin|stdout)", lambda I, st, inst, args, site: (st, atom("terminal")))
        self.reg(r"<&?std::io::(Stdout|StdoutLock.*) as std::io::Write>::flush", lambda I, st, inst, args, site: (st, rt.result(0, UNIT, atom("io error"))))
        self.reg(r"std::ptr::drop_glue::<(std::io::Stdin|std::io::Stdout|std::io::Error).*>", lambda I, st, inst, args, site: (st, UNIT))
        self.reg(r"alloc::fmt::format|std::fmt::format", lambda I, st, inst, args, site: (st, self.text()))
        self.reg(r"<(char|u8|u16|u32|i\d+|usize) as std::string::(SpecToString|ToString)>::(spec_)?to_string", lambda I, st, inst, args, site: (st, self.text()))

        def grown(I, st, inst, args, site):
            rt.upd(I, st, args[0], lambda x: self.text())
            return st, UNIT
        self.reg(r"std::string::String::push(_str)?|<std::string::String as std::ops::AddAssign<&str>>::add_assign", grown)
        lines = []
        for k, alts in enumerate(self.commands):
            ls = [lexer.Line(I, a, f"command {k} ", -30, 1) for a in alts]
            w = clog2(len(ls))
            s = first(f"command {k}", w)
            self.need(below_(s, len(ls)))
            for j, l in enumerate(ls):
                self.need(l.care, eqc(s, j) if w else 1)
            lines.append([(eqc(s, j) if w else 1, l) for j, l in enumerate(ls)])
        self.lines = lines

        def answered(st, site):
            p = lambda *x: B.and_(st.g, self.at(st, *x))
            n = self.q(st, "shown")
            self.w.chk(B.and_(p(REG, FLAGS), eqc(n, 0)), "a register asked for is not shown", [site])
            self.w.chk(B.and_(p(MEM), B.not_(B.and_(eqc(self.q(st, "reads"), 2), eq(n[:2], self.q(st, "good"))))), "the memory asked for is not shown", [site])

        def read_line(I, st, inst, args, site):
            answered(st, site)
            self.must(st, self.at(st, ASK, REG, FLAGS, MEM), "a command is asked for when it is not the time", site)
            # (what comes after a second look at the end of the input does not matter)
            st.g = B.and_(st.g, B.not_(self.at(st, END)))
            if not st.g:
                return None, None
            n = self.q(st, "commands")
            more = bdd.ult(n, const(len(lines), 3))
            val, rows = None, []
            for k, ls in enumerate(lines):
                for c, l in ls:
                    c = B.and_(c, eqc(n, k))
                    if B.and_(st.g, c):
                        rows.append((c, l))
            length = const(0, 64)
            for c, l in rows:
                val = l.value if val is None else merge(c, l.value, val)
                length = vite(c, const(len(l.cells), 64), length)
            if val is not None:
                def put(x):
                    x = rt.as_vec(natives.strip(x))
                    have = rt.narrow(st.g, rt.vlen(x))
                    h = to_int(rt.narrow(B.and_(st.g, more), have))
                    if h == 0:
                        y = val
                    else:
                        def sel(i):
                            j = bdd.sub(i, have)[0]
                            return merge(bdd.ult(i, have), rt.vget(I, x, i), rt.vget(I, val, j))
                        y = ("a", (("b", bdd.add(have, val[1][0][1])[0]), ("A", I.u8(), None, ("fn", sel))))
                    return merge(more, y, x) if more != 1 else y
                rt.upd(I, st, args[1], put)
            self.put(st, "phase", END, B.not_(more))
            self.up(st, "commands", more)
            for c, l in rows:
                c = B.and_(B.and_(st.g, c), more)
                if c:
                    self.command(st, c, l.cells)
            return st, rt.result(0, ("b", length), atom("io error"))
        self.reg(r"std::io::Stdin::read_line", read_line, True)

        def utf8(I, st, inst, args, site):
            p = I.as_ptr(st, args[0])
            n = to_int(rt.narrow(st.g, rt.slice_len(p)))
            # (a text of one byte is one of ASCII)
            bad = rt.slice_get(I, st, p, const(0, 64))[1][7] if n == 1 else self.flag("text is no text")
            return st, rt.result(bad, p, atom("no text"))
        self.reg(r"std::str::from_utf8|core::str::from_utf8", utf8)

        def number(st, v):
            while v[0] == "p":
                v = rt.deref(I, st, v)
            return v[1]

        def numeral(I, st, inst, args, site):
            x = number(st, args[0])
            if len(x) not in (8, 16):
                return st, atom("text")
            x = zext(x, 16)
            n = self.q(st, "shown")
            c = B.and_(st.g, self.at(st, REG))
            self.w.chk(differ(c, x, self.q(st, "value")), "a register is shown with another value", [site])
            m = B.and_(st.g, self.at(st, MEM))
            bad = B.and_(m, B.not_(bdd.ult(n, zext(self.q(st, "good"), 3))))
            for i in (0, 1):
                bad = B.or_(bad, differ(B.and_(m, eqc(n, i)), x, zext(self.q(st, f"byte{i}"), 16)))
            self.w.chk(bad, "memory is shown with another content", [site])
            c = B.or_(c, m)
            self.up(st, "shown", B.and_(c, B.not_(eqc(n, 7))))
            return st, atom("text")
        self.reg(r"core::fmt::rt::Argument::new_(display|lower_hex|upper_hex|debug|octal|binary)::<&*(u8|u16)>", numeral)

        def flags(I, st, inst, args, site):
            v = rt.deref(I, st, args[0])
            while v[0] == "p":
                v = rt.deref(I, st, v)
            c = B.and_(st.g, self.at(st, FLAGS))
            self.w.chk(val_differs(c, v, get(F, self.tcpu, st.mem[CPU], "flags")), "other flags are shown", [site])
            self.up(st, "shown", c)
            return st, atom("text")
        self.reg(r"core::fmt::rt::Argument::new_\w+::<&*telda2::blf4::Blf4Flags>", flags)

        def trap(I, st, inst, args, site):
            v = rt.deref(I, st, args[0])
            while v[0] == "p":
                v = rt.deref(I, st, v)
            c = B.and_(st.g, self.at(st, TRAP))
            if c:
                self.w.chk(differ(c, zext(v[1], 8), self.q(st, "trap")), "another trap is shown than the program ended with", [site])
                self.put(st, "phase", END, c)
            return st, atom("text")
        self.reg(r"core::fmt::rt::Argument::new_\w+::<&*telda2::blf4::TrapMode>", trap)

        def text_shown(I, st, inst, args, site):
            p = args[0]
            while p[2] is None:
                x = rt.deref(I, st, p)
                if rt.is_vec(natives.strip(x)):
                    p = rt.slice_of(I, st, p)
                else:
                    p = I.as_ptr(st, x)
            c = B.and_(st.g, self.at(st, LOOK, SHOW, RUN))
            if not c:
                return st, atom("text")
            n = rt.narrow(c, rt.slice_len(p))
            line = eqc(n, LONG)
            self.w.chk(B.and_(B.and_(c, line), B.not_(self.at(st, SHOW))), "an instruction is shown that is not asked for", [site])
            s = B.and_(B.and_(c, B.not_(line)), self.at(st, SHOW))
            pc = get(F, self.tcpu, st.mem[CPU], "program_counter")[1]
            if s:
                hit, which = self.label(s, pc)
                s3 = st.fork(1)
                s3.g = s
                hit = B.and_(hit, self.is_name(s3, p, which))
                self.w.chk(B.and_(s, B.not_(hit)), "another label than the place's is shown", [site])
                self.put(st, "named", (1,), s)
            l = B.and_(B.and_(c, line), self.at(st, SHOW))
            if l:
                hit, which = self.label(l, pc)
                self.w.chk(B.and_(l, B.xor(hit, self.q(st, "named")[0])), "the label of a place is not shown", [site])
                self.put(st, "phase", ASK, l)
            return st, atom("text")
        self.reg(r"core::fmt::rt::Argument::new_(display|debug)::<&*(std::boxed::Box<str>|str|std::string::String)>", text_shown)

    def command(self, st, c, bs):
        """What a command asks for."""
        left = c
        cpu = natives.strip(st.mem[("D", "cpu")])
        field = lambda n: get(self.F, self.tcpu, cpu, n)[1]
        gprs = field_regs(self, cpu)
        self.put(st, "phase", ASK, c)
        self.put(st, "shown", 0, c)
        for t, x in lexer.trimmed(c, bs):
            t = B.and_(c, t)

            def word(*ws):
                return B.and_(t, orall(lexer.text_is(x, w) for w in ws))
            self.put(st, "phase", END, word(*WORDS["quit"]))
            cur = self.q(st, "current")
            for k, v in (("next", cur), ("in", self.q(st, "next")), ("out", bdd.sub(cur, const(1, 6))[0])):
                w = word(*WORDS[k])
                self.put(st, "target", v, w)
                self.put(st, "phase", RUN, w)
            w = word("flags")
            self.put(st, "phase", FLAGS, w)
            for nm, f in SPECIAL.items():
                self.ask(st, word(nm), field(f))
            for i in range(11):
                self.ask(st, word(f"r{i}"), gprs[i])
            for nm, i in lexer.BYTE_REGS.items():
                m = re.fullmatch(r"r(\d+)([blh])", nm)
                r, part = int(m.group(1)), m.group(2)
                v = gprs[r]
                self.ask(st, word(nm), zext(v[8:] if part == "h" else v[:8], 16))
            if len(x) > 2:
                for ch in "rg":
                    w = B.and_(B.and_(t, lexer.is_(x[0], ch)), lexer.is_(x[1], " "))
                    if not w:
                        continue
                    for u, arg in lexer.trimmed(w, x[2:]):
                        u = B.and_(w, u)
                        good, v = 0, const(0, 16)
                        rows, rest = [], u
                        for pre, radix in (("x", 16), ("o", 8), ("b", 2)):
                            if len(arg) >= 2:
                                h = B.and_(B.and_(rest, lexer.is_(arg[0], "0")), lexer.is_(arg[1], pre))
                                rows.append((h, arg[2:], radix))
                                rest = B.and_(rest, B.not_(h))
                        rows.append((rest, arg, 10))
                        for h, ds, radix in rows:
                            if not h:
                                continue
                            k, val = lexer.number(h, ds, radix, 16, 0, 0xffff)
                            k = B.and_(h, k)
                            if ds:
                                k = B.and_(k, B.not_(lexer.is_(ds[0], "-")))
                            good, v = B.or_(good, k), vite(k, val, v)
                        good = rt.where(u, good) if u else 0
                        good = B.and_(u, good)
                        if ch == "r":
                            self.put(st, "phase", MEM, good)
                            self.put(st, "value", v, good)
                            for z in ("reads", "good"):
                                self.put(st, z, 0, good)
                        else:
                            self.put(st, "phase", LOOK, good)
                            st.mem[("D", "cpu")] = merge(good, self.with_pc(cpu, v), st.mem[("D", "cpu")]) if good != 1 else self.with_pc(cpu, v)

    def ask(self, st, c, v):
        if c:
            self.put(st, "phase", REG, c)
            self.put(st, "value", v, c)


def below_(s, n):
    return bdd.ult(zext(s, len(s) + 1), const(n, len(s) + 1))


def field_regs(D, cpu):
    """Content of r0 to r10."""
    gp = natives.strip(get(D.F, D.tcpu, cpu, "general_purposes"))[1]
    return [const(0, 16)] + [tuple(gp[2 * i][1]) + tuple(gp[2 * i + 1][1]) for i in range(10)]


def debug(F, commands, runs=2, nsyms=0, entry=None):
    T = Dbg(F, commands, runs, nsyms, entry=entry)
    fs, code = T.run()
    if fs is None:
        return T.done()
    g = fs.g
    fail = B.or_(T.failed("reading 0"), T.entry_fails)
    T.w.chk(B.and_(B.and_(g, B.not_(fail)), B.not_(B.or_(T.at(fs, END), 0))), "the debugger ends although it is not asked to", T.site)
    T.status(fs, code, fail)
    return T.done()
