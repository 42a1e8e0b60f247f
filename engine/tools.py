"""The command-line tools: their main functions with the library's file
operations as unknown partners."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, atom, State, Trace, bv, boolv, UNIT, U, Unsupported, clog2, merge
from facts import MissingAnchor
import asm
import maps
import natives
import objfile
import rt
import text
from objfile import World, get, is_ok, panics_of, W, differ
from srcproc import small_string, val_differs, text_is

FAILED = ("S", "something failed")
NARG = ("S", "arguments taken")
PRINTED = ("S", "messages")


class BinWorld(World):
    """A world without files of its own."""

    def __init__(self, F, unroll=400):
        self.F = F
        self.I = I = Interp(F, unroll=unroll)
        I.strmeta = I.split = True
        text.install(I)
        natives.boxes(I)
        rt.install_vec(I)
        self.E = rt.Errors(I)
        self.st = State(1, {}, Trace())
        self.out = []


class Tool:
    def __init__(self, F, nargs):
        self.F = F
        self.w = BinWorld(F)
        self.I = I = self.w.I
        maps.install(I)
        self.nargs = nargs
        self.st = self.w.st
        self.st.mem[NARG] = bv(0, 4)
        self.st.mem[PRINTED] = bv(0, 4)
        self.n = zext(fresh("arguments", clog2(nargs + 1), 0), 4)
        self.st.g = bdd.ult(self.n, const(nargs + 1, 4))
        self.arg = [small_string(I, f"arg{k}", 2) for k in range(nargs)]
        self.program = small_string(I, "program", 2)
        self.common()

    def reg(self, pat, f, need=False):
        rx = re.compile(pat)
        n = 0
        for i in self.F.insts.values():
            if rx.fullmatch(i["nm"]):
                self.I.models[i["nm"]] = f
                n += 1
        if need and not n:
            raise MissingAnchor(pat)
        return n

    def common(self):
        I = self.I
        self.reg(r"std::env::args", lambda I, st, inst, args, site: (st, atom("arguments")))

        def next_arg(I, st, inst, args, site):
            # (the program's name, then the arguments)
            i = rt.narrow(st.g, st.mem[NARG][1])
            more = B.not_(bdd.ult(self.n, i))
            v = self.program
            for k in range(self.nargs):
                v = merge(eqc(i, k + 1), self.arg[k], v)
            st.mem[NARG] = ("b", vite(more, bdd.add(i, const(1, 4))[0], i))
            return st, ("e", (more,), ((), (v,)))
        self.reg(r"<std::env::Args as std::iter::Iterator>::next", next_arg)
        self.reg(r"std::ptr::drop_glue::<std::env::Args(Os)?>", lambda I, st, inst, args, site: (st, UNIT))

        def skip_n(I, st, inst, args, site):
            # nth of the arguments
            n = args[1][1]
            n = rt.narrow(st.g, n)
            if to_int(n) is None:
                raise Unsupported("nth argument")
            for _ in range(to_int(n)):
                st, _ = next_arg(I, st, inst, args, site)
            return next_arg(I, st, inst, args, site)
        self.reg(r"<std::env::Args as std::iter::Iterator>::nth", skip_n)

        def said(I, st, inst, args, site):
            c = st.mem[PRINTED][1]
            st.mem[PRINTED] = ("b", vite(eqc(c, 15), c, bdd.add(c, const(1, 4))[0]))
            return st, UNIT
        self.reg(r"std::io::_eprint", said)
        self.reg(r"std::io::_print", lambda I, st, inst, args, site: (st, UNIT))
        text_ = lambda I, st, inst, args, site: (st, atom("text"))
        self.reg(r"core::fmt::rt::Argument::<.*>::new_.*|core::fmt::rt::Argument::new_.*|std::fmt::Arguments::(new|from_str).*", text_)
        self.reg(r"alloc::fmt::format|std::fmt::format", lambda I, st, inst, args, site: (st, rt.vec_empty(I, I.u8())))

        def path(I, st, inst, args, site):
            v = args[0]
            p = I.as_ptr(st, v)
            while p[2] is None:
                x = rt.deref(I, st, p)
                if x[0] == "p" or (x[0] == "a" and not is_vec(x)):
                    p = I.as_ptr(st, x)
                    continue
                p = rt.slice_of(I, st, p)
            return st, p
        self.reg(r"std::path::Path::new::<.*>", path)
        self.reg(r"<&?std::path::Path(Buf)? as std::convert::AsRef<std::path::Path>>::as_ref|<std::path::PathBuf as std::ops::Deref>::deref",
                 lambda I, st, inst, args, site: (st, args[0]))
        # (a path with another extension: the path and the extension)
        self.reg(r"std::path::Path::with_extension::<.*>", lambda I, st, inst, args, site: (st, ("a", (args[0], args[1]))))
        self.reg(r"std::ptr::drop_glue::<std::path::PathBuf>", lambda I, st, inst, args, site: (st, UNIT))

    def path_is(self, st, c, p, k):
        """Is a path (the slice of) argument k (decided where c)?"""
        return slice_is(self.I, st, p, self.arg[k], c)

    def main_key(self):
        ks = [k for k, i in self.F.insts.items() if re.fullmatch(r"\w+::main", i["nm"]) and i.get("body")]
        if len(ks) != 1:
            raise MissingAnchor("main")
        return ks[0]

    def exit_code(self, v):
        while v[0] == "a":
            fs = [x for x in v[1] if x[0] in ("a", "b")]
            if len(fs) != 1:
                raise Unsupported("exit code")
            v = fs[0]
        return v[1]


def is_vec(v):
    v = natives.strip(v)
    return rt.is_vec(v)


def slice_is(I, st, p, v, c):
    if not c:
        return 0
    n = rt.narrow(c, rt.slice_len(p))
    lv = rt.narrow(c, rt.vlen(v))
    whole = 0
    for g, t in p[1]:
        cg = B.and_(c, g)
        r = B.and_(cg, eq(n, lv))
        for i in range(7):
            inside = bdd.ult(const(i, 64), lv)
            if not B.and_(r, inside):
                break
            x = rt.slice_get(I, st, ("p", ((1, t),), p[2]), const(i, 64))
            r = B.and_(r, B.or_(B.not_(inside), eq(rt.narrow(cg, x[1]), rt.narrow(cg, rt.vget(I, v, const(i, 64))[1]))))
        whole = B.or_(whole, r)
    return whole


# ------------------------------------------------------------------ assembler
# operand layouts: nibble pairs, b = byte, w = wide
OPERANDS = {"Nothing": (), "ByteRegister": ("r0-",), "WideRegister": ("r0-",), "ImmediateByte": ("b0",), "ImmediateWide": ("w0",),
            "ByteImm": ("r0-", "b1"), "WideImm": ("r0-", "w1"), "WideImmByte": ("r02", "w1"), "WideImmWide": ("r02", "w1"),
            "TwoWideOneByte": ("r01", "r2-"), "ByteWideImm": ("r01", "w2"), "TwoWideImm": ("r01", "w2"),
            "ByteTwoWide": ("r01", "r2-"), "ThreeByte": ("r01", "r2-"), "ThreeWide": ("r01", "r2-"),
            "FourByte": ("r01", "r23"), "FourWide": ("r01", "r23")}


class Tc(Tool):
    def __init__(self, F, nargs=1, nlabels=2, segs=(("Text", 2), ("Data", 1)), kinds=None):
        super().__init__(F, nargs)
        I = self.I
        tp = F.ty_named("telda2::source::ProcessedSource")
        tdl = self.tdl = F.ty_named("telda2::source::DataLine")
        tds = self.tds = F.ty_named("telda2::source::DataLineSegment")
        self.tp = tp
        ts = F.ty_named("telda2::aalv::obj::SegmentType")
        self.sv = [v["name"] for v in F.tys[ts]["v"]]
        self.dv = {v["name"]: i for i, v in enumerate(F.tys[tdl]["v"])}
        self.tdo = F.ty_named("telda2::source::DataOperand")
        self.ov = [v["name"] for v in F.tys[self.tdo]["v"]]
        if set(self.ov) != set(OPERANDS):
            raise MissingAnchor("data operands")
        self.wv = {v["name"]: i for i, v in enumerate(F.tys[F.ty_named("telda2::source::Wide")]["v"])}
        self.yv = {v["name"]: i for i, v in enumerate(F.tys[F.ty_named("telda2::source::SymbolType")]["v"])}
        self.nlabels, self.lim = nlabels, dict(segs)
        self.kinds = kinds
        self.src = []
        for k in range(nargs):
            self.src.append(self.program_of(k, tp))
        self.models_tc()

    def program_of(self, k, tp):
        """An arbitrary processed source, of the form source::process gives."""
        F, I = self.F, self.I
        v = I.fresh(tp, f"source{k}")
        labels = rt.as_vec(get(F, tp, v, "labels"))
        arr = labels[1][1]
        cells = [rt.vget(I, labels, const(i, 64)) for i in range(self.nlabels)]
        term = ("const", cells[-1]) if cells else arr[3]
        for i in range(self.nlabels - 1):
            term = ("st", term, const(i, 64), cells[i])
        labels = ("a", (labels[1][0], (arr[0], arr[1], arr[2], term)))
        v = ("a", tuple(labels if f == "labels" else x for f, x in zip(objfile.fields(F, tp), v[1])))
        dls = maps.slots(get(F, tp, v, "dls"))
        care = bdd.ult(rt.vlen(labels), const(self.nlabels + 1, 64))
        nl = rt.narrow(care, rt.vlen(labels))
        unk = self.sv.index("Unknown")
        for i in range(self.nlabels):
            there = bdd.ult(const(i, 64), nl)
            e = rt.vget(I, labels, const(i, 64))[1]
            ref = eqc(e[1][1], self.yv["Reference"])
            ok = bdd.ult(e[1][1], const(len(self.yv), len(e[1][1])))
            ok = B.and_(ok, bdd.ult(e[2][1], const(len(self.sv), len(e[2][1]))) if len(self.sv) < 1 << len(e[2][1]) else 1)
            ok = B.and_(ok, B.or_(B.not_(ref), eqc(e[2][1], unk)))
            care = B.and_(care, B.or_(B.not_(there), ok))
        lines = {}
        put = []
        for i, nm in enumerate(self.sv):
            n = self.lim.get(nm, 0)
            if not n:
                put.append(maps.some(maps.val(dls[i]), 0))
                continue
            d = maps.val(dls[i])
            ls = rt.as_vec(get(F, self.tds, d, "lines"))
            arr = ls[1][1]
            ln = zext(fresh(f"source{k}.{nm} lines", clog2(n + 1), 0), 64)
            ok = bdd.ult(ln, const(n + 1, 64))
            size = const(0, 20)
            lines[i] = []
            term = None
            for j in range(n):
                there = bdd.ult(const(j, 64), ln)
                x, sz, fine = self.line(rt.vget(I, ls, const(j, 64)), nl, f"source{k}.{nm}[{j}]", self.kinds.get((nm, j)) if self.kinds else None)
                term = ("const", x) if term is None else ("st", term, const(j, 64), x)
                lines[i].append((there, x, sz))
                ok = B.and_(ok, B.or_(B.not_(there), fine))
                size = bdd.add(size, tuple(B.and_(there, b) for b in sz))[0]
            start = get(F, self.tds, d, "start")[1]
            ok = B.and_(ok, bdd.ult(bdd.add(size, zext(start, 20))[0], const(0x10000, 20)))
            care = B.and_(care, B.or_(B.not_(maps.has(dls[i])), ok))
            new = {"lines": ("a", (("b", ln), (arr[0], arr[1], arr[2], term))), "size": ("b", size[:16])}
            put.append(maps.some(("a", tuple(new.get(f, x) for f, x in zip(objfile.fields(F, self.tds), d[1]))), maps.has(dls[i])))
        m = get(F, tp, v, "dls")
        m = ("a", tuple(put)) if maps.slots(m) == m[1] else None
        if m is None:
            raise Unsupported("map of segments")
        v = ("a", tuple(m if f == "dls" else x for f, x in zip(objfile.fields(F, tp), v[1])))
        dls = maps.slots(m)
        return dict(v=v, care=care, lines=lines, dls=dls, labels=labels, open=B.var(f"source{k} cannot be opened", 0, 0),
                    bad=B.var(f"source{k} is incorrect", 0, 0), write=B.var(f"object{k} cannot be written", 0, 0), wrote=0)

    def wide(self, x, nl, name):
        """An operand whose label, if it is one, is one of the program's."""
        lab = self.wv["Label"]
        i = zext(fresh(name, clog2(max(self.nlabels, 2)), 0), 64)
        ok = B.or_(B.not_(eqc(x[1], lab)), bdd.ult(i, nl))
        return ("e", x[1], tuple((("b", i),) if q == lab else p for q, p in enumerate(x[2]))), ok

    def line(self, x, nl, name, kinds):
        """A data line of the form the processing gives: (it, its size, the condition)"""
        W_ = 20
        # (what selects the line's form comes first in the order of the variables)
        x = ("e", first(f"{name} kind", len(x[1])), x[2])
        n, ok = const(0, W_), bdd.ult(x[1], const(len(self.dv), len(x[1])))
        if kinds:
            ok = B.and_(ok, orall(eqc(x[1], self.dv[q.split(".")[0]]) for q in kinds))
        pay = list(x[2])
        i = self.dv["Wide"]
        c = eqc(x[1], i)
        w, fine = self.wide(pay[i][0], nl, f"{name} label")
        pay[i] = (w,)
        n = vite(c, const(2, W_), n)
        ok = B.and_(ok, B.or_(B.not_(c), fine))
        i = self.dv["Raw"]
        raw = rt.as_vec(pay[i][0])
        ln = first(f"{name} bytes", 3)
        pay[i] = (("a", (("b", zext(ln, 64)), raw[1][1])),)
        n = vite(eqc(x[1], i), zext(ln, W_), n)
        i = self.dv["Ins"]
        ci = eqc(x[1], i)
        op, dat = pay[i]
        dat = ("e", first(f"{name} operands", len(dat[1])), dat[2])
        k = bdd.ult(dat[1], const(len(self.ov), len(dat[1])))
        only = [q.split(".")[1] for q in kinds or () if "." in q]
        if only:
            k = B.and_(k, orall(eqc(dat[1], self.ov.index(o)) for o in only))
        dp = list(dat[2])
        # (of one kind at a time: its operands share their variables)
        lw, rg = None, {}
        for j, o in enumerate(self.ov):
            c = eqc(dat[1], j)
            n = vite(B.and_(ci, c), const(1 + sum({"r": 1, "b": 1, "w": 2}[p[0]] for p in OPERANDS[o]), W_), n)
            f = list(dp[j])
            for p in OPERANDS[o]:
                if p[0] == "w":
                    f[int(p[1])], fine = self.wide(f[int(p[1])], nl, f"{name} operand label {j}")
                    k = B.and_(k, B.or_(B.not_(c), fine))
                for r in p[1:] if p[0] == "r" else ():
                    if r != "-":
                        f[int(r)] = narrowed(f[int(r)], 4)
            dp[j] = tuple(f)
        pay[i] = (op, ("e", dat[1], tuple(dp)))
        return ("e", x[1], tuple(pay)), n, B.and_(ok, B.or_(B.not_(ci), k))

    def models_tc(self):
        F, I = self.F, self.I
        self.events = []
        OPENED = ("S", "source opened")
        self.st.mem[OPENED] = bv(0, 4)

        def which(st):
            i = rt.narrow(st.g, st.mem[NARG][1])
            return [(k, B.and_(st.g, eqc(i, k + 2))) for k in range(self.nargs)]

        def open_(I, st, inst, args, site):
            p = args[0]
            bad = 0
            for k, c in which(st):
                if c:
                    self.w.chk(B.and_(c, B.not_(self.path_is(st, c, I.as_ptr(st, p), k))), "another file than the argument is assembled", [site])
                    bad = B.or_(bad, B.and_(c, self.src[k]["open"]))
            return st, ("e", (rt.where(st.g, bad),), ((atom("source lines"),), (atom("error"),)))
        self.reg(r"telda2::source::SourceLines::<std::io::BufReader<std::fs::File>>::new::<.*>", open_, True)

        def process(I, st, inst, args, site):
            v, bad, care = None, 0, 0
            for k, c in which(st):
                if c:
                    s = self.src[k]
                    care = B.or_(care, B.and_(c, s["care"]))
                    bad = B.or_(bad, B.and_(c, s["bad"]))
                    v = s["v"] if v is None else merge(c, s["v"], v)
            st.g = B.and_(st.g, B.or_(care, bad))
            if not st.g or v is None:
                return None, None
            return st, ("e", (rt.where(st.g, bad),), ((v,), (atom("error"),)))
        self.reg(r"telda2::source::process::<std::io::BufReader<std::fs::File>>", process, True)
        self.reg(r"<telda2::source::Error as std::convert::From<std::io::Error>>::from", lambda I, st, inst, args, site: (st, atom("error")))
        self.reg(r"<std::boxed::Box<str> as std::clone::Clone>::clone", lambda I, st, inst, args, site: (st, rt.deref(I, st, args[0])))

        def write(I, st, inst, args, site):
            bad = 0
            for k, c in which(st):
                if c:
                    self.events.append((k, c, rt.deref(I, st, args[0]), args[1], [site], st.fork(c)))
                    bad = B.or_(bad, B.and_(c, self.src[k]["write"]))
            return st, rt.result(rt.where(st.g, bad), UNIT, self.w.E.any("kind"))
        self.reg(r"telda2::aalv::obj::Object::write_to_file::<.*>", write, True)

    # ---- specification
    def chunks(self, x, seg):
        """The bytes of a data line: [(condition, [byte or (label id, which)] or vector)]"""
        out = []
        wide = lambda v: [("w", v, 0), ("w", v, 1)]
        out.append((eqc(x[1], self.dv["Wide"]), wide(x[2][self.dv["Wide"]][0])))
        out.append((eqc(x[1], self.dv["Raw"]), x[2][self.dv["Raw"]][0]))
        ci = eqc(x[1], self.dv["Ins"])
        op, dat = x[2][self.dv["Ins"]]
        for i, o in enumerate(self.ov):
            bs = [op[1]]
            f = dat[2][i]
            for p in OPERANDS[o]:
                if p[0] == "b":
                    bs.append(f[int(p[1])][1])
                elif p[0] == "w":
                    bs += wide(f[int(p[1])])
                else:
                    a = regno(f[int(p[1])])
                    b = const(0, 4) if p[2] == "-" else regno(f[int(p[2])])
                    bs.append(b[:4] + a[:4])
            out.append((B.and_(ci, eqc(dat[1], i)), bs))
        return out

    def check(self, k, c, o, path, site, st):
        F, I, w = self.F, self.I, self.w
        s = self.src[k]
        chk = lambda x, what: w.chk(B.and_(c, x), what, site)
        to = F.ty_named("telda2::aalv::obj::Object")
        # the path: the argument with the object extension
        p = natives.strip(path)
        good = 0
        if p[0] == "a" and len(p[1]) == 2:
            ext = I.as_ptr(st, p[1][1])
            ex = b"to"
            e = eqc(rt.slice_len(ext), len(ex))
            for i, b in enumerate(ex):
                e = B.and_(e, eqc(rt.slice_get(I, st, ext, const(i, 64))[1], b))
            good = B.and_(e, slice_is(I, st, I.as_ptr(st, p[1][0]), self.arg[k], c))
        chk(B.not_(good), "the object is written to another file than the source's name with the object extension")
        labels = s["labels"]
        lab = [rt.vget(I, labels, const(i, 64))[1] for i in range(self.nlabels)]
        out = maps.slots(get(F, to, o, "segs"))
        relocs = []
        for i, nm in enumerate(self.sv):
            have = maps.has(s["dls"][i])
            chk(B.xor(have, maps.has(out[i])), "a segment is lost or invented")
            ch = B.and_(c, B.and_(have, maps.has(out[i])))
            if not ch:
                continue
            d = maps.val(s["dls"][i])
            start = get(F, self.tds, d, "start")[1]
            got_start, mem = maps.val(out[i])[1]
            w.chk(differ(ch, got_start[1], start), "a segment starts elsewhere", site)
            W_ = 20
            pos = const(0, W_)
            x_at = fresh(f"place in {nm}", 17)
            place = zext(x_at, W_)
            place64 = zext(x_at, 64)
            bad = 0
            for there, line, sz in s["lines"][i]:
                cl = B.and_(ch, there)
                if not cl:
                    continue
                p_ = rt.narrow(cl, pos)
                for cc, bs in self.chunks(line, i):
                    cc = B.and_(cl, cc)
                    if not cc:
                        continue
                    if isinstance(bs, tuple):      # a vector
                        off = bdd.sub(place, p_)[0]
                        inside = B.and_(B.not_(bdd.ult(place, p_)), bdd.ult(off, rt.vlen(bs)[:W_]))
                        ci = B.and_(cc, inside)
                        if ci:
                            want = rt.vget(I, bs, zext(rt.narrow(ci, off), 64))[1]
                            got = rt.get_where(I, ci, mem, place64)[1]
                            bad = B.or_(bad, differ(ci, got, rt.narrow(ci, want)))
                        continue
                    for j, b in enumerate(bs):
                        at = bdd.add(p_, const(j, W_))[0]
                        ci = B.and_(cc, eq(place, at))
                        if not ci:
                            continue
                        got = rt.get_where(I, ci, mem, place64)[1]
                        if isinstance(b[0], str):
                            _, v, half = b
                            num = v[2][self.wv["Number"]][0][1][8 * half:8 * half + 8]
                            cn = B.and_(ci, eqc(v[1], self.wv["Number"]))
                            bad = B.or_(bad, differ(cn, got, num))
                            cw = B.and_(ci, eqc(v[1], self.wv["Label"]))
                            for l in range(self.nlabels):
                                cz = B.and_(cw, eqc(v[2][self.wv["Label"]][0][1], l))
                                bad = B.or_(bad, differ(cz, got, lab[l][3][1][8 * half:8 * half + 8]))
                            if half == 0:
                                cu = B.and_(cc, eqc(v[1], self.wv["Label"]))
                                relocs.append((cu, i, bdd.add(at, zext(start, W_))[0], v[2][self.wv["Label"]][0][1]))
                        else:
                            bad = B.or_(bad, differ(ci, got, b))
                pos = rt.narrow(B.or_(cl, B.not_(there)), bdd.add(pos, tuple(B.and_(there, b) for b in sz))[0])
            w.chk(bad, "a byte of a segment differs from the program", site)
            w.chk(differ(ch, zext(rt.vlen(mem), 64)[:W_], rt.narrow(ch, pos)), "a segment's length differs from the program", site)
        # symbols
        sy = get(F, to, o, "symbols")[1][0]
        w.chk(differ(c, rt.vlen(sy), rt.vlen(labels)), "a symbol is lost or invented", site)
        tsd = F.ty_named("telda2::aalv::obj::SymbolDefinition")
        for l in range(self.nlabels):
            cl = B.and_(c, B.and_(bdd.ult(const(l, 64), rt.vlen(labels)), bdd.ult(const(l, 64), rt.vlen(sy))))
            if not cl:
                continue
            e = rt.get_where(I, cl, sy, const(l, 64))
            bad = B.or_(differ(cl, get(F, tsd, e, "location")[1], lab[l][3][1]), differ(cl, get(F, tsd, e, "segment_type")[1], lab[l][2][1]))
            w.chk(bad, "a symbol has another address than in the program", site)
            w.chk(B.and_(cl, B.xor(get(F, tsd, e, "is_global")[1][0], B.not_(eqc(lab[l][1][1], self.yv["Internal"])))),
                  "a symbol has another visibility than in the program", site)
            na, nb = I.as_ptr(st, get(F, tsd, e, "name")), I.as_ptr(st, lab[l][0])
            w.chk(B.and_(cl, B.not_(same_box(I, st, cl, na, nb))), "a symbol has another name than in the program", site)
        # relocations
        rl = get(F, to, o, "relocation_table")[1][0]
        tre = F.ty_named("telda2::aalv::obj::RelocationEntry")
        n = const(0, 8)
        for cu, *_ in relocs:
            n = vite(cu, bdd.add(n, const(1, 8))[0], n)
        w.chk(differ(c, rt.vlen(rl), zext(rt.narrow(c, n), 64)), "a relocation is lost or invented", site)
        ents = []
        for j in range(len(relocs)):
            cj = B.and_(c, bdd.ult(const(j, 64), rt.vlen(rl)))
            if not cj or j >= self.max_relocs():
                break
            ents.append((cj, rt.get_where(I, cj, rl, const(j, 64))))
        for cu, i, at, l in relocs:
            if not cu:
                continue
            found = 0
            for cj, e in ents:
                cc = B.and_(cu, cj)
                if not cc:
                    continue
                m = B.and_(eqc(get(F, tre, e, "reference_segment")[1], i), eqc(rt.narrow(cc, bdd.sub(zext(get(F, tre, e, "reference_location")[1], 20), rt.narrow(cc, at))[0]), 0))
                m = B.and_(m, eq(get(F, tre, e, "symbol_index")[1], l[:16]))
                found = B.or_(found, B.and_(cc, m))
            w.chk(B.and_(cu, B.not_(found)), "a use of a label has no relocation at its place", site)
        # the rest
        ent = get(F, to, o, "entry")
        src_ent = get(F, self.tp, s["v"], "entry")
        w.chk(val_differs(c, ent, src_ent), "the entry point differs from the program's", site)
        for fld in ("flags", "stack_size", "heap_size"):
            w.chk(B.and_(c, eqc(get(F, to, o, fld)[1], 1)), f"the object has {fld} the program does not ask for", site)
        w.chk(B.and_(c, B.not_(eqc(get(F, to, o, "file_offset")[1], 0))), "the object does not start at the start of its file", site)

    def max_relocs(self):
        return sum(self.lim.values())


def regno(v, w=4):
    while v[0] == "a":
        v = v[1][0]
    b = v[1]
    return b + (0,) * (w - len(b))


def narrowed(v, n):
    """A number whose bits from n on are zero, in its wrappers."""
    if v[0] == "a":
        return ("a", (narrowed(v[1][0], n),) + v[1][1:])
    return ("b", v[1][:n] + (0,) * (len(v[1]) - n))


def first(name, n):
    """A number before the others in the order of the variables, in one piece."""
    return tuple(B.var(f"{name}[{i}]", 0, 0) for i in range(n))


def orall(xs):
    r = 0
    for x in xs:
        r = B.or_(r, x)
    return r


def same_box(I, st, c, a, b):
    if a == b:
        return 1
    la, lb = rt.slice_len(a), rt.slice_len(b)
    r = eq(rt.narrow(c, la), rt.narrow(c, lb))
    same = 0
    for ga, ta in a[1]:
        for gb, tb in b[1]:
            if ta == tb:
                same = B.or_(same, B.and_(ga, gb))
    return B.and_(r, same)


def assemble(F, nargs=1, nlabels=2, segs=(("Text", 2), ("Data", 1)), kinds=None):
    T = Tc(F, nargs, nlabels, segs, kinds)
    w, I = T.w, T.I
    key = T.main_key()
    site = [I.site(key, 0)]
    fs, rv = I.call(w.st, key, [])
    if fs is None:
        return [("never returns", {}, site)], panics_of(I), I
    g = fs.g
    failed = 0
    did = [0] * nargs
    for k, c, o, path, s_, st in T.events:
        T.check(k, c, o, path, s_, st)
        w.chk(B.and_(c, did[k]), "an object is written twice", s_)
        did[k] = B.or_(did[k], c)
        w.chk(B.and_(c, B.or_(T.src[k]["open"], T.src[k]["bad"])), "an object is written for an incorrect program", s_)
    for k in range(nargs):
        there = bdd.ult(const(k, 4), T.n)
        s = T.src[k]
        f = B.or_(s["open"], s["bad"])
        w.chk(B.and_(g, B.and_(B.and_(there, B.not_(f)), B.not_(did[k]))), "a correct program is not written", site)
        failed = B.or_(failed, B.and_(there, B.or_(f, s["write"])))
    code = T.exit_code(rv)
    w.chk(B.and_(g, B.and_(failed, eqc(code, 0))), "the exit status is success although something failed", site)
    w.chk(B.and_(g, B.and_(B.not_(failed), B.not_(eqc(code, 0)))), "the exit status is failure although nothing failed", site)
    w.chk(B.and_(g, B.and_(failed, eqc(fs.mem[PRINTED][1], 0))), "nothing is said about a failure", site)
    return w.out, panics_of(I), I
