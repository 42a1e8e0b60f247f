"""Virtual memory: `fetch`, `read` and `write` of the processor's memory
interface against the two-level page-table walk, over an unknown memory.

Memory is an array term (unknown base + stores); equal addresses (under the
reach condition) read the same unknown byte."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, join, merge, bv, boolv, UNIT, Unsupported
from cpu import (Cpu, CPUOBJ, CTX, same_under, is_err, Diff, diff_cpu, CODES)

MEM = ("MEM",)


class Early(Exception):
    """The code touches memory where the specification does not: decided."""

    def __init__(self, diff):
        self.diff = diff


class Memory:
    """Answers of reads from the initial memory, by address."""

    def __init__(self, aw=32):
        self.aw = aw
        self.hint = None
        self.cells = []    # (guard, address bits, value)
        self.reads = []    # (guard, address bits, site) by the code
        self.allowed = None   # {"read": [(guard, address)], "written": [...]}

    def init(self, st, u8):
        st.mem[MEM] = ("A", u8, None, ("base", "M"))

    def select(self, I, st_g, term, a):
        k = term[0]
        if k == "base":
            for g, b, v in self.cells:
                if same_under(st_g, b, a):
                    return v
            c = to_int(a)
            nm = f"M[{hex(c) if c is not None else self.hint[0] if self.hint else 'a%d' % len(self.cells)}]"
            # variable order: entry bytes next to the address bits they become
            cls, off = self.hint[1] if self.hint else (1, 0)
            v = ("b", tuple(B.var(f"{nm}[{i}]", cls, max(0, off + i)) for i in range(8)))
            self.cells.append((st_g, a, v))
            return v
        if k == "st":
            c = eq(term[2], a)
            if B.and_(st_g, B.not_(c)) == 0:
                return term[3]
            if B.and_(st_g, c) == 0:
                return self.select(I, st_g, term[1], a)
            return merge(c, term[3], self.select(I, st_g, term[1], a))
        if k == "ite":
            if B.and_(st_g, term[1]) == 0:
                return self.select(I, st_g, term[3], a)
            if B.and_(st_g, B.not_(term[1])) == 0:
                return self.select(I, st_g, term[2], a)
            return merge(term[1], self.select(I, B.and_(st_g, term[1]), term[2], a),
                         self.select(I, B.and_(st_g, B.not_(term[1])), term[3], a))
        raise Unsupported("memory term")

    def online(self, how, g, a, site):
        """Stop at the first access outside the specified ones."""
        if self.allowed is None:
            return
        left = g
        for h, b in self.allowed[how]:
            left = B.and_(left, B.not_(B.and_(h, eq(a, b))))
            if left == 0:
                return
        if left:
            raise Early(Diff(left, f"memory is {how} at an address the access does not involve", [site]))

    def read(self, I, st, a):
        return self.select(I, st.g, st.mem[MEM][3], a)

    def write(self, I, st, a, v):
        _, e, n, t = st.mem[MEM]
        st.mem[MEM] = ("A", e, n, ("st", t, a, v))


def mem_models(mm):
    def rd(I, st, inst, args, site):
        mm.online("read", st.g, args[1][1], site)
        mm.reads.append((st.g, args[1][1], site))
        return st, mm.read(I, st, args[1][1])

    def wr(I, st, inst, args, site):
        mm.online("written", st.g, args[1][1], site)
        mm.write(I, st, args[1][1], args[2])
        mm.writes.append((st.g, args[1][1], args[2], site))
        return st, UNIT
    mm.writes = []
    d = "<dyn telda2::mem::MainMemory as telda2::mem::MainMemory>::"
    a = "<vharness::AnyMem as telda2::mem::MainMemory>::"
    return {d + "read": rd, d + "write": wr, a + "read": rd, a + "write": wr}


class Walk:
    """The specified walk."""

    def __init__(self, M, I, mm, st):
        self.M, self.I, self.mm, self.st = M, I, mm, st
        self.exits = []
        self.spec_reads = []
        self.ptes = []

    def trap(self, cond, name):
        if self.st is None:
            return
        bad = self.st.fork(cond)
        if bad is not None:
            self.exits.append((bad, self.M.trapval(name)))
        self.st = self.st.fork(B.not_(cond))

    def rd(self, a):
        self.spec_reads.append((self.st.g, a))
        return self.mm.read(self.I, self.st, a)[1]

    def entry(self, a, mode, um, miss):
        raw = ()
        for i in range(4):
            self.mm.hint = (f"{miss[:6].lower()}-entry+{i}", (0, 0) if i == 0 else (1, 8 * i - 8))
            raw += tuple(self.rd(bdd.add(a, const(i, 32))[0]))
        self.mm.hint = None
        self.trap(B.not_(raw[0]), miss)
        self.trap(B.and_(um, B.not_(raw[5])), "IllegalOperation")
        bit, code = {"X": (3, "IllegalExecute"), "W": (2, "IllegalWrite"), "R": (1, "IllegalRead")}[mode]
        self.trap(B.not_(raw[bit]), code)
        return raw

    def translate(self, addr, mode):
        """Physical address (32 bits); forks the state on faults."""
        c = self.st.mem[CPUOBJ]
        vm = self.M.get(c, "virtual_mode")[1][0]
        um = self.M.get(c, "user_mode")[1][0]
        page = self.M.get(c, "page")[1]
        direct = self.st.fork(B.not_(vm))
        virt = self.st.fork(vm)
        pa = zext(addr, 32)
        self.st = virt
        if virt is not None:
            e1a = bdd.add(zext(page, 32), zext((0, 0) + addr[12:], 32))[0]
            r1 = self.entry(e1a, mode, um, "Level1PageFault")
            if self.st is not None:
                e2a = bdd.add((0,) * 7 + r1[15:] + (0,) * 8, zext((0, 0) + addr[7:12], 32))[0]
                r2 = self.entry(e2a, mode, um, "Level2PageFault")
            if self.st is not None:
                self.ptes = [(self.st.g, e1a), (self.st.g, e2a)]
                if mode == "W":
                    for a, r in ((e1a, r1), (e2a, r2)):
                        low = r[:4] + (1,) + r[5:8]
                        _, e, n, t = self.st.mem[MEM]
                        self.st.mem[MEM] = ("A", e, n, ("ite", B.not_(r[4]), ("st", t, a, ("b", low)), t))
                pv = addr[:7] + r2[15:] + (0,) * 8
                pa = vite(B.restrict(vm, B.or_(B.not_(vm), self.st.g)) if direct else 1, pv, pa)
        self.st = join(self.st, direct)
        self.vm = vm
        return pa


def spec_access(M, I, mm, st, kind, addr=None, val=None):
    w = Walk(M, I, mm, st)
    if kind == "fetch":
        c = st.mem[CPUOBJ]
        addr = M.get(c, "program_counter")[1]
        st.mem[CPUOBJ] = M.put(c, "program_counter", ("b", bdd.add(addr, const(1, 16))[0]))
    pa = w.translate(addr, {"fetch": "X", "read": "R", "write": "W"}[kind])
    ok = w.st
    w.pa = pa
    if ok is not None:
        if kind == "write":
            mm.write(I, ok, pa, ("b", val))
            v = UNIT
        else:
            v = ("b", w.rd(pa))
    acc, av = None, None
    outs = [(ok, ("e", (0,), ((v,), None)))] if ok is not None else []
    outs += [(e, ("e", (1,), (None, (cv,)))) for e, cv in w.exits]
    for e, x in outs:
        if acc is None:
            acc, av = e, x
        else:
            j = join(acc, e)
            av = merge(B.restrict(acc.g, j.g), av, x)
            acc = j
    w.okg = ok.g if ok is not None else 0
    return acc, av, w


def vaddr(name):
    """A virtual address, its fields ordered like the physical bits they select."""
    lv = list(range(7)) + [2, 3, 4, 5, 6] + [2, 3, 4, 5]
    return tuple(B.var(f"{name}[{i}]", 1, lv[i]) for i in range(16))


def analyse_access(facts, kind, virtual):
    """Returns dict of diffs per aspect, and statistics."""
    M = Cpu(facts)
    mm = Memory()
    I = Interp(facts, mem_models(mm))
    u8 = I.u8()
    I.objty[CPUOBJ] = M.t_cpu
    c0 = I.fresh(M.t_cpu, "cpu")
    addr, val = vaddr("addr"), fresh("val", 8)
    c0 = M.put(c0, "virtual_mode", boolv(virtual))
    if kind == "fetch" and virtual:
        c0 = M.put(c0, "program_counter", ("b", vaddr("pc")))

    st = State(1, {CPUOBJ: c0}, Trace())
    mm.init(st, u8)
    sf, sv, w = spec_access(M, I, mm, st, kind, addr, val)

    st = State(1, {CPUOBJ: c0}, Trace())
    mm.init(st, u8)
    ctx = [None, None]
    memobj = ("S", "mem")
    ctxv = [None] * len(M.cf)
    ctxv[M.cf["cpu"]] = ("p", ((1, (CPUOBJ, ())),), None)
    if "mem" not in M.cf:
        from facts import MissingAnchor
        raise MissingAnchor("HandlerContext.mem")
    ctxv[M.cf["mem"]] = ("p", ((1, (memobj, ())),), ("o", ((1, ("vt", "mem")),)))
    CTXOBJ = ("S", "ctx")
    st.mem[CTXOBJ] = ("a", tuple(ctxv))
    key = facts.find(f"{CTX}::{kind}")
    args = [("p", ((1, (CTXOBJ, ())),), None)]
    if kind != "fetch":
        args.append(("b", addr))
    if kind == "write":
        args.append(("b", val))
    mm.reads.clear()
    out = {"perm": [], "xlat": [], "dirty": [], "pc": [], "panic": []}
    mm.allowed = {"read": w.spec_reads,
                  "written": w.ptes + ([(w.okg, w.pa)] if w.okg else []) if kind == "write" else []}
    try:
        fs, rv = I.call(st, key, args)
    except Early as e:
        e.diff.what = f"{kind}: {e.diff.what}"
        for a in ("perm", "xlat", "dirty"):
            out[a].append(e.diff)
        return out, I, mm, w
    site = I.site(key, 0)
    for g, s, what, stk in I.panics:
        out["panic"].append(Diff(g, f"{kind}: {what}", [s]))
    reach = fs.g if fs is not None else 0
    if fs is None:
        return out, I, mm, w
    # outcome and trap code
    e1, p1 = is_err(rv)
    e2, p2 = is_err(sv)
    d = B.and_(reach, B.and_(e2, B.not_(e1)))
    if d:
        out["perm"].append(Diff(d, f"{kind}: an access that has to fault is carried out", [site]))
    d = B.and_(reach, B.and_(e1, B.not_(e2)))
    if d:
        out["perm"].append(Diff(d, f"{kind}: an access that is permitted faults", [site]))
    both = B.and_(reach, B.and_(e1, e2))
    if both and p1 is not None:
        d = B.and_(both, B.not_(eq(M.code(p1), M.code(p2))))
        if d:
            out["perm"].append(Diff(d, f"{kind}: the fault has another code than specified", [site]))
    okb = B.and_(reach, B.not_(B.or_(e1, e2)))
    # the value read: where it comes from
    if kind != "write" and okb:
        a, b = rv[2][0][0], sv[2][0][0]
        d = B.and_(okb, B.not_(eq(a[1], b[1])))
        if d:
            out["xlat"].append(Diff(d, f"{kind}: the byte does not come from the translated address", [site]))
    # every address the code reads is specified
    for g, a, s in mm.reads:
        left = g
        for h, b in w.spec_reads:
            left = B.and_(left, B.not_(B.and_(h, eq(a, b))))
            if left == 0:
                break
        left = B.and_(left, reach)
        if left:
            out["xlat"].append(Diff(left, f"{kind}: memory is read at an address the walk does not visit", [s]))
        hi = 0
        for x in a[24:]:
            hi = B.or_(hi, x)
        if B.and_(g, hi):
            out["panic"].append(Diff(B.and_(g, hi), f"{kind}: physical address beyond 24 bits", [s]))
    # final memory at an arbitrary address
    p = fresh("probe", 32)
    x = mm.select(I, reach, fs.mem[MEM][3], p)
    y = mm.select(I, reach, sf.mem[MEM][3], p)
    d = B.and_(reach, B.not_(eq(x[1], y[1])))
    if d:
        pte = 0
        for g, a in w.ptes:
            pte = B.or_(pte, B.and_(g, eq(p, a)))
        data = B.and_(w.okg, eq(p, w.pa)) if kind == "write" else 0
        sites = {s for g, a, v, s in mm.writes if B.and_(d, g)} or {site}
        dd = B.and_(d, B.and_(pte, B.not_(data)))
        if dd:
            out["dirty"].append(Diff(dd, f"{kind}: a page-table entry's flags are left with another value than specified", sites))
        dd = B.and_(d, B.or_(data, B.not_(pte)))
        if dd:
            # a change where nothing may change, or the datum itself is wrong
            what = (f"{kind}: memory outside the addressed byte and the dirty flags of its two entries is changed, "
                    "or the addressed byte does not get the value")
            out["xlat"].append(Diff(dd, what, sites))
    # nothing else of the processor changes
    cd = []
    diff_cpu(M, reach, fs.mem[CPUOBJ], sf.mem[CPUOBJ], cd)
    for x in cd:
        x.sites = x.sites or [site]
        (out["pc"] if "program_counter" in x.what else out["xlat"]).append(Diff(x.cond, f"{kind}: {x.what}", x.sites))
    return out, I, mm, w
