"""The processor: models of its memory interface, the instruction-set
specification, and the comparison of the abstract semantics of
`execute_instruction` with it."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import (Interp, State, Trace, join, merge, bv, boolv, clog2, U, UNIT, Unsupported, Unbounded)
from facts import MissingAnchor

EXEC = "<telda2::blf4::Blf4 as telda2::machine::Cpu>::execute_instruction::<vharness::AnyMem>"
CTX = "telda2::blf4::HandlerContext"
BLF4 = "telda2::blf4::Blf4"
CPUOBJ = ("S", "cpu")

# Opcode map and trap codes, as documented for the instruction set.
OPS = {
    0x0a: "halt", 0x0b: "ctf", 0x0c: "syscall", 0x0d: "reth",
    0x10: "usr", 0x11: "vmon", 0x12: "vmoff", 0x13: "pstore", 0x14: "pload",
    0x20: "nop", 0x21: "push_b", 0x22: "push_w", 0x23: "pop_b", 0x24: "pop_w", 0x25: "call", 0x26: "ret",
    0x27: "store_bi", 0x28: "store_wi", 0x29: "store_br", 0x2a: "store_wr",
    0x2b: "load_bi", 0x2c: "load_wi", 0x2d: "load_br", 0x2e: "load_wr",
    0x2f: "jez", 0x30: "jlt", 0x31: "jle", 0x32: "jgt", 0x33: "jge", 0x34: "jnz", 0x35: "jo", 0x36: "jno",
    0x37: "ja", 0x38: "jae", 0x39: "jb", 0x3a: "jbe",
    0x3f: "ldi_b", 0x40: "ldi_w",
    0x41: "add_b", 0x42: "add_w", 0x43: "sub_b", 0x44: "sub_w", 0x45: "and_b", 0x46: "and_w",
    0x47: "or_b", 0x48: "or_w", 0x49: "xor_b", 0x4a: "xor_w", 0x4b: "shl_b", 0x4c: "shl_w",
    0x4d: "asr_b", 0x4e: "asr_w", 0x4f: "lsr_b", 0x50: "lsr_w",
    0x51: "div_b", 0x52: "div_w", 0x53: "mul_b", 0x54: "mul_w",
}
UNDEFINED = [op for op in range(256) if op not in OPS]
CODES = {"Invalid": 0, "SysCall": 5, "ZeroDiv": 8, "Halt": 0xa, "Level1PageFault": 0xe, "Level2PageFault": 0xf,
         "IllegalOperation": 0x10, "IllegalRead": 0x11, "IllegalWrite": 0x12, "IllegalExecute": 0x13,
         "IllegalHandlerReturn": 0x1f}
FLAGBITS = ["user_mode", "trap", "reserved", "virtual_mode", "carry", "sign", "overflow", "zero"]


class Cpu:
    """Types and field positions, found by name."""

    def __init__(self, facts):
        self.F = facts
        self.T = facts.tys
        self.t_cpu = facts.ty_named(BLF4)
        self.t_trap = facts.ty_named("telda2::blf4::TrapMode")
        self.fld = {f[0]: i for i, f in enumerate(self.T[self.t_cpu]["v"][0]["f"])}
        self.t_flags = facts.ty_named("telda2::blf4::Blf4Flags")
        self.flg = {f[0]: i for i, f in enumerate(self.T[self.t_flags]["v"][0]["f"])}
        for n in ("general_purposes", "stack", "link", "frame", "page", "program_counter", "trap_handler", "flags"):
            if n not in self.fld:
                raise MissingAnchor(f"register {n}")
        for n in FLAGBITS:
            if n not in self.flg:
                raise MissingAnchor(f"flag {n}")
        self.traps = [(v["name"], int(v["d"])) for v in self.T[self.t_trap]["v"]]
        self.t_ctx = None
        for i, t in enumerate(self.T):
            if t.get("def") == CTX:
                self.t_ctx = i
        if self.t_ctx is None:
            raise MissingAnchor("HandlerContext")
        self.cf = {f[0]: i for i, f in enumerate(self.T[self.t_ctx]["v"][0]["f"])}

    # -- fields of the register file
    def get(self, v, name):
        if name in self.flg:
            return v[1][self.fld["flags"]][1][self.flg[name]]
        return v[1][self.fld[name]]

    def put(self, v, name, x):
        if name in self.flg:
            i, j = self.fld["flags"], self.flg[name]
            f = v[1][i]
            f = ("a", f[1][:j] + (x,) + f[1][j + 1:])
            return ("a", v[1][:i] + (f,) + v[1][i + 1:])
        i = self.fld[name]
        return ("a", v[1][:i] + (x,) + v[1][i + 1:])

    def code(self, e):
        """The numeric code (8 bits) of a TrapMode value."""
        r = const(self.traps[0][1], 8)
        for i in range(1, len(self.traps)):
            r = vite(eqc(e[1], i), const(self.traps[i][1], 8), r)
        return r

    def trapval(self, name):
        for i, (n, c) in enumerate(self.traps):
            if c == CODES[name]:
                return ("e", const(i, clog2(len(self.traps))), tuple(() for _ in self.traps))
        raise MissingAnchor(f"trap code {name}")

    def any_trap(self, name):
        n = len(self.traps)
        t = fresh(name, clog2(n), 0)
        t = vite(bdd.ult(t, const(n, clog2(n))) if n < (1 << clog2(n)) else 1, t, const(0, clog2(n)))
        return ("e", t, tuple(() for _ in self.traps))

    def result(self, name, okval):
        """An unknown Result<_, TrapMode>."""
        return ("e", (B.var(name + ".err", 0, 0),), ((okval,), (self.any_trap(name + ".code"),)))


def ctx_cpu(M, I, st, args):
    p = I.as_ptr(st, args[0])
    (g, (obj, path)), = p[1]
    ctx = I.read_path(I.load_obj(st, obj), path)
    cp = I.as_ptr(st, ctx[1][M.cf["cpu"]])
    (g, (o2, p2)), = cp[1]
    return o2, p2


def cpu_of(M, I, st, args):
    o, p = ctx_cpu(M, I, st, args)
    return o, p, I.read_path(I.load_obj(st, o), p)


def xlat(M, c):
    return (M.get(c, "page"), M.get(c, "virtual_mode"), M.get(c, "user_mode"))


class Env:
    """Environment shared by code and specification: answers of events."""

    def __init__(self, M, opcode=None, coarse=True, fixed=None):
        self.M = M
        self.fixed = fixed or {}   # operand bytes of a sub-partition, by slot
        self.opcode = opcode       # 8 bits, value of the fetch in slot 0
        self.coarse = coarse
        self.regs = []             # (g, key, kind, value)
        self.raw_sites = set()

    def fetch_ret(self, nm):
        if nm == "R0.fetch" and self.opcode is not None:
            return self.M.result(nm, ("b", self.opcode))
        if nm in self.fixed:
            return self.M.result(nm, ("b", const(self.fixed[nm], 8)))
        return self.M.result(nm, ("b", fresh(nm, 8)))

    def read_ret(self, nm):
        return self.M.result(nm, ("b", fresh(nm, 8)))

    def write_ret(self, nm):
        return self.M.result(nm, UNIT)

    # one step of each interaction; c is the register file before it
    def do_fetch(self, I, st, c, site=None):
        pc = M_get(self.M, c, "program_counter")
        r = I.emit(st, "fetch", (pc,) + xlat(self.M, c), self.fetch_ret, site)
        c = self.M.put(c, "program_counter", ("b", bdd.add(pc[1], const(1, 16))[0]))
        return c, r

    def do_read(self, I, st, c, addr, site=None):
        return I.emit(st, "read", (addr,) + xlat(self.M, c), self.read_ret, site)

    def do_write(self, I, st, c, addr, val, site=None):
        return I.emit(st, "write", (addr, val) + xlat(self.M, c), self.write_ret, site)

    def do_rawr(self, I, st, addr, site=None):
        return I.emit(st, "phys_read", (addr,), lambda nm: ("b", fresh(nm, 8)), site)

    def do_raww(self, I, st, addr, val, site=None):
        return I.emit(st, "phys_write", (addr, val), lambda nm: UNIT, site)

    # register reads with a symbolic number: value numbering
    def reg_read(self, kind, r, c, g, width):
        key = (r, M_get(self.M, c, "general_purposes"), M_get(self.M, c, "stack"), M_get(self.M, c, "link"),
               M_get(self.M, c, "frame"), M_get(self.M, c, "page"), M_get(self.M, c, "trap_handler"))
        bits = flat(key)
        for g0, b0, k0, v in self.regs:
            if k0 == kind and same_under(g, b0, bits):
                return v
        v = ("b", fresh(f"{kind}#{len(self.regs)}({regname(r)})", width))
        self.regs.append((g, bits, kind, v))
        return v


def M_get(M, c, n):
    return M.get(c, n)


_rn = {}


def regname(r):
    return _rn.setdefault(r, f"op{len(_rn)}")


def flat(v):
    if isinstance(v, tuple):
        if v and v[0] == "b" and len(v) == 2:
            return list(v[1])
        if v and v[0] == "a" and len(v) == 2:
            v = v[1]
        out = []
        for x in v:
            if isinstance(x, int):
                out.append(x)
            else:
                out.extend(flat(x))
        return out
    return [v]


def same_under(g, a, b):
    if a == b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y and B.and_(g, B.xor(x, y)):
            return False
    return True


def reg_bits(v):
    """The byte inside a ByteRegister/WideRegister/U4 value."""
    while v[0] == "a":
        v = v[1][0]
    return v[1]


def setcpu(I, st, obj, path, c):
    st.mem[obj] = I.write_path(I.load_obj(st, obj), path, c, 1)


def make_models(env):
    M = env.M

    def m_fetch(I, st, inst, args, site):
        o, p, c = cpu_of(M, I, st, args)
        c, r = env.do_fetch(I, st, c, site)
        setcpu(I, st, o, p, c)
        return st, r

    def m_read(I, st, inst, args, site):
        o, p, c = cpu_of(M, I, st, args)
        return st, env.do_read(I, st, c, args[1], site)

    def m_write(I, st, inst, args, site):
        o, p, c = cpu_of(M, I, st, args)
        return st, env.do_write(I, st, c, args[1], args[2], site)

    def m_rawr(I, st, inst, args, site):
        env.raw_sites.add(site)
        return st, env.do_rawr(I, st, args[1], site)

    def m_raww(I, st, inst, args, site):
        env.raw_sites.add(site)
        return st, env.do_raww(I, st, args[1], args[2], site)

    def m_read_br(I, st, inst, args, site):
        r = reg_bits(args[1])
        if to_int(r) is not None or not env.coarse:
            return NotImplemented
        p = I.as_ptr(st, args[0])
        if len(p[1]) != 1:
            return NotImplemented
        (g, (o, pa)), = p[1]
        c = I.read_path(I.load_obj(st, o), pa)
        if B.and_(st.g, B.not_(eqc(r[4:], 0))):
            return NotImplemented
        return st, env.reg_read("rb", r, c, st.g, 8)

    def m_read_wr(I, st, inst, args, site):
        r = reg_bits(args[1])
        if to_int(r) is not None or not env.coarse:
            return NotImplemented
        p = I.as_ptr(st, args[0])
        if len(p[1]) != 1:
            return NotImplemented
        (g, (o, pa)), = p[1]
        c = I.read_path(I.load_obj(st, o), pa)
        if B.and_(st.g, B.not_(eqc(r[4:], 0))):
            return NotImplemented
        bad = B.and_(M.get(c, "user_mode")[1][0], B.and_(B.and_(r[3], r[2]), r[1]))
        v = env.reg_read("rw", r, c, st.g, 16)
        return st, ("e", (bad,), ((v,), (M.trapval("IllegalOperation"),)))

    return {
        CTX + "::fetch": m_fetch,
        CTX + "::read": m_read,
        CTX + "::write": m_write,
        BLF4 + "::read_br": m_read_br,
        BLF4 + "::read_wr": m_read_wr,
        "<dyn telda2::mem::MainMemory as telda2::mem::MainMemory>::read": m_rawr,
        "<dyn telda2::mem::MainMemory as telda2::mem::MainMemory>::write": m_raww,
        "<vharness::AnyMem as telda2::mem::MainMemory>::read": m_rawr,
        "<vharness::AnyMem as telda2::mem::MainMemory>::write": m_raww,
    }


# ---------------------------------------------------------------- specification
class Spec:
    """A structured abstract program in the same domain."""

    def __init__(self, env, I, st):
        self.env = env
        self.M = env.M
        self.I = I
        self.st = st
        self.exits = []      # (State, trap code value)

    # register file
    def c(self):
        return self.st.mem[CPUOBJ]

    def get(self, n):
        return self.M.get(self.c(), n)[1]

    def flag(self, n):
        return self.M.get(self.c(), n)[1][0]

    def put(self, n, bits):
        self.st.mem[CPUOBJ] = self.M.put(self.c(), n, ("b", tuple(bits)))

    def setf(self, n, node):
        self.put(n, (node,))

    def alive(self):
        return self.st is not None

    def trap(self, cond, code):
        """Where cond holds the instruction ends with the given code."""
        if self.st is None:
            return
        bad = self.st.fork(cond)
        if bad is not None:
            self.exits.append((bad, code if isinstance(code, tuple) else self.M.trapval(code)))
        self.st = self.st.fork(B.not_(cond))

    def tryv(self, r):
        """Propagate the error of a Result; its Ok payload otherwise."""
        self.trap(r[1][0], r[2][1][0])
        return r[2][0][0]

    # interactions (each may end the instruction)
    def fetch(self):
        if not self.alive():
            return const(0, 8)
        c, r = self.env.do_fetch(self.I, self.st, self.c())
        self.st.mem[CPUOBJ] = c
        return self.tryv(r)[1]

    def fetchw(self):
        lo = self.fetch()
        hi = self.fetch()
        return tuple(lo) + tuple(hi)

    def pair(self):
        b = self.fetch()
        return zext(b[4:], 8), zext(b[:4], 8)

    def read(self, addr):
        if not self.alive():
            return const(0, 8)
        return self.tryv(self.env.do_read(self.I, self.st, self.c(), ("b", addr)))[1]

    def readw(self, addr):
        lo = self.read(addr)
        hi = self.read(bdd.add(addr, const(1, 16))[0])
        return tuple(lo) + tuple(hi)

    def write(self, addr, v):
        if not self.alive():
            return
        self.tryv(self.env.do_write(self.I, self.st, self.c(), ("b", addr), ("b", v)))

    def writew(self, addr, v):
        self.write(addr, v[:8])
        self.write(bdd.add(addr, const(1, 16))[0], v[8:])

    # registers
    def rb(self, r):
        if not self.alive():
            return const(0, 8)
        n = to_int(r)
        if n is None and self.env.coarse:
            return self.env.reg_read("rb", r, self.c(), self.st.g, 8)[1]
        return rd_b(self.M, self.c(), r)

    def rw(self, r):
        if not self.alive():
            return const(0, 16)
        priv = B.and_(self.flag("user_mode"), B.and_(B.and_(r[3], r[2]), r[1]))
        n = to_int(r)
        if n is None and self.env.coarse:
            v = self.env.reg_read("rw", r, self.c(), self.st.g, 16)[1]
        else:
            v = rd_w(self.M, self.c(), r)
        self.trap(priv, "IllegalOperation")
        return v

    def wb(self, r, v):
        if self.alive():
            self.st.mem[CPUOBJ] = wr_b(self.M, self.c(), r, v)

    def ww(self, r, v):
        if not self.alive():
            return
        priv = B.and_(self.flag("user_mode"), B.and_(B.and_(r[3], r[2]), r[1]))
        self.trap(priv, "IllegalOperation")
        if self.alive():
            self.st.mem[CPUOBJ] = wr_w(self.M, self.c(), r, v)

    # stack
    def pushw(self, v):
        if not self.alive():
            return
        s = bdd.sub(self.get("stack"), const(2, 16))[0]
        self.put("stack", s)
        self.writew(s, v)

    def pushb(self, v):
        if not self.alive():
            return
        s = bdd.sub(self.get("stack"), const(1, 16))[0]
        self.put("stack", s)
        self.write(s, v)

    def popw(self):
        if not self.alive():
            return const(0, 16)
        s = self.get("stack")
        v = self.readw(s)
        if self.alive():
            self.put("stack", bdd.add(s, const(2, 16))[0])
        return v

    def popb(self):
        if not self.alive():
            return const(0, 8)
        s = self.get("stack")
        v = self.read(s)
        if self.alive():
            self.put("stack", bdd.add(s, const(1, 16))[0])
        return v

    def flagsword(self, c=None):
        c = c if c is not None else self.c()
        return tuple(self.M.get(c, n)[1][0] for n in FLAGBITS) + (0,) * 8


def rd_b(M, c, r):
    gp = M.get(c, "general_purposes")[1]
    res = const(0, 8)
    for n in range(1, 16):
        i = n - 1 if n <= 10 else 10 + 2 * (n - 11)
        res = vite(eqc(r, n), gp[i][1], res)
    return res


def rd_w(M, c, r):
    gp = M.get(c, "general_purposes")[1]
    res = const(0, 16)
    for n in range(1, 11):
        res = vite(eqc(r, n), gp[2 * (n - 1)][1] + gp[2 * (n - 1) + 1][1], res)
    for n, f in ((11, "stack"), (12, "link"), (13, "frame"), (14, "page"), (15, "trap_handler")):
        res = vite(eqc(r, n), M.get(c, f)[1], res)
    return res


def wr_b(M, c, r, v):
    gp = list(M.get(c, "general_purposes")[1])
    for n in range(1, 11):
        gp[n - 1] = ("b", vite(eqc(r, n), v, gp[n - 1][1]))
    for n in range(11, 16):
        k = eqc(r, n)
        i = 10 + 2 * (n - 11)
        gp[i] = ("b", vite(k, v, gp[i][1]))
        gp[i + 1] = ("b", vite(k, const(0, 8), gp[i + 1][1]))
    return M.put(c, "general_purposes", ("a", tuple(gp)))


def wr_w(M, c, r, v):
    gp = list(M.get(c, "general_purposes")[1])
    for n in range(1, 11):
        k = eqc(r, n)
        i = 2 * (n - 1)
        gp[i] = ("b", vite(k, v[:8], gp[i][1]))
        gp[i + 1] = ("b", vite(k, v[8:], gp[i + 1][1]))
    c = M.put(c, "general_purposes", ("a", tuple(gp)))
    for n, f in ((11, "stack"), (12, "link"), (13, "frame"), (14, "page"), (15, "trap_handler")):
        c = M.put(c, f, ("b", vite(eqc(r, n), v, M.get(c, f)[1])))
    return c


def nz(v):
    return B.not_(eqc(v, 0))


def spec_instruction(s, name):
    """The documented effect of one instruction after its opcode byte."""
    byte = name.endswith("_b")
    w = 8 if byte else 16
    R = s.rb if byte else s.rw
    W = s.wb if byte else s.ww

    def need_zero(z):
        s.trap(nz(z), "Invalid")

    if name in ("halt", "syscall"):
        s.trap(1, "Halt" if name == "halt" else "SysCall")
    elif name is None or name == "undefined":
        s.trap(1, "Invalid")
    elif name == "ctf":
        s.setf("trap", 0)
    elif name == "reth":
        s.trap(B.not_(s.flag("trap")), "IllegalHandlerReturn")
        for r in range(15, 0, -1):
            v = s.popw()
            s.ww(const(r, 8), v)
        f = s.popw()
        pc = s.popw()
        if s.alive():
            s.put("program_counter", pc)
            for i, n in enumerate(FLAGBITS):
                s.setf(n, f[i])
            s.setf("trap", 0)
    elif name in ("usr", "vmon", "vmoff"):
        s.trap(s.flag("user_mode"), "IllegalOperation")
        if s.alive():
            s.setf({"usr": "user_mode", "vmon": "virtual_mode", "vmoff": "virtual_mode"}[name], int(name != "vmoff"))
    elif name == "pstore":
        s.trap(s.flag("user_mode"), "IllegalOperation")
        b1, wr = s.pair()
        b2, z = s.pair()
        need_zero(z)
        hi = s.rb(b1)
        lo = s.rw(wr)
        v = s.rb(b2)
        if s.alive():
            s.env.do_raww(s.I, s.st, ("b", lo + hi + const(0, 8)), ("b", v))
    elif name == "pload":
        s.trap(s.flag("user_mode"), "IllegalOperation")
        b1, b2 = s.pair()
        wr, z = s.pair()
        need_zero(z)
        hi = s.rb(b2)
        lo = s.rw(wr)
        if s.alive():
            v = s.env.do_rawr(s.I, s.st, ("b", lo + hi + const(0, 8)))
            s.wb(b1, v[1])
    elif name == "nop":
        pass
    elif name.startswith("push_"):
        r, z = s.pair()
        v = R(r)
        need_zero(z)
        (s.pushb if byte else s.pushw)(v)
    elif name.startswith("pop_"):
        r, z = s.pair()
        need_zero(z)
        v = (s.popb if byte else s.popw)()
        W(r, v)
    elif name == "call":
        t = s.fetchw()
        if s.alive():
            s.put("link", s.get("program_counter"))
            s.put("program_counter", t)
    elif name == "ret":
        n = s.fetch()
        if s.alive():
            s.put("stack", bdd.add(s.get("stack"), zext(n, 16))[0])
            s.put("program_counter", s.get("link"))
    elif name.startswith("store_") or name.startswith("load_"):
        ld = name.startswith("load_")
        byte = name[-2] == "b"
        imm = name[-1] == "i"
        r1, r2 = s.pair()
        if imm:
            off = s.fetchw()
            base, val = (r2, r1) if ld else (r1, r2)
        else:
            r3, z = s.pair()
            need_zero(z)
            base, oreg, val = (r2, r3, r1) if ld else (r1, r2, r3)
            off = s.rw(oreg)
        b = s.rw(base)
        addr = bdd.add(b, off)[0]
        if ld:
            v = (s.read if byte else s.readw)(addr)
            (s.wb if byte else s.ww)(val, v)
        else:
            v = (s.rb if byte else s.rw)(val)
            (s.write if byte else s.writew)(addr, v)
    elif name[0] == "j":
        t = s.fetchw()
        if s.alive():
            z, o, sg, cy = (s.flag(x) for x in ("zero", "overflow", "sign", "carry"))
            lt = B.xor(sg, o)
            cond = {"jez": z, "jnz": B.not_(z), "jlt": lt, "jge": B.not_(lt),
                    "jle": B.and_(lt, z),
                    "jgt": B.and_(B.not_(lt), B.not_(z)), "jo": o, "jno": B.not_(o),
                    "ja": B.and_(B.not_(cy), B.not_(z)), "jae": B.not_(cy), "jb": cy, "jbe": B.or_(cy, z)}[name]
            s.put("program_counter", vite(cond, t, s.get("program_counter")))
    elif name == "ldi_b":
        r, z = s.pair()
        need_zero(z)
        s.wb(r, s.fetch())
    elif name == "ldi_w":
        r, o = s.pair()
        v = s.fetchw()
        s.trap(B.not_(B.or_(eqc(o, 0), eqc(o, 1))), "Invalid")
        if s.alive():
            st = s.st
            ld = st.fork(eqc(o, 0))
            jp = st.fork(eqc(o, 1))
            s.st = ld
            s.ww(r, v)
            a = s.st
            s.st = jp
            if jp is not None:
                rv = s.rw(r)
                if s.alive():
                    s.put("program_counter", vite(eqc(r, 0), v, rv))
            s.st = join(a, s.st)
    elif name[:3] in ("add", "sub", "and", "xor", "shl", "asr", "lsr") or name.startswith("or_"):
        op = name[:-2]
        d, a = s.pair()
        b, z = s.pair()
        x = R(a)
        y = R(b)
        need_zero(z)
        if not s.alive():
            return
        n = 3 if byte else 4
        carry = ovf = 0
        if op == "add":
            res, carry = bdd.add(x, y)
            ovf = B.and_(B.not_(B.xor(x[-1], y[-1])), B.xor(x[-1], res[-1]))
        elif op == "sub":
            res, carry = bdd.sub(x, y)
            ovf = B.and_(B.xor(x[-1], y[-1]), B.xor(x[-1], res[-1]))
        elif op == "and":
            res = bdd.vand(x, y)
        elif op == "or":
            res = bdd.vor(x, y)
        elif op == "xor":
            res = bdd.vxor(x, y)
        else:
            res = bdd.shift(x, y[:n], {"shl": "shl", "asr": "sar", "lsr": "shr"}[op])
        s.setf("carry", carry)
        s.setf("overflow", ovf)
        s.setf("sign", res[-1])
        s.setf("zero", eqc(res, 0))
        W(d, res)
    elif name.startswith("mul_"):
        r1, r2 = s.pair()
        r3, r4 = s.pair()
        x = R(r3)
        y = R(r4)
        if not s.alive():
            return
        p = bdd.mul(zext(x, 2 * w), zext(y, 2 * w))
        lo, hi = p[:w], p[w:]
        s.setf("carry", nz(hi))
        s.setf("overflow", nz(hi))
        s.setf("zero", eqc(lo, 0))
        s.setf("sign", lo[-1])
        W(r1, hi)
        W(r2, lo)
    elif name.startswith("div_"):
        r1, r2 = s.pair()
        r3, r4 = s.pair()
        x = R(r3)
        y = R(r4)
        s.trap(eqc(y, 0), "ZeroDiv")
        if not s.alive():
            return
        q, r = bdd.udivrem(x, y)
        W(r1, q)
        W(r2, r)
    else:
        raise Unsupported(name)


def spec_execute(env, I, st, name):
    """Returns (notrap State|None, trap (State, code)|None, final State, Result value, info)."""
    M = env.M
    s = Spec(env, I, st)
    s.fetch()
    if s.alive():
        spec_instruction(s, name)
    ok = s.st
    okg = ok.g if ok is not None else 0
    tr, code = None, None
    for e, cv in s.exits:
        if tr is None:
            tr, code = e, cv
        else:
            j = join(tr, e)
            code = merge(B.restrict(tr.g, j.g), code, cv)
            tr = j
    trg = tr.g if tr is not None else 0
    info = {"ok": okg, "trap": trg, "code": code, "pre": dict(tr.mem)[CPUOBJ] if tr is not None else None,
            "trap_tr": tr.tr if tr is not None else None, "exits": [(e.g, c) for e, c in s.exits]}
    finals = []
    if ok is not None:
        finals.append((ok, ("e", (0,), ((UNIT,), None))))
    if tr is not None:
        c0 = tr.mem[CPUOBJ]
        s.st = tr
        s.exits = []
        s.setf("trap", 1)
        s.setf("user_mode", 0)
        th = s.get("trap_handler")
        s.trap(eqc(th, 0), code)
        if s.alive():
            s.pushw(s.get("program_counter"))
            s.pushw(s.flagsword(c0))
            for r in range(1, 16):
                s.pushw(rd_w(M, s.c(), const(r, 8))) if s.alive() else None
            if s.alive():
                s.put("program_counter", s.get("trap_handler"))
                s.ww(const(1, 8), zext(M.code(code), 16))
        if s.alive():
            info["delivered"] = s.st.g
            finals.append((s.st, ("e", (0,), ((UNIT,), None))))
        for e, cv in s.exits:
            finals.append((e, ("e", (1,), (None, (cv,)))))
    acc, av = None, None
    for e, v in finals:
        if acc is None:
            acc, av = e, v
        else:
            j = join(acc, e)
            av = merge(B.restrict(acc.g, j.g), av, v)
            acc = j
    return acc, av, info


# ------------------------------------------------------------------- comparison
class Diff:
    def __init__(self, cond, what, sites=()):
        self.cond = cond
        self.what = what
        self.sites = sorted(sites) if sites else []


def diff_vals(cond, x, y):
    return B.and_(cond, B.not_(eq_under(x, y)))


def eq_under(x, y):
    if x == y:
        return 1
    if x[0] == "b" and y[0] == "b" and len(x[1]) == len(y[1]):
        return eq(x[1], y[1])
    if x[0] == "a" and y[0] == "a" and len(x[1]) == len(y[1]):
        r = 1
        for p, q in zip(x[1], y[1]):
            r = B.and_(r, eq_under(p, q))
            if r == 0:
                return 0
        return r
    return 0


def diff_trace(I, cond, a, b, out, what="interaction"):
    """a: code trace, b: specified trace (both guarded)."""
    for k in range(max(len(a.slots), len(b.slots))):
        x = a.slots[k] if k < len(a.slots) else {}
        y = b.slots[k] if k < len(b.slots) else {}
        for kind in sorted(set(x) | set(y)):
            g, ar, si = x.get(kind, (0, None, frozenset()))
            h, br, _ = y.get(kind, (0, None, frozenset()))
            e = B.and_(cond, B.and_(g, B.not_(h)))
            if e:
                out.append(Diff(e, f"{what} {k}: {kind} is performed but not specified", si))
            e = B.and_(cond, B.and_(h, B.not_(g)))
            if e:
                out.append(Diff(e, f"{what} {k}: {kind} is specified but not performed", si))
            both = B.and_(cond, B.and_(g, h))
            if both:
                for i, (p, q) in enumerate(zip(ar, br)):
                    e = diff_vals(both, p, q)
                    if e:
                        nm = (["address", "translation table", "address mode", "privilege"] if kind in ("fetch", "read")
                              else ["address", "value", "translation table", "address mode", "privilege"])[i]
                        out.append(Diff(e, f"{what} {k}: {kind} with another {nm} than specified", si))


def diff_cpu(M, cond, a, b, out, skip=(), writers=None):
    for n in M.fld:
        if n == "flags":
            for f in FLAGBITS:
                if f in skip:
                    continue
                e = diff_vals(cond, M.get(a, f), M.get(b, f))
                if e:
                    out.append(Diff(e, f"flag {f} differs from its specified value"))
            continue
        if n in skip:
            continue
        x, y = M.get(a, n), M.get(b, n)
        if n == "general_purposes":
            for i, (p, q) in enumerate(zip(x[1], y[1])):
                e = diff_vals(cond, p, q)
                if e:
                    out.append(Diff(e, f"{'low' if i % 2 == 0 else 'high'} byte of r{i // 2 + 1} differs from its specified value"))
            continue
        e = diff_vals(cond, x, y)
        if e:
            out.append(Diff(e, f"register {n} differs from its specified value"))


def is_err(v):
    """(condition under which a Result value is Err, its trap payload)"""
    return v[1][0], (v[2][1][0] if v[2][1] else None)


def run_execute(facts, env, opcond=1, th0=None, um=None, unroll=400):
    """Abstractly execute one instruction; returns everything observed."""
    M = env.M
    I = Interp(facts, make_models(env), unroll=unroll)
    I.watch = {CPUOBJ}
    st = State(opcond, {}, Trace())
    I.objty[CPUOBJ] = M.t_cpu
    c0 = I.fresh(M.t_cpu, "cpu")
    if th0 is not None:
        c0 = M.put(c0, "trap_handler", bv(th0, 16)) if th0 == 0 else c0
        if th0 != 0:
            st.g = B.and_(st.g, B.not_(eqc(M.get(c0, "trap_handler")[1], 0)))
    if um is not None:
        c0 = M.put(c0, "user_mode", boolv(um))
    st.mem[CPUOBJ] = c0
    key = facts.find(EXEC)
    mem = ("S", "mem")
    body = facts.insts[key]["body"]
    I.objty[mem] = facts.tys[body["locals"][2]]["e"]
    args = [("p", ((1, (CPUOBJ, ())),), None), ("p", ((1, (mem, ())),), None)]
    g0 = st.g
    fs, rv = I.call(st, key, args)
    return I, g0, c0, fs, rv


def run_spec(env, I, g0, c0, name):
    st = State(g0, {CPUOBJ: c0}, Trace())
    return spec_execute(env, I, st, name)
