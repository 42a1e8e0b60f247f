"""The assembler's instruction encoder: mnemonic and operand list to bytes."""
import re
import bdd
import rt
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import (Interp, State, Trace, join, merge, bv, boolv, clog2, U, UNIT, Unsupported, atom)
from facts import MissingAnchor
import natives
from cpu import same_under

# operand classes: B byte register, W wide register, b byte immediate, w wide immediate
# layout: "01" registers 0,1 in one byte (most significant first), "-" a zero
# nibble, "b0"/"w1" little-endian immediate of operand 0/1
FORMS = {
    "null": [(0x00, "", [])], "halt": [(0x0a, "", [])], "ctf": [(0x0b, "", [])], "syscall": [(0x0c, "", [])],
    "reth": [(0x0d, "", [])], "nop": [(0x20, "", [])],
    "push": [(0x21, "B", ["0-"]), (0x22, "W", ["0-"])],
    "pop": [(0x23, "B", ["0-"]), (0x24, "W", ["0-"])],
    "call": [(0x25, "w", ["w0"])],
    "ret": [(0x26, "", ["00"]), (0x26, "b", ["b0"])],
    "store": [(0x27, "WwB", ["02", "w1"]), (0x28, "WwW", ["02", "w1"]), (0x29, "WWB", ["01", "2-"]),
              (0x2a, "WWW", ["01", "2-"])],
    "load": [(0x2b, "BWw", ["01", "w2"]), (0x2c, "WWw", ["01", "w2"]), (0x2d, "BWW", ["01", "2-"]),
             (0x2e, "WWW", ["01", "2-"])],
    "ldi": [(0x3f, "Bb", ["0-", "b1"]), (0x40, "Ww", ["0-", "w1"])],
    "jmp": [(0x40, "w", ["k01", "w0"]), (0x40, "W", ["01r", "k00", "k00"])],
    "div": [(0x51, "BBBB", ["01", "23"]), (0x52, "WWWW", ["01", "23"])],
    "mul": [(0x53, "BBBB", ["01", "23"]), (0x54, "WWWW", ["01", "23"])],
}
FORMS["ret"][0] = (0x26, "", ["k00"])
for _m, _o in (("jez", 0x2f), ("jlt", 0x30), ("jle", 0x31), ("jgt", 0x32), ("jge", 0x33), ("jnz", 0x34), ("jo", 0x35),
               ("jno", 0x36), ("ja", 0x37), ("jae", 0x38), ("jb", 0x39), ("jbe", 0x3a)):
    FORMS[_m] = [(_o, "w", ["w0"])]
for _m, _o in (("add", 0x41), ("sub", 0x43), ("and", 0x45), ("or", 0x47), ("xor", 0x49), ("shl", 0x4b), ("asr", 0x4d),
               ("lsr", 0x4f)):
    FORMS[_m] = [(_o, "BBB", ["01", "2-"]), (_o + 1, "WWW", ["01", "2-"])]
ALIASES = {"str": "store", "jne": "jnz", "jc": "jb", "jnc": "jae", "jump": "jmp"}
for _a, _m in ALIASES.items():
    FORMS[_a] = FORMS[_m]


class Asm:
    def __init__(self, F):
        self.F = F
        self.T = F.tys
        self.parse = find_fn(F, "telda2::source::parse_ins",
                             ["&str", "std::vec::Vec<telda2::source::SourceOperand>",
                              "&mut telda2::source::symbols::Symbols", "telda2::source::SourceLocation"])
        c = [k for k, i in F.insts.items() if i["def"] == "telda2::source::write_data_operand" and i.get("body")]
        if not c:
            raise MissingAnchor("write_data_operand")
        self.write = c[0]
        self.t_op = F.ty_named("telda2::source::SourceOperand")
        self.t_dat = F.ty_named("telda2::source::DataOperand")
        self.ov = {v["name"]: i for i, v in enumerate(self.T[self.t_op]["v"])}
        for n in ("Byte", "Wide", "Number", "ByteReg", "WideReg", "Label"):
            if n not in self.ov:
                raise MissingAnchor(f"operand kind {n}")

    def size_fn(self):
        return find_fn(self.F, "telda2::source::DataOperand::size", ["&telda2::source::DataOperand"])


def find_fn(F, name, sig):
    """By name, or else the one function of that module with this signature."""
    k = F.maybe(name)
    if k is not None and F.insts[k].get("body"):
        return k
    mod = name.rsplit("::", 1)[0]
    hit = []
    for k, i in F.insts.items():
        b = i.get("body")
        if b and i["def"].startswith(mod.split("::")[0]) and b["argc"] == len(sig) and \
                [F.tys[t]["s"] for t in b["locals"][1:b["argc"] + 1]] == sig:
            hit.append(k)
    if len(hit) != 1:
        raise MissingAnchor(f"{name} ({len(hit)} candidates)")
    return hit[0]


def reg_bits(v):
    while v[0] == "a":
        v = v[1][0]
    return v[1]


def interp(F):
    I = Interp(F)
    # vectors the code makes itself; those of operands and bytes are the harness's
    rt.install_vec(I)
    for n in [n for n in I.models if re.search(r"Vec(::)?<(u8|telda2::source::SourceOperand)>", n)]:
        del I.models[n]

    def streq(I, st, inst, args, site):
        a, b = I.const_str(args[0]), I.const_str(args[1])
        if a is None or b is None:
            return NotImplemented
        return st, boolv(int(a == b))
    I.models["core::str::traits::<impl std::cmp::PartialEq for str>::eq"] = streq

    def deref_str(I, st, inst, args, site):
        ts = []
        m = None
        for g, (o, p) in I.as_ptr(st, args[0])[1]:
            obj = ("S", f"str({o[1]},{spath(p)})")
            I.objty[obj] = I.F.ty_named("str")
            ts.append((g, (obj, (("s", const(0, 64)),))))
            ln = ("b", fresh(obj[1] + ".len", 64))
            m = ln if m is None else merge(g, ln, m)
        return st, ("p", tuple(ts), m)
    for n in ("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str"):
        I.models[n] = deref_str

    def get_label(I, st, inst, args, site):
        r = None
        for g, (o, p) in I.as_ptr(st, args[1])[1]:
            v = ("b", fresh(f"id:{o[1]}", 64))
            r = v if r is None else merge(g, v, r)
        return st, r
    for k, i in F.insts.items():
        n = i["nm"]
        if n.endswith("Symbols::get_label"):
            I.models[n] = get_label
        if n.startswith("<telda2::source::SourceLocation as std::clone::Clone>"):
            I.models[n] = lambda I, st, inst, args, site: (st, atom("loc"))
        if n.startswith("<std::vec::Vec<telda2::source::SourceOperand> as std::ops::Deref>::deref") or \
                n.startswith("std::vec::Vec::<telda2::source::SourceOperand>::as_slice"):
            I.models[n] = lambda I, st, inst, args, site: (st, st.mem[("H", "ops*")])
        if n == "std::vec::Vec::<u8>::push":
            I.models[n] = push
        if n in ("std::vec::Vec::<u8>::extend_from_slice",):
            I.models[n] = extend
        if n == "std::vec::Vec::<u8>::len":
            I.models[n] = lambda I, st, inst, args, site: (st, st.mem[("H", "memlen")])
        if i["def"].endswith("any_label"):
            I.models[n] = label
    return I


def spath(p):
    return ".".join(str(x) for x in p)


def put(I, st, b, site):
    I.emit(st, "byte", (b,), None, site)
    n = st.mem[("H", "memlen")]
    st.mem[("H", "memlen")] = ("b", bdd.add(n[1], const(1, 64))[0])


def push(I, st, inst, args, site):
    put(I, st, args[1], site)
    return st, UNIT


def extend(I, st, inst, args, site):
    n = to_int(args[1][2][1])
    if n is None or n > 64:
        raise Unsupported("extend_from_slice of unknown length")
    for i in range(n):
        v = I.read_targets(st, [(g, o, I.idx(p, const(i, 64))) for g, (o, p) in args[1][1]])
        put(I, st, v, site)
    return st, UNIT


def label(I, st, inst, args, site):
    """A use of label id: recorded, and its address returned."""
    idv, lr = args
    for g0, b0, v in IDS:
        if same_under(st.g, b0, idv[1]):
            break
    else:
        v = addr_of(idv[1])
    m = st.mem
    m[("H", "use_n")] = ("b", bdd.add(m[("H", "use_n")][1], const(1, 8))[0])
    m[("H", "use_id")] = idv
    m[("H", "use_rec")] = lr
    return st, ("b", v)


IDS = []


def addr_of(idbits):
    for g, b, v in IDS:
        if b == idbits:
            return v
    v = fresh(f"address_of_label#{len(IDS)}", 16)
    IDS.append((1, idbits, v))
    return v


def label_id(A, i):
    return fresh(f"id:str(ops,{i}.{('v', A.ov['Label'], 0)})", 64)


def operands(A, I, n):
    ops = [I.fresh(A.t_op, f"op{i}") for i in range(n)]
    return ops


def care(A, ops):
    """Well-formed operand values: existing kinds, 16 registers."""
    c = 1
    for v in ops:
        nv = len(A.T[A.t_op]["v"])
        c = B.and_(c, bdd.ult(v[1], const(nv, len(v[1]))) if nv < 1 << len(v[1]) else 1)
        for k in ("ByteReg", "WideReg"):
            r = reg_bits(v[2][A.ov[k]][0])
            c = B.and_(c, eqc(r[4:], 0)) if len(r) > 4 else c
    return c


def kind(A, v, *names):
    c = 0
    for n in names:
        c = B.or_(c, eqc(v[1], A.ov[n]))
    return c


def match(A, sig, ops, mnem, op):
    if len(sig) != len(ops):
        return 0
    c = 1
    for s, v in zip(sig, ops):
        c = B.and_(c, {"B": lambda: kind(A, v, "ByteReg"), "W": lambda: kind(A, v, "WideReg"),
                       "b": lambda: kind(A, v, "Number", "Byte"),
                       "w": lambda: kind(A, v, "Number", "Wide", "Label")}[s]())
    if mnem in ("jmp", "jump") and sig == "W":
        c = B.and_(c, B.not_(eqc(reg_bits(ops[0][2][A.ov["WideReg"]][0])[:4], 0)))
    return c


def nib(A, sig, ops, ch):
    if ch == "-":
        return const(0, 4)
    i = int(ch)
    k = "ByteReg" if sig[i] == "B" else "WideReg"
    return reg_bits(ops[i][2][A.ov[k]][0])[:4]


def layout(A, sig, lay, ops):
    """[byte bits or ("label", id)] of the operand bytes."""
    out = []
    for x in lay:
        if x[0] == "k":
            out.append(const(int(x[1:], 16), 8))
        elif x == "01r":
            out.append(const(1, 4) + nib(A, sig, ops, "0"))
        elif x[0] in "b":
            v = ops[int(x[1])]
            num, by = v[2][A.ov["Number"]][0][1][:8], v[2][A.ov["Byte"]][0][1]
            out.append(vite(kind(A, v, "Number"), num, by))
        elif x[0] == "w":
            i = int(x[1])
            v = ops[i]
            num, wi = v[2][A.ov["Number"]][0][1][:16], v[2][A.ov["Wide"]][0][1]
            lab = addr_of(label_id(A, i))
            w = vite(kind(A, v, "Number"), num, vite(kind(A, v, "Wide"), wi, lab))
            out += [w[:8], w[8:]]
        else:
            hi, lo = nib(A, sig, ops, x[0]), nib(A, sig, ops, x[1])
            out.append(lo + hi)
    return out
