"""Properties of the disassembler."""
from pool import pmap
from facts import MissingAnchor
from interp import Interp, State, Trace, bv
import disasm
import text


def results(ctx):
    return pmap(disasm.analyse(ctx.lib()), list(range(256)))


WHERE = [("telda2::disassemble::disassemble_instruction", "src/disassemble.rs", 0)]
BNAMES = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"]
WNAMES = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"]
KINDS = (("telda2::blf4::ByteRegister", BNAMES), ("telda2::blf4::WideRegister", WNAMES))


def emit(rep, rs, *kinds):
    for op, o in rs:
        rep.count("opcodes_analysed")
        rep.count("text_alternatives_compared", o["alts"])
        rep.count("basic_blocks_analysed", o["blocks"])
        for kind in kinds:
            for what, w in o[kind]:
                rep.finding(f"{kind}:{op:02x}:{what}", f"opcode {op:#04x}: {what}", WHERE, w)
        if "pure" in kinds:
            for site, what, w in o["panics"]:
                rep.finding(f"panic:{op:02x}:{what}", f"disassembling opcode {op:#04x} panics ({what})", [tuple(site)], w)


def register_names(F, rep):
    """The Display text of each of the 16 registers of both widths."""
    for tn, names in KINDS:
        t = F.ty_named(tn)
        key = [k for k, i in F.insts.items() if i["nm"] == f"<{tn} as std::fmt::Display>::fmt" and i.get("body")]
        if len(key) != 1:
            raise MissingAnchor(f"Display of {tn}")
        for n, want in enumerate(names):
            I = Interp(F)
            text.install(I)
            st = State(1, {}, Trace())
            v = I.fresh(t, "reg")
            x = bv(n, 8)
            d = v
            while d[0] == "a":
                d = d[1][0]
                x = ("a", (x,))
            st.mem[("H", "r")] = x
            st.mem[("H", "sink")] = text.txt()
            P = lambda o: ("p", ((1, (("H", o), ())),), None)
            fs, rv = I.call(st, key[0], [P("r"), P("sink")])
            rep.count("register_names_compared")
            got = None
            if fs is not None:
                al = [text_of(a) for g, a in text.alts(fs.mem[("H", "sink")]) if g]
                got = al[0] if len(al) == 1 else None
            if got != want:
                rep.finding(f"name:{tn}:{n}", f"register {n} of {tn} is shown as {got!r} instead of {want!r}",
                            [(F.insts[key[0]]["nm"], "src/blf4/register_type.rs", 0)])


def text_of(pieces):
    import bdd
    s = ""
    for p in pieces:
        if p[0] == "l":
            s += p[1]
        elif p[0] == "f" and p[1] == "display" and p[4][0] == "b" and bdd.to_int(p[4][1]) is not None:
            s += str(bdd.to_int(p[4][1]))
        else:
            return None
    return s


def C17(ctx, rep):
    rs = results(ctx)
    emit(rep, rs, "loc", "pure")
    rep.assumptions.append("strings are shorter than 2^48 bytes")
    return ("Per opcode byte (256): disassemble_instruction is interpreted on an unknown machine whose instruction fetches may "
            "fail at any byte. Compared: success and failure code with the fetch outcomes, next location with the instruction's "
            "length, call-nesting change and end-of-block with the instruction table, and the whole register file afterwards with "
            "the one before; any memory access other than fetching, and any panic, is reported.")


def C18(ctx, rep):
    F = ctx.lib()
    rs = results(ctx)
    emit(rep, rs, "txt")
    register_names(F, rep)
    return ("Per opcode byte: the formatted text, kept as literal pieces and formatted values by interpreting the formatting "
            "calls (templates decoded from the compiled constants, Display of local types interpreted), must show the "
            "address, exactly the instruction's bytes and the instruction table's mnemonic and operands over the unknown "
            "operand bytes; a wide operand is a label exactly when the lookup of that value answers. Per register number the "
            "Display text must be the documented name.")


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    from extract import Ctx
    print(disasm.analyse(Ctx().lib())(int(sys.argv[1], 16)))
