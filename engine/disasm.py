"""The disassembler: what it prints and reports for each opcode."""
import re
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, zext
from interp import Interp, State, Trace, bv, boolv, UNIT, U, Unsupported, atom, clog2
from facts import MissingAnchor
from report import words
import cpu
import text
import asm

# printed form: opcode -> (mnemonic, [operand]), operand = (class, byte, nibble) or (class, byte)
LEN = {}
PRINT = {}
for _m, _fs in asm.FORMS.items():
    if _m in asm.ALIASES or _m in ("jmp", "ldi", "ret", "null"):
        continue
    for _op, _sig, _lay in _fs:
        pos = {}
        off = 1
        for x in _lay:
            if x[0] in "bw":
                pos[int(x[1])] = off
                off += 2 if x[0] == "w" else 1
            else:
                for h, ch in enumerate(x):
                    if ch.isdigit():
                        pos[int(ch)] = (off, h)
                off += 1
        LEN[_op] = off
        PRINT[_op] = (_m, [(c, pos[i]) for i, c in enumerate(_sig)])
PRINT[0x26] = ("ret", [("b", 1)])
LEN[0x26] = 2
PRINT[0x3f] = ("ldi", [("B", (1, 0)), ("b", 2)])
LEN[0x3f] = 3
LEN[0x40] = 4
PRINT[0x00] = ("null", [])
LEN[0x00] = 1
for _o, _n in ((0x10, "usr"), (0x11, "vmon"), (0x12, "vmoff")):
    PRINT[_o] = (_n, [])
    LEN[_o] = 1
PRINT[0x13] = ("pstore", [("B", (1, 0)), ("W", (1, 1)), ("B", (2, 0))])
PRINT[0x14] = ("pload", [("B", (1, 0)), ("B", (1, 1)), ("W", (2, 0))])
LEN[0x13] = LEN[0x14] = 3
ENDS = {0x00, 0x0a, 0x0d, 0x26}
NEST = {0x25: 1, 0x26: -1}


def code_byte(op, i):
    return const(op, 8) if i == 0 else fresh(f"code{i}", 8)


def analyse(F):
    def run(op):
        M = cpu.Cpu(F)
        env = cpu.Env(M)
        models = cpu.make_models(env)
        I = Interp(F, models)
        text.install(I)
        key = None
        for k, i in F.insts.items():
            if i["def"] == "telda2::disassemble::disassemble_instruction" and i.get("body"):
                key = k
        if key is None:
            raise MissingAnchor("disassemble_instruction")
        t_mach = F.tys[F.insts[key]["body"]["locals"][1]]["e"]
        mach = ("S", "machine")
        I.objty[mach] = t_mach
        st = State(1, {}, Trace())
        m0 = I.fresh(t_mach, "machine")
        mf = [f[0] for f in F.tys[t_mach]["v"][0]["f"]]
        c0 = m0[1][mf.index("cpu")]
        st.mem[mach] = m0
        st.mem[("H", "lookups")] = bv(0, 8)
        st.mem[("H", "lookup_of")] = bv(0, 16)
        pc0 = M.get(c0, "program_counter")[1]
        obs = {}

        def fetch(I, st, inst, args, site):
            o, p, c = cpu.cpu_of(M, I, st, args)
            pc = M.get(c, "program_counter")[1]
            off = to_int(bdd.sub(pc, pc0)[0])
            if off is None:
                raise Unsupported("fetch from an address that is not a fixed distance from the instruction")
            obs.setdefault("fetch", {}).setdefault(off, 0)
            obs["fetch"][off] = B.or_(obs["fetch"][off], st.g)
            c = M.put(c, "program_counter", ("b", bdd.add(pc, const(1, 16))[0]))
            cpu.setcpu(I, st, o, p, c)
            return st, M.result(f"fetch{off}", ("b", code_byte(op, off)))
        I.models[cpu.CTX + "::fetch"] = fetch

        def lookup(I, st, inst, args, site):
            n = st.mem[("H", "lookups")]
            st.mem[("H", "lookups")] = ("b", bdd.add(n[1], const(1, 8))[0])
            st.mem[("H", "lookup_of")] = args[0]
            lbl = ("S", "label")
            I.objty[lbl] = F.ty_named("str")
            return st, ("e", (B.var("known", 0, 0),), ((), (("p", ((1, (lbl, (("s", const(0, 64)),))),),
                                                         ("b", fresh("labellen", 64))),)))
        for k, i in F.insts.items():
            if i["def"].endswith("any_lookup"):
                I.models[i["nm"]] = lookup
        ev = {}
        for n in (cpu.CTX + "::read", cpu.CTX + "::write", "<vharness::AnyMem as telda2::mem::MainMemory>::read",
                  "<vharness::AnyMem as telda2::mem::MainMemory>::write"):
            def touch(I, st, inst, args, site, n=n):
                ev[n] = (st.g, site)
                raise Unsupported(f"the disassembler accesses memory other than by fetching: {n}")
            I.models[n] = touch
        clos = I.fresh(F.insts[key]["body"]["locals"][2], "lookup")
        fs, rv = I.call(st, key, [("p", ((1, (mach, ())),), None), clos])
        return judge(F, M, I, op, fs, rv, mach, mf, c0, m0, pc0)
    return run


def tokens(pieces):
    """(normalised literal text with placeholders, [piece])."""
    s, vals = "", []
    for p in pieces:
        if p[0] == "l":
            s += p[1]
        else:
            s += f"\x00{len(vals)}\x01"
            vals.append(p)
    return re.sub(r"\s+", " ", s).strip(), vals


def judge(F, M, I, op, fs, rv, mach, mf, c0, m0, pc0):
    out = {"loc": [], "txt": [], "pure": [], "panics": [], "alts": 0, "blocks": I.blocks}
    for g, site, what, stack in I.panics:
        if g:
            out["panics"].append((list(site), what, words(B.witness(g))))
    n = LEN.get(op, 1)
    ok = 1
    codes = []
    for i in range(n):
        e = B.var(f"fetch{i}.err", 0, 0)
        codes.append((B.and_(ok, e), i))
        ok = B.and_(ok, B.not_(e))
    if fs is None:
        out["loc"].append(("never returns", {}))
        return out
    okc = eqc(rv[1], 0)

    def chk(kind, cond, what):
        cond = B.and_(cond, fs.g)
        if cond:
            out[kind].append((what, words(B.witness(cond))))
    chk("loc", B.and_(ok, B.not_(okc)), "fails although every byte of the instruction can be fetched")
    chk("loc", B.and_(B.not_(ok), okc), "succeeds although a byte of the instruction cannot be fetched")
    if rv[2][1]:
        err = rv[2][1][0]
        for c, i in codes:
            want = M.any_trap(f"fetch{i}.code")
            chk("loc", B.and_(B.and_(c, B.not_(okc)), B.not_(eq(err[1], want[1]))),
                "reports another fault than the one of the first byte that cannot be fetched")
    # machine state
    m1 = fs.mem[mach]
    c1 = m1[1][mf.index("cpu")]
    out_d = []
    cpu.diff_cpu(M, fs.g, c1, c0, out_d)
    for d in out_d:
        when = "when it fails" if not B.and_(d.cond, okc) else ""
        out["pure"].append((f"{d.what.replace('its specified value', 'its value before')} {when}".strip(), words(B.witness(d.cond))))
    good = B.and_(B.and_(ok, okc), fs.g)
    if not good or not rv[2][0]:
        return out
    r = rv[2][0][0]
    t = None
    body = F.insts[[k for k, i in F.insts.items() if i["def"] == "telda2::disassemble::disassemble_instruction" and i.get("body")][0]]["body"]
    rt = F.tys[F.tys[body["locals"][0]]["args"][0]]
    names = [f[0] for f in rt["v"][0]["f"]]
    for w in ("annotated_source", "ends_block", "nesting_difference", "next_instruction_location"):
        if w not in names:
            raise MissingAnchor(f"field {w}")
    get = lambda n: r[1][names.index(n)]
    nxt = bdd.add(pc0, const(n, 16))[0]
    chk("loc", B.and_(good, B.not_(eq(get("next_instruction_location")[1], nxt))),
        f"next instruction is not reported {n} bytes further")
    nest = get("nesting_difference")[1]
    chk("loc", B.and_(good, B.not_(eq(nest, const(NEST.get(op, 0) & 0xffffffff, 32)))),
        f"call nesting change is not {NEST.get(op, 0)}")
    ends = get("ends_block")[1][0]
    opt = fresh("code1", 8)[:4]
    r1 = fresh("code1", 8)[4:]
    defined = op in PRINT or op == 0x40
    if op == 0x40:
        chk("loc", B.and_(good, B.and_(eqc(opt, 0), ends)), "a load is reported to end the block")
        chk("loc", B.and_(good, B.and_(eqc(opt, 1), B.not_(ends))), "a jump is not reported to end the block")
    else:
        want = op in ENDS or not defined
        chk("loc", B.and_(good, B.not_(ends) if want else ends),
            "is not reported to end the block" if want else "is reported to end the block")
    # text
    known = B.var("known", 0, 0)
    for g, pieces in text.alts(get("annotated_source")):
        g = B.and_(good, g)
        if not g:
            continue
        out["alts"] += 1
        s, vals = splice(pieces, g)
        for g2, s2, v2 in s if isinstance(s, list) else [(g, s, vals)]:
            g2 = B.and_(g, g2)
            if g2:
                match(out, op, g2, s2, v2, pc0, n, opt, r1, known)
    if op != 0x40 and any(c in "w" for c, _ in PRINT.get(op, ("", []))[1]) or op == 0x40:
        used = fs.mem[("H", "lookups")][1]
        w = wide(2 if op in (0x40,) else next(p for c, p in PRINT[op][1] if c == "w"))
        cond = B.and_(good, B.not_(eqc(used, 0)))
        chk("txt", B.and_(cond, B.not_(eq(fs.mem[("H", "lookup_of")][1], w))), "a label is looked up for another address")
    return out


def splice(pieces, g):
    """Expand embedded strings that are shown with a plain format."""
    return tokens(pieces)


def wide(off):
    return tuple(fresh(f"code{off}", 8)) + tuple(fresh(f"code{off + 1}", 8))


def match(out, op, g, s, vals, pc0, n, opt, r1, known):
    """Compare one alternative with what the instruction table prescribes."""
    def bad(cond, what):
        cond = B.and_(g, cond)
        if cond:
            out["txt"].append((what, words(B.witness(cond))))
    # leading address and bytes
    shown = re.sub("\x00\\d+\x01", "_", s)
    m = re.match("\x00(\\d+)\x01:", s)
    if not m:
        bad(1, f"the line does not start with the instruction's address: `{shown}`")
        return
    v = vals[int(m.group(1))]
    if v[0] != "f" or v[1] != "lower_hex":
        bad(1, "the address is not in hexadecimal")
    else:
        bad(B.not_(eq(v[4][1], pc0)), "another address than the instruction's is shown")
    rest = s[m.end():]
    for i in range(n):
        m = re.match(" \x00(\\d+)\x01(?= )", rest)
        if not m:
            bad(1, f"fewer than {n} instruction bytes are shown: `{shown}`")
            return
        v = vals[int(m.group(1))]
        if v[0] != "f" or v[1] != "lower_hex" or len(v[4][1]) != 8 or v[2][1] != 2:
            bad(1, f"instruction byte {i} is not shown as two hexadecimal digits")
        else:
            bad(B.not_(eq(v[4][1], code_byte(op, i))), f"another byte than byte {i} of the instruction is shown")
        rest = rest[m.end():]
    rest = rest.strip()
    mnem, sep, tail = rest.partition(" ")
    args = [a.strip() for a in tail.split(",")] if tail else []
    if op == 0x40:
        cases = [(eqc(opt, 0), "ldi", [("W", (1, 0)), ("w", 2)]),
                 (B.and_(eqc(opt, 1), eqc(r1, 0)), "jmp", [("w", 2)]),
                 (B.and_(eqc(opt, 1), B.not_(eqc(r1, 0))), "jmp", [("W", (1, 0))])]
    elif op in PRINT:
        cases = [(1,) + PRINT[op]]
    else:
        m = re.fullmatch("0x\x00(\\d+)\x01", rest)
        if not m or vals[int(m.group(1))][1] != "lower_hex":
            bad(1, f"an undefined opcode is not shown as the byte it is: `{shown}`")
        else:
            bad(B.not_(eq(vals[int(m.group(1))][4][1], const(op, 8))), "another byte than the opcode is shown")
        return
    for c, want, ops in cases:
        if not B.and_(g, c):
            continue
        shown_m = re.sub("\x00\\d+\x01", "_", mnem)
        # a mnemonic may be a value (string) piece
        if mnem != want:
            bad(c, f"shown as `{shown_m}` instead of `{want}`")
            continue
        if len(args) != len(ops):
            bad(c, f"`{want}` is shown with {len(args)} operands instead of {len(ops)}")
            continue
        for k, (a, (cls, pos)) in enumerate(zip(args, ops)):
            m = re.fullmatch("(0x)?\x00(\\d+)\x01", a)
            v = vals[int(m.group(2))] if m else None
            nm = f"operand {k + 1} of `{want}`"
            if v is None:
                bad(c, f"{nm} is not a value of the instruction: `{shown}`")
                continue
            if cls in "BW":
                t = "telda2::blf4::ByteRegister" if cls == "B" else "telda2::blf4::WideRegister"
                if v[0] != "f" or v[3] != t or m.group(1):
                    bad(c, f"{nm} is not shown as a {'byte' if cls == 'B' else 'wide'} register")
                    continue
                b = code_byte(op, pos[0])
                nib = b[4:] if pos[1] == 0 else b[:4]
                got = asm.reg_bits(v[4])
                bad(B.and_(c, B.not_(eq(got, zext(nib, len(got))))), f"{nm} shows another register")
                continue
            w = wide(pos) if cls == "w" else code_byte(op, pos)
            if v[0] == "s":
                if cls != "w" or v[1][0] != "str" or v[1][1] != ("S", "label"):
                    bad(c, f"{nm} is not the immediate")
                else:
                    bad(B.and_(c, B.not_(known)), f"{nm} is shown as a label although there is none")
                continue
            if (v[1] == "lower_hex") != bool(m.group(1)) or v[3] not in ("u8", "u16"):
                bad(c, f"{nm} is not in a number format of the assembler")
                continue
            bad(B.and_(c, B.not_(eq(zext(v[4][1], 16), zext(w, 16)))), f"{nm} shows another number")
            if cls == "w":
                bad(B.and_(c, known), f"{nm} is shown as a number although a label is known")
