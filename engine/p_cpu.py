"""Properties of the processor (C01-C11)."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, join, merge, bv, boolv, UNIT, Unsupported
from cpu import *
import cpu as C
import mmu
from report import words
from pool import pmap

JUMPS = ["jez", "jlt", "jle", "jgt", "jge", "jnz", "jo", "jno", "ja", "jae", "jb", "jbe"]
CONTROL = JUMPS + ["call", "ret", "ldi_w", "nop"]
MEMORY = ["push_b", "push_w", "pop_b", "pop_w", "store_bi", "store_wi", "store_br", "store_wr",
          "load_bi", "load_wi", "load_br", "load_wr", "ldi_b", "ldi_w", "pstore", "pload"]
ALU = [n for n in OPS.values() if n[:3] in ("add", "sub", "and", "xor", "shl", "asr", "lsr", "div", "mul") or n.startswith("or_")]
SYSTEM = ["halt", "syscall", "ctf", "reth", "usr", "vmon", "vmoff"]
RESERVED = {  # (index of the operand byte whose low nibble is reserved)
    **{n: 1 for n in ALU if not n.startswith(("mul", "div"))},
    "push_b": 0, "push_w": 0, "pop_b": 0, "pop_w": 0, "store_br": 1, "store_wr": 1, "load_br": 1, "load_wr": 1,
    "ldi_b": 0, "ldi_w": 0, "pstore": 1, "pload": 1}
CODE = {n: op for op, n in OPS.items()}


def where_of(I, extra=()):
    """Functions of the repository visited by an analysis, as locations."""
    out = []
    for k in I.visited:
        i = I.F.insts[k]
        if i["crate"] in ("telda2",) and i.get("body"):
            sp = i["body"]["sp"]
            if "handlers.rs" in sp[0] and "arg_" not in i["nm"]:
                out.append((i["nm"], sp[0], sp[1]))
    return list(extra) + out[:6]


def opbits(op):
    """(opcode value bits, condition) for an opcode number or 'undefined'."""
    if op == "undefined":
        b = fresh("opcode", 8, 0)
        c = 0
        for u in UNDEFINED:
            c = B.or_(c, eqc(b, u))
        return b, c
    return const(op, 8), 1


def run_op(facts, op, th0, coarse=True, um=None, fixed=None):
    M = Cpu(facts)
    b, c = opbits(op)
    env = Env(M, b, coarse=coarse, fixed=fixed)
    name = "undefined" if op == "undefined" else OPS[op]
    I, g0, c0, fs, rv = run_execute(facts, env, opcond=c, th0=th0, um=um)
    acc, av, info = run_spec(env, I, g0, c0, name)
    return M, I, g0, c0, fs, rv, acc, av, info


FILL = [(0x12, 0x30, 0x56, 0x78), (0x12, 0x34, 0x56, 0x78), (0x11, 0x10, 0, 0), (0, 0, 0, 0)]


def staged(analyse):
    """analyse(coarse, fixed) -> (differences, I, ...).  The coarse domain
    numbers register reads instead of selecting among all registers; what it
    reports counts only if the exact domain reports it too, on the operand
    bytes of the coarse witness or, failing that, on all operand bytes."""
    r = analyse(True, None)
    if not r[0]:
        return r
    seen = []
    for d in r[0]:
        w = B.witness(d.cond) or {}
        for fill in FILL:
            f = {}
            for i in range(1, 5):
                n = f"R{i}.fetch"
                f[n] = sum(1 << k for k in range(8) if w.get(f"{n}[{k}]", fill[i - 1] >> k & 1))
            if f not in seen:
                seen.append(f)
    for f in seen[:12]:
        bdd.UF.clear()
        try:
            q = analyse(False, f)
        except bdd.Blowup:
            continue
        if q[0]:
            return q
    bdd.UF.clear()
    return analyse(False, None)


def label(op):
    return "undefined opcode" if op == "undefined" else f"{OPS[op]} ({op:#04x})"


def pack(op, diffs, I, stats):
    out = []
    for d in diffs:
        out.append({"key": f"{label(op)}: {d.what}", "what": d.what,
                    "where": where_of(I, d.sites), "witness": words(B.witness(d.cond))})
    stats.update({"blocks": I.blocks, "calls": I.calls,
                  "functions": sorted({I.F.insts[k]["nm"] for k in I.visited if I.F.insts[k]["crate"] == "telda2"})})
    return out, stats


def cmp_outcome(M, region, av, rv, out, what="the instruction"):
    """In `region`: Err exactly where the specification reports a trap, with its code."""
    e, p = is_err(rv)
    e2, p2 = is_err(av)
    d = B.and_(region, B.and_(e, B.not_(e2)))
    if d:
        out.append(Diff(d, f"{what} raises a trap although nothing in it is at fault"))
    d = B.and_(region, B.and_(e2, B.not_(e)))
    if d:
        out.append(Diff(d, f"{what} completes although it has to trap"))
    both = B.and_(region, B.and_(e, e2))
    if both and p is not None and p2 is not None:
        d = B.and_(both, B.not_(eq(M.code(p), M.code(p2))))
        if d:
            out.append(Diff(d, f"{what} traps with another code than specified"))


def lost(I, g0, fs, out, op):
    """Inputs for which no result is computed (the analysis of C11 says why)."""
    r = fs.g if fs is not None else 0
    d = B.and_(g0, B.not_(r))
    if d:
        sites = [s for g, s, w, k in I.panics]
        out.append(Diff(d, "the emulator panics instead of executing the instruction", sites))
    return r


def compare_op(facts, op, aspects):
    """Full comparison of one opcode, no trap handler installed."""
    def analyse(coarse, fixed):
        M, I, g0, c0, fs, rv, acc, av, info = run_op(facts, op, 0, coarse, fixed=fixed)
        out = []
        r = lost(I, g0, fs, out, op)
        if fs is not None:
            ok = B.and_(r, info["ok"])
            tr = B.and_(r, info["trap"])
            if "ok" in aspects:
                diff_trace(I, ok, fs.tr, acc.tr, out)
                diff_cpu(M, ok, fs.mem[CPUOBJ], acc.mem[CPUOBJ], out)
            if "ok" in aspects or "trap" in aspects:
                cmp_outcome(M, r, av, rv, out)
            if "traptrace" in aspects:
                diff_trace(I, tr, fs.tr, acc.tr, out)
        return out, I, fs, coarse
    out, I, fs, coarse = staged(analyse)
    return pack(op, out, I, {"op": label(op), "refined": not coarse,
                             "slots": sum(len(s) for s in (fs.tr.slots if fs else ()))})


def p_opcodes(facts, rep, names, aspects):
    items = [CODE[n] for n in names]
    fns = set()
    for op, (vio, st) in pmap(lambda o: compare_op(facts, o, aspects), items):
        for v in vio:
            rep.finding(v["key"], v["what"], v["where"], v["witness"])
        rep.count("opcodes_compared")
        rep.count("mir_blocks_interpreted", st["blocks"])
        rep.count("calls_inlined", st["calls"])
        rep.count("environment_interactions_compared", st["slots"])
        if st["refined"]:
            rep.count("opcodes_refined")
        fns.update(st["functions"])
    rep.coverage["functions_analysed"] = len(fns)
    rep.coverage.setdefault("samples", []).extend(sorted(fns)[:12])


# --------------------------------------------------------------------- C01
def user_mode_op(facts, item):
    op, th0 = item
    M, I, g0, c0, fs, rv, acc, av, info = run_op(facts, op, th0, True, um=1)
    out = []
    r = lost(I, g0, fs, out, op)
    if fs is None:
        return pack(op, out, I, {"slots": 0})
    c1 = fs.mem[CPUOBJ]
    e, _ = is_err(rv)
    for n, t in (("page", "the page-table pointer"), ("trap_handler", "the trap handler"),
                 ("virtual_mode", "virtual addressing")):
        d = B.and_(r, B.not_(eq(M.get(c1, n)[1], M.get(c0, n)[1])))
        if d:
            out.append(Diff(d, f"user mode changes {t}", writer_sites(I)))
    um1 = M.get(c1, "user_mode")[1][0]
    tr1 = M.get(c1, "trap")[1][0]
    left = B.and_(r, B.not_(um1))
    if th0 == 0:
        # no handler: leaving user mode means reporting a trap
        d = B.and_(left, B.not_(e))
        if d:
            out.append(Diff(d, "user mode is left without a trap", writer_sites(I)))
        d = B.and_(r, B.and_(e, um1))
        if d:
            out.append(Diff(d, "a trap is taken but user mode stays on", writer_sites(I)))
    else:
        d = B.and_(left, B.not_(tr1))
        if d:
            out.append(Diff(d, "user mode is left without a trap", writer_sites(I)))
        pc = M.get(c1, "program_counter")[1]
        th = M.get(c0, "trap_handler")[1]
        d = B.and_(B.and_(left, B.not_(e)), B.not_(eq(pc, th)))
        if d:
            out.append(Diff(d, "user mode is left to somewhere else than the trap handler", writer_sites(I)))
    n = 0
    okr = B.and_(r, info["ok"])
    for k, s in enumerate(fs.tr.slots):
        for kind, (g, args, sites) in s.items():
            n += 1
            g = B.and_(g, r)
            if kind.startswith("phys_"):
                if g:
                    out.append(Diff(g, f"user mode performs a {kind.replace('phys_', 'physical ')}", sites))
                continue
            pg, vm, um = args[-3:]
            d = B.and_(g, B.or_(B.not_(eq(pg[1], M.get(c0, "page")[1])),
                                B.xor(vm[1][0], M.get(c0, "virtual_mode")[1][0])))
            if d:
                out.append(Diff(d, f"user mode performs a {kind} through another address translation", sites))
            d = B.and_(B.and_(g, okr), B.not_(um[1][0]))
            if d:
                out.append(Diff(d, f"user mode performs a {kind} with kernel privilege", sites))
            if th0 == 0:
                d = B.and_(g, B.not_(um[1][0]))
                if d:
                    out.append(Diff(d, f"user mode performs a {kind} with kernel privilege", sites))
            if not okr and kind != "fetch" and th0 == 0 and OPS.get(op) not in MEMORY + ["reth"] and g:
                out.append(Diff(g, f"user mode performs a {kind} although the instruction traps", sites))
    return pack(op, out, I, {"slots": n})


def writer_sites(I):
    s = set()
    for k, v in I.writers.items():
        s |= v
    return sorted(s)[:6]


def C01(ctx, rep):
    facts = ctx.lib()
    items = [(op, 0) for op in sorted(OPS)] + [("undefined", 0)]
    deliv = sorted(OPS) if rep.tier == "thorough" else \
        [CODE[n] for n in SYSTEM + CONTROL + ["add_b", "div_b", "push_b", "pop_b", "pstore", "pload"]]
    items += [(op, 1) for op in deliv if OPS[op] != "reth"] + [("undefined", 1)]
    for it, (vio, st) in pmap(lambda x: user_mode_op(facts, x), items):
        for v in vio:
            rep.finding(v["key"], v["what"], v["where"], v["witness"])
        rep.count("instruction_partitions")
        rep.count("environment_interactions_checked", st["slots"])
        rep.count("mir_blocks_interpreted", st["blocks"])
    # the translation itself honours the privilege it is given: see C02/C03
    return ("Every instruction (all defined opcodes and the undefined ones as one class) is abstractly interpreted "
            "from its MIR with the user-mode flag set and everything else unknown; on the resulting state "
            "transformer: page-table pointer, trap handler and virtual mode are unchanged, user mode is cleared "
            "only together with a trap, and every memory access goes through the translated, user-privileged "
            "interface.")


# --------------------------------------------------------------------- C02-C04
def mmu_all(facts, rep, aspect):
    items = [(k, v) for k in ("fetch", "read", "write") for v in (0, 1)]

    def one(it):
        out, I, mm, w = mmu.analyse_access(facts, *it)
        res = []
        for a, ds in out.items():
            for d in ds:
                res.append((a, f"{d.what}", [list(s) for s in d.sites], words(B.witness(d.cond))))
        return res, {"reads": len(mm.reads), "writes": len(mm.writes), "blocks": I.blocks,
                     "specreads": len(w.spec_reads), "cells": len(mm.cells)}
    for it, (res, st) in pmap(one, items):
        for a, what, where, wit in res:
            if a in aspect or (a == "panic" and "panic" in aspect):
                rep.finding(what, what, where, wit)
        rep.count("access_kinds")
        rep.count("physical_reads_checked", st["reads"])
        rep.count("physical_writes_checked", st["writes"])
        rep.count("mir_blocks_interpreted", st["blocks"])


def C02(ctx, rep):
    mmu_all(ctx.lib(), rep, ("perm",))
    return ("Instruction fetch, read and write of the processor are abstractly interpreted from MIR over an unknown "
            "physical memory, register file and address; the condition under which each faults, and its code, is "
            "compared (as a canonical Boolean function) with presence, user and access bits of both table levels in "
            "the documented order.")


def C03(ctx, rep):
    mmu_all(ctx.lib(), rep, ("xlat",))
    return ("For an unknown virtual address and unknown tables the physical address reached, every table byte "
            "consulted, and the final content of memory at an arbitrary probe address are compared with the two-level "
            "translation formula.")


def C04(ctx, rep):
    mmu_all(ctx.lib(), rep, ("dirty",))
    return ("The final content of both entries' flag bytes after each access, at an arbitrary probe address, is "
            "compared with the dirty-flag rule: set in both entries by a permitted write, untouched otherwise.")


# --------------------------------------------------------------------- C05
def C05(ctx, rep):
    facts = ctx.lib()

    def one(nm):
        M = Cpu(facts)
        I = Interp(facts)
        I.objty[CPUOBJ] = M.t_cpu
        c0 = I.fresh(M.t_cpu, "cpu")
        key = facts.find(f"{BLF4}::{nm}")
        body = facts.insts[key]["body"]
        r = fresh("reg", 4, 0)
        r8 = zext(r, 8)

        def regval(t):
            ty = I.T[t]
            if ty["k"] == "struct":
                return ("a", (regval(ty["v"][0]["f"][0][1]),))
            return ("b", r8)
        w = 8 if nm.endswith("br") else 16
        v = fresh("val", w)
        st = State(1, {CPUOBJ: c0}, Trace())
        args = [("p", ((1, (CPUOBJ, ())),), None), regval(body["locals"][2])]
        if nm.startswith("write"):
            args.append(("b", v))
        fs, rv = I.call(st, key, args)
        out = []
        site = I.site(key, 0)
        for g, s, what, k in I.panics:
            out.append(Diff(g, f"{nm}: panics", [s]))
        if fs is None:
            return [(d.what, d.sites, words(B.witness(d.cond))) for d in out], I.blocks
        priv = B.and_(M.get(c0, "user_mode")[1][0], B.and_(B.and_(r[3], r[2]), r[1])) if w == 16 else 0
        s = State(1, {CPUOBJ: c0}, Trace())
        if nm.startswith("write"):
            c1 = (wr_b if w == 8 else wr_w)(M, c0, r8, v)
            want = merge(priv, c0, c1)
        else:
            want = c0
            val = (rd_b if w == 8 else rd_w)(M, c0, r8)
        cd = []
        diff_cpu(M, fs.g, fs.mem[CPUOBJ], want, cd)
        for d in cd:
            out.append(Diff(d.cond, f"{nm}: {d.what}", [site]))
        got = rv
        if w == 16:
            e, p = is_err(rv)
            d = B.and_(fs.g, B.xor(e, priv))
            if d:
                out.append(Diff(d, f"{nm}: faults exactly for the privileged registers in user mode: violated", [site]))
            elif p is not None and priv:
                d = B.and_(priv, B.not_(eqc(M.code(p), CODES["IllegalOperation"])))
                if d:
                    out.append(Diff(d, f"{nm}: privileged register access faults with another code", [site]))
            if rv[2][0]:
                got = rv[2][0][0]
        if nm.startswith("read"):
            d = B.and_(B.and_(fs.g, B.not_(priv)), B.not_(eq(got[1], val)))
            if d:
                out.append(Diff(d, f"{nm}: value of the register differs from the aliasing rule", [site]))
        return [(d.what, [list(x) for x in d.sites], words(B.witness(d.cond))) for d in out], I.blocks
    for nm, (res, blocks) in pmap(one, ["read_br", "write_br", "read_wr", "write_wr"]):
        rep.count("accessors_analysed")
        rep.count("mir_blocks_interpreted", blocks)
        rep.count("register_numbers_covered", 16)
        for what, where, wit in res:
            rep.finding(what, what, where, wit)
    return ("The four register-file accessors are abstractly interpreted from MIR for an unknown register number, "
            "value and register file; resulting file, value and fault condition are compared with the aliasing table.")


# --------------------------------------------------------------------- C06-C08
def C06(ctx, rep):
    facts = ctx.lib()
    p_opcodes(facts, rep, CONTROL, ("ok",))
    mmu_all(facts, rep, ("pc",))
    return ("Each control-transfer opcode is abstractly interpreted from the dispatch on (register file, operand "
            "bytes and fault behaviour unknown); resulting registers, flags and memory interactions are compared, as "
            "canonical Boolean functions, with the documented condition and target. Instruction fetch advances the "
            "program counter by one, modulo 2^16.")


def C07(ctx, rep):
    p_opcodes(ctx.lib(), rep, MEMORY, ("ok", "traptrace"))
    return ("Each data-movement opcode is abstractly interpreted from the dispatch on; addresses, values, order and "
            "number of memory interactions and the resulting registers are compared with the documented effect, also "
            "on the paths where an access faults.")


def C08(ctx, rep):
    p_opcodes(ctx.lib(), rep, ALU, ("ok",))
    return ("Each arithmetic, logic, shift, multiply and divide opcode is abstractly interpreted from the dispatch "
            "on; destination registers and all four flags are compared bit by bit with the documented function of the "
            "source registers (multiplication and division by value numbering).")


# --------------------------------------------------------------------- C09
def opbyte(fixed, i):
    n = f"R{i}.fetch"
    return const(fixed[n], 8) if fixed and n in fixed else fresh(n, 8)


def reserved_op(facts, op):
    def analyse(coarse, fixed):
        M, I, g0, c0, fs, rv, acc, av, info = run_op(facts, op, 0, coarse, fixed=fixed)
        out = []
        r = lost(I, g0, fs, out, op)
        n = 0
        if fs is not None:
            c1 = fs.mem[CPUOBJ]
            e, p = is_err(rv)
            # operand fetches that precede the verdict, as fault conditions
            region = B.and_(r, B.not_(B.var("R0.fetch.err", 0, 0)))
            if op == "undefined":
                what = "an undefined opcode"
            else:
                k = RESERVED[OPS[op]] + 1
                for i in range(1, k + 1):
                    region = B.and_(region, B.not_(B.var(f"R{i}.fetch.err", 0, 0)))
                nib = opbyte(fixed, k)[:4]
                if OPS[op] == "ldi_w":
                    for i in (k + 1, k + 2):
                        region = B.and_(region, B.not_(B.var(f"R{i}.fetch.err", 0, 0)))
                    bad = B.not_(B.or_(eqc(nib, 0), eqc(nib, 1)))
                else:
                    bad = B.not_(eqc(nib, 0))
                if OPS[op] in ("pstore", "pload"):
                    region = B.and_(region, B.not_(M.get(c0, "user_mode")[1][0]))
                region = B.and_(region, bad)
                what = "a nonzero reserved operand nibble"
            n += 1
            d = B.and_(region, B.not_(e))
            if d:
                out.append(Diff(d, f"{what} is executed instead of raising the invalid-instruction trap"))
            if p is not None:
                good = eqc(M.code(p), CODES["Invalid"])
                # a privileged register operand in user mode may be reported instead
                alt = B.and_(eqc(M.code(p), CODES["IllegalOperation"]), M.get(c0, "user_mode")[1][0])
                if op != "undefined":
                    priv = 0
                    for i in range(1, k + 1):
                        b = opbyte(fixed, i)
                        for q in (b[:4], b[4:]):
                            priv = B.or_(priv, B.and_(B.and_(q[3], q[2]), q[1]))
                    alt = B.and_(alt, priv)
                else:
                    alt = 0
                d = B.and_(B.and_(region, e), B.not_(B.or_(good, alt)))
                if d:
                    out.append(Diff(d, f"{what} traps with another code than the invalid-instruction code"))
            cd = []
            diff_cpu(M, region, c1, c0, cd, skip=("program_counter", "trap", "user_mode"))
            for d in cd:
                out.append(Diff(d.cond, f"{what} changes the state: {d.what.replace('differs from its specified value', 'is changed')}"))
            for s in fs.tr.slots:
                for kind, (g, args, sites) in s.items():
                    if kind in ("write", "phys_write", "read", "phys_read"):
                        n += 1
                        d = B.and_(g, region)
                        if d:
                            out.append(Diff(d, f"{what} performs a {kind}", sites))
        return out, I, n
    out, I, n = staged(analyse)
    return pack(op, out, I, {"n": n})


def C09(ctx, rep):
    facts = ctx.lib()
    items = ["undefined"] + [CODE[n] for n in RESERVED]
    for op, (vio, st) in pmap(lambda o: reserved_op(facts, o), items):
        for v in vio:
            rep.finding(v["key"], v["what"], v["where"], v["witness"])
        rep.count("encodings_analysed")
        rep.count("obligations", st["n"])
        rep.count("mir_blocks_interpreted", st["blocks"])
    rep.coverage["undefined_opcodes_covered"] = len(UNDEFINED)
    return ("All undefined opcode bytes (as one class) and every opcode with a reserved operand nibble are abstractly "
            "interpreted from the dispatch on; under the condition that the nibble is nonzero the outcome is the "
            "invalid-instruction trap, no data access happens and no register or flag but those of trap entry changes.")


# --------------------------------------------------------------------- C10
def trap_op(facts, item):
    op, th0 = item

    def analyse(coarse, fixed):
        M, I, g0, c0, fs, rv, acc, av, info = run_op(facts, op, th0, coarse, fixed=fixed)
        out = []
        r = lost(I, g0, fs, out, op)
        if fs is not None:
            if th0 == 0:
                reg = r if OPS.get(op) in SYSTEM else B.and_(r, info["trap"])
                diff_trace(I, reg, fs.tr, acc.tr, out)
                diff_cpu(M, B.and_(reg, info["ok"]), fs.mem[CPUOBJ], acc.mem[CPUOBJ], out)
                cmp_outcome(M, reg, av, rv, out)
                tr = B.and_(reg, info["trap"])
                for f, want in (("trap", 1), ("user_mode", 0)):
                    x = M.get(fs.mem[CPUOBJ], f)[1][0]
                    d = B.and_(tr, B.not_(x) if want else x)
                    if d:
                        out.append(Diff(d, f"after a trap the {f} flag is {'not set' if want else 'still set'}"))
            else:
                reg = B.and_(r, info["trap"])
                diff_trace(I, reg, fs.tr, acc.tr, out, "trap entry, interaction")
                dl = B.and_(reg, info.get("delivered", 0))
                diff_cpu(M, dl, fs.mem[CPUOBJ], acc.mem[CPUOBJ], out)
                e1, p1 = is_err(rv)
                e2, p2 = is_err(av)
                d = B.and_(reg, B.xor(e1, e2))
                if d:
                    out.append(Diff(d, "a trap is not delivered to the installed handler (or a fault while delivering it is not reported)"))
                b = B.and_(reg, B.and_(e1, e2))
                if b and p1 is not None and p2 is not None:
                    d = B.and_(b, B.not_(eq(M.code(p1), M.code(p2))))
                    if d:
                        out.append(Diff(d, "a fault while delivering a trap is reported with another code"))
        return out, I, fs
    out, I, fs = staged(analyse)
    return pack(op, out, I, {"slots": sum(len(s) for s in (fs.tr.slots if fs else ()))})


def C10(ctx, rep):
    facts = ctx.lib()
    items = [(CODE[n], 0) for n in SYSTEM] + [("undefined", 0)]
    names = ["halt", "syscall", "ctf", "usr", "vmon", "vmoff", "nop", "div_b", "push_b", "call", "ret", "ldi_b", "jez",
             "add_b", "pop_b", "pstore", "pload"]
    if rep.tier == "thorough":
        names = [n for n in OPS.values() if n != "reth"]
    items += [(CODE[n], 1) for n in names] + [("undefined", 1)]
    for it, (vio, st) in pmap(lambda x: trap_op(facts, x), items):
        for v in vio:
            rep.finding(v["key"], v["what"], v["where"], v["witness"])
        rep.count("instruction_partitions")
        rep.count("environment_interactions_compared", st["slots"])
        rep.count("mir_blocks_interpreted", st["blocks"])
    return ("Trapping instructions are abstractly interpreted with and without an installed handler, every access "
            "faulting or not being unknown: flags set on entry, the values pushed and their order, the handler address "
            "and code register, and the inverse restoration by the handler return are compared with the documented "
            "sequence.")


# --------------------------------------------------------------------- C11
def C11(ctx, rep):
    facts = ctx.lib()

    def one(it):
        if it[0] == "mmu":
            out, I, mm, w = mmu.analyse_access(facts, it[1], it[2])
            return [(d.what, [list(s) for s in d.sites], words(B.witness(d.cond))) for d in out["panic"]], I.blocks, 0
        op, th0 = it
        M = Cpu(facts)
        b, c = opbits(op)
        env = Env(M, b)
        I, g0, c0, fs, rv = run_execute(facts, env, opcond=c, th0=th0)
        res = []
        for g, s, what, stk in I.panics:
            res.append((f"{label(op)}: {what}", [list(s)] + [[k] for k in stk[-4:]], words(B.witness(g))))
        for s in fs.tr.slots if fs else ():
            for kind, (g, args, sites) in s.items():
                if kind.startswith("phys_"):
                    hi = 0
                    for x in args[0][1][24:]:
                        hi = B.or_(hi, x)
                    if B.and_(g, hi):
                        res.append((f"{label(op)}: physical address beyond 24 bits", [list(x) for x in sites],
                                    words(B.witness(B.and_(g, hi)))))
        return res, I.blocks, sum(1 for k in I.visited for b in I.visited[k]
                                  if I.F.insts[k]["body"]["blocks"][b]["t"][0] == "assert")
    items = [("mmu", k, v) for k in ("fetch", "read", "write") for v in (0, 1)]
    items += [(op, 0) for op in sorted(OPS)] + [("undefined", 0)]
    items += [(CODE["halt"], 1), ("undefined", 1)]
    for it, (res, blocks, asserts) in pmap(one, items):
        rep.count("partitions")
        rep.count("mir_blocks_interpreted", blocks)
        rep.count("reachable_assertions_discharged", asserts)
        for what, where, wit in res:
            rep.finding(what, what, where, wit)
    import memmap
    memmap.panics(facts, rep)
    return ("Every reachable arithmetic-overflow, bounds, division and explicit panic site on the execution of any "
            "instruction (dispatch, handlers, translation, physical memory below 2^24) is collected during abstract "
            "interpretation with its reach condition; the condition must be false.")


# --------------------------------------------------------------------- C15
def C15(ctx, rep):
    import memmap
    memmap.check(ctx.lib(), rep)
    return ("Reads and writes of the physical memory are abstractly interpreted from MIR over an arbitrary prior "
            "memory (any subset of blocks allocated, ROM present or not): a read after a write is compared, for an "
            "arbitrary pair of addresses below 2^24, with what the memory map prescribes; port interactions are "
            "counted and their arguments compared; the blank memory reads zero.")
