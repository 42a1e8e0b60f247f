"""Properties of the assembler's instruction encoder."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc
from interp import State, Trace, bv, U, UNIT, merge, clog2
from facts import MissingAnchor
from report import words
from pool import pmap
import asm

MAXOPS = 6


def start(A, I, n):
    st = State(1, {}, Trace())
    ops = asm.operands(A, I, n)
    st.mem[("S", "ops")] = ("a", tuple(ops))
    st.mem[("H", "ops*")] = ("p", ((1, (("S", "ops"), (("s", const(0, 64)),))),), bv(n, 64))
    reset(st)
    st.g = asm.care(A, ops)
    return st, ops


def reset(st):
    st.mem[("H", "memlen")] = ("b", fresh("len0", 64))
    st.mem[("H", "use_n")] = bv(0, 8)
    st.mem[("H", "use_id")] = U
    st.mem[("H", "use_rec")] = U


def strval(I, s):
    obj = ("S", "mnemonic")
    return ("p", ((1, (("LIT", s), (("s", const(0, 64)),))),), bv(len(s), 64))


def literals(I):
    old = I.const_str

    def const_str(v):
        if v[0] == "p" and len(v[1]) == 1 and v[1][0][1][0][0] == "LIT":
            return v[1][0][1][0][1].encode()
        return old(v)
    I.const_str = const_str


def parse(A, I, mnem, n):
    st, ops = start(A, I, n)
    vec = ("o", ((1, ("sym", "ops")),))
    sl = ("o", ((1, ("loc",)),))
    sym = ("p", ((1, (("S", "symbols"), ())),), None)
    I.objty[("S", "symbols")] = A.F.ty_named("telda2::source::symbols::Symbols")
    st, r = I.call(st, A.parse, [strval(I, mnem), vec, sym, sl])
    if st is None:
        return ops, None, 0, None
    ok = B.and_(st.g, eqc(r[1], 0))
    opt = r[2][0][0] if r[2][0] else None
    if opt is None or not ok:
        return ops, st, 0, None
    some = B.and_(ok, eqc(opt[1], 1))
    return ops, st, some, (opt[2][1][0][1] if some else None)


def write(A, I, st, cond, dat):
    """Analyse write_data_operand on the operand value under `cond`."""
    s2 = State(cond, dict(st.mem), Trace())
    reset(s2)
    seg = I.fresh(A.F.insts[A.write]["body"]["locals"][1], "segment")
    memp = ("p", ((1, (("S", "mem"), ())),), None)
    body = A.F.insts[A.write]["body"]
    I.objty[("S", "mem")] = A.T[body["locals"][2]]["e"]
    fn = I.zst(body["locals"][3])
    s3, _ = I.call(s2, A.write, [seg, memp, fn, dat])
    return s3, seg


def witness(f):
    return words(B.pick(f)) if hasattr(B, "pick") else {}


def sig_str(sig):
    return " ".join({"B": "byte-register", "W": "wide-register", "b": "byte-immediate", "w": "wide-immediate"}[c] for c in sig) or "nothing"


def lens_under(st, c):
    return {L for L, g in st.tr.lens.items() if B.and_(B.and_(st.g, c), g)}


def one(F):
    def run(item):
        mnem, n = item
        A = asm.Asm(F)
        I = asm.interp(F)
        literals(I)
        asm.IDS.clear()
        ops, st, some, pair = parse(A, I, mnem, n)
        out = {"enc": [], "count": [], "size": [], "alts": 0, "panics": [], "blocks": 0}
        spec = asm.FORMS[mnem]
        want = 0
        g = st.g if st is not None else 0
        care = asm.care(A, ops)
        for gp, site, what, stack in I.panics:
            if B.and_(gp, care):
                out["panics"].append((list(site), what, words(B.witness(gp))))
        for op, sig, lay in spec:
            c = B.and_(care, asm.match(A, sig, ops, mnem, op))
            if not c:
                continue
            want = B.or_(want, c)
            miss = B.and_(c, B.not_(some))
            if miss:
                out["enc"].append((f"{mnem} {sig_str(sig)}", "operands accepted by the instruction set are rejected",
                                   words(B.witness(miss))))
            c = B.and_(c, some)
            if not c:
                continue
            out["alts"] += 1
            oc = pair[0]
            bad = B.and_(c, B.not_(eq(oc[1], const(op, 8))))
            if bad:
                out["enc"].append((f"{mnem} {sig_str(sig)}", f"opcode is not {op:#04x}", words(B.witness(bad))))
            s3, seg = write(A, I, st, c, pair[1])
            exp = asm.layout(A, sig, lay, ops)
            if s3 is None:
                out["enc"].append((f"{mnem} {sig_str(sig)}", "the operands are never written", words(B.witness(c))))
                continue
            lost = B.and_(c, B.not_(s3.g))
            if lost:
                out["enc"].append((f"{mnem} {sig_str(sig)}", "writing the operands can panic", words(B.witness(lost))))
            ls = lens_under(s3, c)
            if ls != {len(exp)}:
                out["enc"].append((f"{mnem} {sig_str(sig)}", f"writes {sorted(ls)} operand bytes instead of {len(exp)}",
                                   words(B.witness(c))))
            for i, e in enumerate(exp):
                if i >= len(s3.tr.slots) or "byte" not in s3.tr.slots[i]:
                    continue
                gg, args, sites = s3.tr.slots[i]["byte"]
                bad = B.and_(B.and_(c, s3.g), B.and_(gg, B.not_(eq(args[0][1], e))))
                if bad:
                    out["enc"].append((f"{mnem} {sig_str(sig)}", f"operand byte {i} is wrong", words(B.witness(bad)),
                                       [list(s) for s in sites]))
            # label uses
            wi = sig.find("w")
            islab = asm.kind(A, ops[wi], "Label") if wi >= 0 else 0
            n_use = s3.mem[("H", "use_n")][1]
            cc = B.and_(c, s3.g)
            bad = B.and_(cc, B.not_(B.ite(islab, eqc(n_use, 1), eqc(n_use, 0))))
            if bad:
                out["size"].append((f"{mnem} {sig_str(sig)}", "a label operand is not recorded exactly once as a use",
                                    words(B.witness(bad))))
            cl = B.and_(cc, islab)
            if cl and s3.mem[("H", "use_rec")][0] == "a":
                idx = [i for i, x in enumerate(lay) if x[0] == "w"][0]
                lr = s3.mem[("H", "use_rec")]
                t = A.F.ty_named("telda2::source::symbols::LabelRead") if False else label_read_ty(A.F)
                names = [f[0] for f in A.T[t]["v"][0]["f"]]
                pos = lr[1][names.index("position")][1]
                off = sum(2 if x[0] == "w" else 1 for x in lay[:idx])
                wantpos = bdd.add(fresh("len0", 64), const(off, 64))[0][:16]
                bad = B.and_(cl, B.not_(eq(pos, wantpos)))
                if bad:
                    out["size"].append((f"{mnem} {sig_str(sig)}",
                                        "a label use is recorded at another position than where its address is written",
                                        words(B.witness(bad))))
                bad = B.and_(cl, B.not_(I.val_eq(lr[1][names.index("segment")], seg)))
                if bad:
                    out["size"].append((f"{mnem} {sig_str(sig)}", "a label use is recorded for another segment",
                                        words(B.witness(bad))))
                bad = B.and_(cl, B.not_(eq(s3.mem[("H", "use_id")][1], asm.label_id(A, wi))))
                if bad:
                    out["size"].append((f"{mnem} {sig_str(sig)}", "a use of another label is recorded", words(B.witness(bad))))
            # announced size
            obj = ("H", "dat")
            s4 = State(c, dict(st.mem), Trace())
            s4.mem[obj] = pair[1]
            s4, sz = I.call(s4, A.size_fn(), [("p", ((1, (obj, ())),), None)])
            if s4 is not None:
                bad = B.and_(B.and_(c, s4.g), B.not_(eq(sz[1], const(len(exp), 16))))
                if bad:
                    out["size"].append((f"{mnem} {sig_str(sig)}", f"announced operand size is not the {len(exp)} bytes written",
                                        words(B.witness(bad))))
        extra = B.and_(B.and_(some, care), B.not_(want))
        if extra:
            out["count"].append((f"{mnem} with {n} operands", "operands that the instruction does not take are accepted",
                                 words(B.witness(extra))))
        out["blocks"] = I.blocks
        return out
    return run


def label_read_ty(F):
    for i, t in enumerate(F.tys):
        if t.get("def", "").endswith("::LabelRead"):
            return i
    raise MissingAnchor("LabelRead")


_cache = {}


def results(ctx):
    F = ctx.lib()
    A = asm.Asm(F)
    items = [(m, n) for m in sorted(asm.FORMS) for n in range(MAXOPS + 1)]
    return pmap(one(F), items)


def emit(rep, rs, key, where):
    for (m, n), o in rs:
        rep.count("mnemonic_operand_counts_analysed")
        rep.count("operand_forms_compared", o["alts"])
        rep.count("basic_blocks_analysed", o["blocks"])
        for f in o[key]:
            rep.finding(f"{key}:{f[0]}", f[1], where + [tuple(s) for s in (f[3] if len(f) > 3 else [])], f[2])


SRC = [("telda2::source::parse_ins", "src/source/mod.rs", 0)]


def C16(ctx, rep):
    rs = results(ctx)
    emit(rep, rs, "enc", SRC)
    for (m, n), o in rs:
        for site, what, w in o["panics"]:
            rep.finding(f"panic:{m}", f"assembling `{m}` with {n} operands panics ({what})", [tuple(site)], w)
    rep.assumptions.append("register operands carry one of the 16 register numbers (their type's constructors guarantee it)")
    return ("Per mnemonic and operand count 0..6: parse_ins is interpreted on an operand list whose kinds and values are "
            "unknown; for every operand signature of the instruction-set table the opcode and each operand byte written by "
            "write_data_operand must equal the table's layout over those unknowns, and the instruction must be accepted.")


def C19(ctx, rep):
    rs = results(ctx)
    emit(rep, rs, "size", SRC)
    return ("Per mnemonic and operand signature: the size the encoder announces for layout must equal the number of bytes "
            "written, and a label operand must be recorded as exactly one use of that label, in the segment being written, at "
            "the position where its address is written.")


def C20(ctx, rep):
    rs = results(ctx)
    emit(rep, rs, "count", SRC)
    return ("Per mnemonic and operand count 0..6: the condition under which parse_ins accepts the operand list must imply that "
            "the list matches one of the instruction's operand signatures.")


if __name__ == "__main__":
    import sys
    from extract import Ctx
    c = Ctx()
    r = one(c.lib())((sys.argv[1], int(sys.argv[2])))
    print(r)
