"""The built-in kernel: trap handling, the page mapper and the program loader."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, bv, boolv, UNIT, U, Unsupported, atom, clog2, join, merge
from facts import MissingAnchor
from report import words
import cpu
import mmu

EK = "telda2::blf4::std_kernel::EKernel"


def ptr(o, *path):
    return ("p", ((1, (o, tuple(path))),), None)


def only(F, pred, what):
    ks = [k for k, i in F.insts.items() if i.get("body") and pred(i)]
    if len(ks) != 1:
        raise MissingAnchor(f"{what} ({len(ks)} candidates)")
    return ks[0]


def fields(F, t):
    return [f[0] for f in F.tys[t]["v"][0]["f"]]


def W(cond):
    return words(B.witness(cond))


# ------------------------------------------------------------ trap handling
def handle_trap(F):
    """Diffs of EKernel::handle_trap against the documented system calls."""
    M = cpu.Cpu(F)
    key = only(F, lambda i: i["nm"].startswith(f"<{EK} as ") and i["nm"].endswith("::handle_trap"), "handle_trap")
    t_k = F.ty_named(EK)
    kf = fields(F, t_k)
    if "error_handler" not in kf:
        raise MissingAnchor("error_handler")
    K, C, MEMO = ("S", "kernel"), cpu.CPUOBJ, ("S", "mem")

    def setup():
        env = cpu.Env(M)
        I = Interp(F, cpu.make_models(env))

        def mmap(I, st, inst, args, site):
            I.emit(st, "show memory map", (), None, site)
            return st, UNIT
        I.models[cpu.CTX + "::print_mmap"] = mmap
        I.objty[C], I.objty[K] = M.t_cpu, t_k
        st = State(1, {}, Trace())
        st.mem[C] = I.fresh(M.t_cpu, "cpu")
        st.mem[K] = I.fresh(t_k, "kernel")
        return env, I, st
    env, I, st = setup()
    tm = M.any_trap("trap")
    mem = ("p", ((1, (MEMO, ())),), atom("vt", "mem"))
    fs, rv = I.call(st, key, [ptr(K), tm, ptr(C), mem])
    panics = [(s, w, W(g)) for g, s, w, _ in I.panics if g]
    # specification
    env2, I2, s = setup()
    c, k = s.mem[C], s.mem[K]
    code = M.code(tm)
    h = k[1][kf.index("error_handler")][1]
    r1 = cpu.rd_w(M, c, const(1, 8))
    r2 = cpu.rd_w(M, c, const(2, 8))
    r2l = cpu.rd_b(M, c, const(3, 8))
    is_ = lambda n: eqc(code, cpu.CODES[n])
    sysc, halt = is_("SysCall"), is_("Halt")
    other = B.not_(B.or_(sysc, halt))
    outs = []
    err = B.or_(halt, B.and_(other, eqc(h, 0)))
    err = B.or_(err, B.and_(sysc, B.not_(B.or_(B.or_(eqc(r1, 0), eqc(r1, 3)), B.or_(eqc(r1, 4), eqc(r1, 15))))))
    e = s.fork(err)
    outs.append((e, ("e", (1,), ((UNIT,), (tm,)))))

    def case(cond, f):
        x = s.fork(B.and_(cond, B.not_(err)))
        if x is None:
            return
        f(x)
        cc = M.put(x.mem[C], "trap", boolv(0))
        x.mem[C] = M.put(cc, "user_mode", boolv(1))
        outs.append((x, ("e", (0,), ((UNIT,), (tm,)))))

    def rd(x):
        v = env2.do_rawr(I2, x, bv(1, 32))
        x.mem[C] = cpu.wr_b(M, x.mem[C], const(1, 8), v[1])

    def wrr(x):
        env2.do_raww(I2, x, bv(1, 32), ("b", r2l))

    def seth(x):
        v = list(x.mem[K][1])
        v[kf.index("error_handler")] = ("b", r2)
        x.mem[K] = ("a", tuple(v))

    def toh(x):
        cc = cpu.wr_w(M, x.mem[C], const(1, 8), zext(code, 16))
        x.mem[C] = M.put(cc, "program_counter", ("b", h))
    case(B.and_(sysc, eqc(r1, 0)), lambda x: I2.emit(x, "show memory map", (), None, None))
    case(B.and_(sysc, eqc(r1, 3)), rd)
    case(B.and_(sysc, eqc(r1, 4)), wrr)
    case(B.and_(sysc, eqc(r1, 15)), seth)
    case(other, toh)
    acc, av = outs[0]
    for x, v in outs[1:]:
        j = join(acc, x)
        av = merge(B.restrict(acc.g, j.g), av, v)
        acc = j
    out = []
    if fs is None:
        return [("the kernel never answers a trap", {}, [])], panics, I
    g = fs.g

    def chk(cond, what, sites=()):
        cond = B.and_(g, cond)
        if cond:
            out.append((what, W(cond), sorted(sites)))
    e1, p1 = cpu.is_err(rv)
    e2, p2 = cpu.is_err(av)
    chk(B.and_(e2, B.not_(e1)), "a trap the kernel does not handle does not stop the machine")
    chk(B.and_(e1, B.not_(e2)), "a trap the kernel handles stops the machine")
    if p1 is not None:
        chk(B.and_(B.and_(e1, e2), B.not_(eq(M.code(p1), M.code(p2)))), "the machine stops with another trap than the one that occurred")
    ok = B.and_(g, B.not_(B.or_(e1, e2)))
    ds = []
    cpu.diff_cpu(M, ok, fs.mem[C], acc.mem[C], ds)
    for n, x, y in ((n, fs.mem[K][1][i], acc.mem[K][1][i]) for i, n in enumerate(kf)):
        d = B.and_(ok, B.not_(I.val_eq(x, y)))
        if d:
            ds.append(cpu.Diff(d, f"kernel field {n} differs from its specified value"))
    cpu.diff_trace(I, g, fs.tr, acc.tr, ds, "kernel access")
    for L in set(fs.tr.lens) | set(acc.tr.lens):
        x = B.and_(g, B.xor(fs.tr.lens.get(L, 0), acc.tr.lens.get(L, 0)))
        if x and not ds:
            ds.append(cpu.Diff(x, "another number of memory accesses than specified"))
    for d in ds:
        what = next((n for n, c in (("show memory map", eqc(r1, 0)), ("read", eqc(r1, 3)), ("write", eqc(r1, 4)), ("set handler", eqc(r1, 15)))
                     if B.and_(d.cond, sysc) and not B.and_(d.cond, B.not_(B.and_(sysc, c)))),
                    "error trap" if not B.and_(d.cond, B.not_(other)) else "trap")
        out.append((f"{what}: {d.what}", W(d.cond), d.sites))
    return out, panics, I


def show_map(F):
    """Effects of showing the memory map: every store and every call that the
    display can reach through the call graph.  (diffs, functions, calls)"""
    M = cpu.Cpu(F)
    I = Interp(F)
    root = F.find(cpu.CTX + "::print_mmap")
    out = []
    seen, todo, calls = {root: None}, [root], 0

    def via(k):
        p = []
        while k is not None:
            p.append(F.insts[k]["nm"].split("::")[-1])
            k = seen[k]
        return " <- ".join(p)
    guarded = {M.t_cpu, M.t_flags}
    while todo:
        k = todo.pop()
        body = F.insts[k]["body"]

        def field_of(pl, body=body):
            """the register-file field a place denotes, if any"""
            t, name, deref = body["locals"][pl[0]], None, False
            for n, e in enumerate(pl[1]):
                if e[0] == "*":
                    deref = True
                if deref and e[0] == "f" and t in guarded:
                    name = F.tys[t]["v"][0]["f"][e[1]][0]
                t = I.place_ty({"locals": [t]}, [0, [e]]) if e[0] != "d" else t
            return name
        for bn in F.rpo(k):
            bl = body["blocks"][bn]
            for sn, s in enumerate(bl["s"]):
                if s[0] != "=":
                    continue
                f = field_of(s[1])
                if f:
                    out.append((f"the register file's {f} is changed ({via(k)})", {}, [I.site(k, bn)]))
                rv = s[2]
                if rv[0] == "ref" and rv[1] == "mut" and field_of(rv[2]):
                    out.append((f"the register file's {field_of(rv[2])} is borrowed mutably ({via(k)})", {}, [I.site(k, bn)]))
            t = bl["t"]
            if t[0] != "call" or "i" not in t[1]:
                continue
            calls += 1
            c = t[1]["i"]
            nm = F.insts[c]["nm"]
            if "MainMemory" in nm and nm.endswith("::write"):
                out.append((f"memory is written ({via(k)})", {}, [I.site(k, bn)]))
            elif nm in (cpu.CTX + "::read", cpu.CTX + "::write", cpu.CTX + "::fetch"):
                out.append((f"the processor's own memory access is used, which can fault and mark pages ({via(k)})", {}, [I.site(k, bn)]))
            if F.insts[c].get("body") and c not in seen:
                seen[c] = k
                todo.append(c)
    return out, len(seen), calls


# -------------------------------------------------------------- execution loop
def machine_loop(F):
    """execute_once and run_until_abort against their contract."""
    M = cpu.Cpu(F)
    out = []
    k1 = only(F, lambda i: i["def"] == "telda2::machine::Machine::<M, C>::execute_once" or i["nm"].endswith("::execute_once") and i["nm"].startswith("telda2::machine"), "execute_once")
    t_m = F.tys[F.insts[k1]["body"]["locals"][1]]["e"]
    mf = fields(F, t_m)
    I = Interp(F)
    I.boxes = True
    o = ("S", "machine")
    I.objty[o] = t_m
    st = State(1, {}, Trace())
    st.mem[o] = I.fresh(t_m, "machine")
    i_k = mf.index("ekernel")
    kern = st.mem[o][1][i_k]

    def ev(kind, res):
        def f(I, st, inst, args, site):
            r = I.emit(st, kind, tuple(a for a in args if a[0] != "p"), lambda nm: res(nm), site)
            return st, r
        return f
    for k, i in F.insts.items():
        if i["nm"].endswith("as telda2::machine::Cpu>::execute_instruction::<vharness::AnyMem>"):
            I.models[i["nm"]] = ev("execute", lambda nm: M.result(nm, UNIT))
        if i["nm"].endswith("EmulatedKernel<telda2::blf4::Blf4>>::handle_trap") and i["nm"].startswith("<dyn"):
            I.models[i["nm"]] = ev("handle", lambda nm: M.result(nm, UNIT))
    fs, rv = I.call(st, k1, [ptr(o)])
    ex = M.result("R0.execute", UNIT)
    hd = M.result("R1.handle", UNIT)
    e0, c0 = ex[1][0], ex[2][1][0]
    e1, c1 = hd[1][0], hd[2][1][0]
    has = eqc(kern[1], 1)
    want = B.and_(e0, B.ite(has, e1, 1))
    ge, gp = cpu.is_err(rv)
    site = [I.site(k1, 0)]

    def chk(cond, what):
        cond = B.and_(fs.g, cond)
        if cond:
            out.append((what, W(cond), site))
    chk(B.and_(want, B.not_(ge)), "a trap nobody handles does not stop the machine")
    chk(B.and_(ge, B.not_(want)), "the machine stops although the instruction succeeded or its trap was handled")
    chk(B.and_(B.and_(ge, want), B.and_(has, B.not_(eq(M.code(gp), M.code(c1))))), "the machine stops with another trap than the kernel's answer")
    chk(B.and_(B.and_(ge, want), B.and_(B.not_(has), B.not_(eq(M.code(gp), M.code(c0))))), "the machine stops with another trap than the instruction's")
    sl = fs.tr.slots
    x = sl[0].get("execute") if sl else None
    if x is None or B.and_(fs.g, B.not_(x[0])):
        out.append(("not exactly one instruction is executed first", {}, site))
    g = sl[1]["handle"][0] if len(sl) > 1 and "handle" in sl[1] else 0
    chk(B.xor(g, B.and_(e0, has)), "the kernel is not asked exactly for the traps that occur")
    if g:
        chk(B.and_(g, B.not_(eq(M.code(sl[1]["handle"][1][0]), M.code(c0)))), "the kernel is asked to handle another trap than the one that occurred")
    if len(sl) > 2 or len(sl) > 1 and set(sl[1]) - {"handle"} or set(sl[0]) - {"execute"}:
        out.append(("one step interacts more than once with the processor or the kernel", {}, site))
    n = I.blocks
    # the loop: it ends with the first trap that a step reports, and only then
    k2 = only(F, lambda i: i["nm"].endswith("::run_until_abort") and i["nm"].startswith("telda2::machine"), "run_until_abort")
    I = Interp(F)
    I.objty[o] = t_m

    def step(I, st, inst, args, site):
        def res(nm):
            r = M.result(nm, UNIT)
            return ("e", (1,), r[2]) if nm.startswith("R2.") else r
        return st, I.emit(st, "step", (), res, site)
    I.models[F.insts[k1]["nm"]] = step
    st = State(1, {}, Trace())
    st.mem[o] = I.fresh(t_m, "machine")
    fs, rv = I.call(st, k2, [ptr(o)])
    r = [M.result(f"R{i}.step", UNIT) for i in range(3)]
    site = [I.site(k2, 0)]
    want = M.code(r[2][2][1][0])
    for i in (1, 0):
        want = vite(r[i][1][0], M.code(r[i][2][1][0]), want)
    if fs is None:
        out.append(("the run never ends", {}, site))
    else:
        chk(B.not_(eq(M.code(rv), want)), "the run ends with another trap than the first one a step reports")
        ln = {3: B.and_(B.not_(r[0][1][0]), B.not_(r[1][1][0]))}
        for L, gg in fs.tr.lens.items():
            w = {1: r[0][1][0], 2: B.and_(B.not_(r[0][1][0]), r[1][1][0]), 3: ln[3]}.get(L, 0)
            chk(B.xor(B.and_(fs.g, gg), B.and_(fs.g, w)), "the run does not stop exactly at the first step that reports a trap")
    return out, n + I.blocks
