"""The physical memory of the emulator: what a read returns after a write, for
an arbitrary pair of addresses below 2^24 and an arbitrary initial memory."""
import bdd
from bdd import B, const, to_int, fresh, eq, eqc, vite, zext
from interp import Interp, State, Trace, join, merge, bv, boolv, UNIT, Unsupported
from facts import MissingAnchor
from cpu import Diff, clog2
from natives import boxes, arrays

LM = "<telda2::mem::LazyMain<vharness::AnyIo> as telda2::mem::MainMemory>::"
IO = "<vharness::AnyIo as telda2::mem::Io>::"
OBJ = ("S", "lm")


def make(facts):
    def ioread(I, st, inst, args, site):
        return st, I.emit(st, "port_read", (args[1],), lambda nm: ("b", fresh(nm, 8)), site)

    def iowrite(I, st, inst, args, site):
        return st, I.emit(st, "port_write", (args[1], args[2]), lambda nm: UNIT, site)
    I = Interp(facts, {IO + "read": ioread, IO + "write": iowrite}, unroll=1200)
    boxes(I)
    arrays(I)
    k = facts.find(LM + "read")
    I.t_lm = facts.tys[facts.insts[k]["body"]["locals"][1]]["e"]
    I.objty[OBJ] = I.t_lm
    return I


def initial(I):
    """An arbitrary memory; each lazily allocated cell absent or present."""
    return I.fresh(I.t_lm, "lm")


def addr24(name, order=1):
    a = fresh(name, 32, order)
    g = 1
    for x in a[24:]:
        g = B.and_(g, B.not_(x))
    return a, g


def second(name, a, same):
    """Another address: in the same 64 KiB block as `a`, or in another one."""
    p, g = addr24(name, 0)
    if same:
        return p[:16] + a[16:], 1
    return p, B.and_(g, B.not_(eq(p[16:], a[16:])))


def call(I, st, which, addr, byte=None):
    k = I.F.find(LM + which)
    args = [("p", ((1, (OBJ, ())),), None), ("b", addr)]
    if byte is not None:
        args.append(("b", byte))
    return I.call(st, k, args)


def lt(a, n):
    return bdd.ult(a, const(n, len(a)))


def port_events(fs):
    """[(slot, kind, guard, args, sites)]"""
    return [(k, kind) + s[kind] for k, s in enumerate(fs.tr.slots) for kind in s] if fs is not None else []


def check_ports(fs, g, region, kind, args, out, what):
    """Exactly one interaction of `kind` with `args` in `region`, none elsewhere."""
    have = 0
    for k, kd, eg, ea, sites in port_events(fs):
        e = B.and_(g, eg)
        if kd != kind or k > 0:
            if e:
                out.append(Diff(e, f"{what} performs a {kd.replace('_', ' ')} it should not perform", sites))
            continue
        bad = B.and_(e, B.not_(region))
        if bad:
            out.append(Diff(bad, f"{what} outside the port range performs a {kd.replace('_', ' ')}", sites))
        have = B.or_(have, e)
        for p, q in zip(ea, args):
            d = B.and_(B.and_(e, region), B.not_(eq(p[1], q)))
            if d:
                out.append(Diff(d, f"{what} hands another port number or value to the port", sites))
    d = B.and_(B.and_(g, region), B.not_(have))
    if d:
        out.append(Diff(d, f"{what} in the port range does not reach the port"))


def val8(I, v, what):
    v = I.strip(v)
    if v[0] != "b":
        raise Unsupported(f"{what}: result {v[0]}")
    return v[1]


def analyse(facts):
    """(diffs, panics, stats)"""
    out, pan = [], []
    stats = {"obligations": 0, "blocks": 0}
    # one read
    I = make(facts)
    p, gp = addr24("p", 0)
    st = State(gp, {OBJ: initial(I)}, Trace())
    init = st.mem[OBJ]
    fr, rv = call(I, st, "read", p)
    rsite = [I.site(I.F.find(LM + "read"), 0)]
    pan += I.panics
    if fr is None or fr.g != gp:
        out.append(Diff(gp if fr is None else B.and_(gp, B.not_(fr.g)), "a read in the physical address space has no result", rsite))
    port = lt(p, 128)
    if fr is not None:
        g = fr.g
        check_ports(fr, g, port, "port_read", (p[:8],), out, "a read")
        before = val8(I, rv, "read")
        ans = fresh("R0.port_read", 8)
        d = B.and_(B.and_(g, port), B.not_(eq(before, ans)))
        if d:
            out.append(Diff(d, "a port read does not return what the port answered", rsite))
        stats["obligations"] += 4
        for same in (True, False):
            q, gq = second("q", p, same)
            region = B.and_(g, B.and_(gq, B.not_(lt(q, 128))))
            x, y = (probe(I, region, fr.mem, m, q) for m in (fr.mem[OBJ], init))
            d = B.and_(region, B.not_(eq(x, y)))
            if d:
                out.append(Diff(d, "a read changes what a later read returns", rsite))
            stats["obligations"] += 1
    stats["blocks"] += I.blocks
    # a write, then a read
    for same in (True, False):
        I = make(facts)
        a, ga = addr24("a", 0)
        p, gp = second("p", a, same)
        val = fresh("byte", 8)
        g0 = B.and_(ga, gp)
        st = State(g0, {OBJ: initial(I)}, Trace())
        init = st.mem[OBJ]
        fw, _ = call(I, st, "write", a, val)
        wsite = [I.site(I.F.find(LM + "write"), 0)]
        pan += I.panics
        if fw is None or fw.g != g0:
            out.append(Diff(g0 if fw is None else B.and_(g0, B.not_(fw.g)), "a write in the physical address space does not finish", wsite))
        if fw is None:
            continue
        port = lt(a, 128)
        check_ports(fw, fw.g, port, "port_write", (a[:8], val), out, "a write")
        region = B.and_(fw.g, B.not_(lt(p, 128)))
        after, before = (probe(I, region, st0, m, p) for st0, m in ((fw.mem, fw.mem[OBJ]), ({}, init)))
        ram = B.not_(lt(a, 0x8000))
        hit = B.and_(ram, eq(a, p))
        want = vite(hit, val, before)
        d = B.and_(region, B.not_(eq(after, want)))
        for reg, what in (
                (hit, "a byte written to RAM is not what a read of the same address returns"),
                (B.and_(ram, B.not_(hit)), "a write to RAM changes what another address reads"),
                (B.and_(B.not_(ram), B.not_(port)), "a write to ROM changes what memory reads"),
                (port, "a write to a port changes what memory reads")):
            e = B.and_(d, reg)
            if e:
                out.append(Diff(e, what, wsite))
        stats["obligations"] += 7
        stats["blocks"] += I.blocks
    blank(facts, out, pan, stats)
    return out, pan, stats


NEW = "telda2::mem::LazyMain::<vharness::AnyIo>::new"
ROM = "telda2::mem::LazyMain::<vharness::AnyIo>::with_rom"


def blank(facts, out, pan, stats):
    """A new memory reads zero; after loading a ROM image it reads the image, then zeros."""
    I = make(facts)
    k = facts.find(NEW)
    io = I.fresh(facts.insts[k]["body"]["locals"][1], "io")
    fs, v = I.call(State(1, {}, Trace()), k, [io])
    site = [I.site(k, 0)]
    if fs is None or fs.g != 1:
        out.append(Diff(1, "creating a memory does not finish", site))
        return
    p, gp = addr24("p", 0)
    region = B.and_(gp, B.not_(lt(p, 128)))
    x = probe(I, region, fs.mem, v, p)
    d = B.and_(region, B.not_(eqc(x, 0)))
    if d:
        out.append(Diff(d, "a new memory does not read zero", site))
    kr = facts.find(ROM)
    body = facts.insts[kr]["body"]
    img = I.fresh(body["locals"][2], "image")
    n = fresh("image length", 64, 0)
    img = ("p", img[1], ("b", n))
    site = [I.site(kr, 0)]
    fits = bdd.ult(n, const(0x8000 - 128 + 1, 64))
    pre = State(fits, dict(fs.mem), Trace())
    pan0 = len(I.panics)
    fr, w = I.call(pre, kr, [v, img])
    pan += I.panics
    if fr is None or B.and_(fits, B.not_(fr.g)):
        out.append(Diff(fits if fr is None else B.and_(fits, B.not_(fr.g)), "a ROM image that fits is not accepted", site))
    stats["obligations"] += 3
    if fr is None:
        return
    region = B.and_(region, fr.g)
    y = probe(I, region, fr.mem, w, p)
    rom = lt(p, 0x8000)
    off = bdd.sub(p, const(128, 32))[0]
    inside = B.and_(rom, bdd.ult(zext(off, 64), n))
    got = I.read_targets(State(B.and_(region, inside), dict(fr.mem), Trace()),
                         [(1, img[1][0][1][0], (("i", zext(off, 64)),))])
    want = vite(inside, got[1], x)
    d = B.and_(region, B.not_(eq(y, want)))
    if d:
        out.append(Diff(d, "memory with a ROM does not read the image followed by zeros", site))
    stats["obligations"] += 1
    stats["blocks"] += I.blocks


def probe(I, region, mem, m, q):
    st = State(region, dict(mem), Trace())
    st.mem[OBJ] = m
    fs, v = call(I, st, "read", q)
    if fs is None:
        raise Unsupported("probe has no result")
    return val8(I, v, "read")


def check(facts, rep):
    out, pan, st = analyse(facts)
    from report import words
    for d in out:
        rep.finding(d.what, d.what, d.sites, words(B.witness(d.cond)))
    for g, s, what, stk in pan:
        rep.finding(f"panic: {what}", f"an access in the physical address space panics: {what}", [s], words(B.witness(g)))
    for k, v in st.items():
        rep.count(k, v)


def panics(facts, rep):
    out, pan, st = analyse(facts)
    from report import words
    for g, s, what, stk in pan:
        rep.finding(f"panic: {what}", f"an access in the physical address space panics: {what}", [s], words(B.witness(g)))
    rep.count("mir_blocks_interpreted", st["blocks"])
