"""Properties of the command-line tools."""
import tools

_F = None
DATA = ("Raw", "Wide")
MIXED = DATA + ("Ins.WideImm", "Ins.ImmediateWide")
# source files, labels, (segment, its lines), kinds of some lines
TC = [(1, 1, (("Text", 1),), ()),
      (1, 1, (("Text", 2),), ((("Text", 0), ("Raw",)), (("Text", 1), ("Ins",)))),
      (1, 2, (("Text", 2),), ((("Text", 0), MIXED), (("Text", 1), MIXED))),
      (1, 2, (("Text", 1), ("Data", 1)), ((("Text", 0), DATA + ("Ins.WideImm",)), (("Data", 0), DATA))),
      (1, 2, (("Text", 3),), ((("Text", 0), ("Ins.ImmediateWide",)), (("Text", 1), ("Wide",)), (("Text", 2), ("Ins.WideImm", "Ins.FourByte")))),
      (1, 3, (("RoData", 2),), ((("RoData", 0), ("Wide",)), (("RoData", 1), ("Wide",)))),
      (2, 1, (("Text", 1),), ((("Text", 0), DATA),)),
      (3, 1, (("Data", 1),), ((("Data", 0), ("Wide",)),))]
TC_DEEP = [(2, 1, (("Text", 1),), ()),
           (1, 2, (("Text", 2),), ((("Text", 0), DATA + ("Ins",)), (("Text", 1), ("Wide",)))),
           (1, 2, (("Text", 1), ("Zero", 1), ("Heap", 1)), ((("Text", 0), ("Wide",)), (("Zero", 0), ("Raw",)), (("Heap", 0), ("Raw", "Wide")))),
           (1, 2, (("Text", 3),), ((("Text", 0), ("Raw",)), (("Text", 1), ("Wide",)), (("Text", 2), ("Ins.WideImm",))))]


def _tc(x):
    nargs, nlabels, segs, kinds = x
    ds, panics, I = tools.assemble(_F, nargs, nlabels, segs, dict(kinds) or None)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what in panics], I.blocks


def C26(ctx, rep):
    global _F
    from pool import pmap
    _F = ctx.bin("tc")
    for x, (ds, panics, blocks) in pmap(_tc, TC + (TC_DEEP if rep.tier == "thorough" else [])):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_programs", 1)
        for what, w, sites in ds:
            rep.finding(f"tc:{what}", f"the assembler: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"tc:panic:{what}", f"the assembler panics ({what})", [site], w)
    return ("The assembler's main function is interpreted over one to three source files of which each may fail to open, to "
            "assemble or to be written, and whose processed form is arbitrary (families with up to three lines, of every "
            "operand kind, and three labels). Each object it writes is compared with the specification's encoding of the "
            "program: bytes, symbols, relocations, entry point, file name; and the exit status with what failed.")


# (choices closed to leave room for others)
PLAIN = {" has Text": 1, " has Data": 1, "has an entry": 0, "cannot be read": 0, "fails": 0, "in a missing segment": 0, "executable": 0,
         "output given": 1, "verbose": 0}
BARE = dict(PLAIN, **{"strip internal": 0})
ONE, TWO = ("Text",), ("Text", "Data")
# object files: their segments, how many, their symbols, relocations
TL = [("any two objects", ONE, 2, 1, 1, {}),
      ("two uses each", ONE, 2, 1, 2, dict(size=4, fix={"fails": 0, "verbose": 0})),
      ("two segments", TWO, 2, 1, 0, {}),
      ("two segments, one object", TWO, 1, 2, 1, {}),
      ("uses in two segments", TWO, 2, 1, 1, dict(fix=PLAIN)),
      ("three objects", ONE, 3, 1, 1, dict(size=2, names=2, fix=BARE)),
      ("an object of an archive", ONE, 1, 1, 1, dict(nlib=1)),
      ("entry option", ONE, 2, 1, 1, dict(set_entry=True, fix={"fails": 0})),
      ("other segments", ("RoData", "Heap"), 2, 1, 0, dict(fix=PLAIN)),
      ("any alignment", TWO, 1, 0, 0, dict(alignment=None)),
      ("any lengths", TWO, 2, 0, 0, dict(big=True, fix={"has an entry": 0, "fails": 0})),
      ("any symbol places", ONE, 1, 1, 0, dict(big=True, fix={"fails": 0}))]
TL_DEEP = [("two symbols each", ONE, 2, 2, 1, dict(size=2, names=2, fix=BARE)),
           ("uses in all segments", TWO, 2, 1, 1, dict(size=2, fix={"fails": 0, "cannot be read": 0, "has an entry": 0, "verbose": 0, "output given": 1})),
           ("three objects' symbols", ONE, 3, 1, 0, dict(size=2, fix=PLAIN)),
           ("an archive and two objects", ONE, 2, 1, 1, dict(size=2, names=2, nlib=1, fix=BARE)),
           ("three segments", ("Text", "Data", "RoData"), 1, 2, 1, dict(size=2, fix=PLAIN)),
           ("longer", ONE, 2, 1, 1, dict(size=6, fix={"fails": 0, "verbose": 0}))]


def _tl(x):
    import linker
    what, kinds, nobj, nsyms, nrel, kw = x
    ds, panics, I = linker.link(_F, kinds, nobj, nsyms, nrel, **kw)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what, *_ in panics], I.blocks


def _tl_cases(x):
    """The cases of a family of objects by the first choice that is still open."""
    what, kinds, nobj, nsyms, nrel, kw = x
    fix = kw.get("fix", {})
    K = len(kinds)
    open_ = [(f"object{k} relocations", range(nrel + 1)) for k in range(nobj) if nrel]
    open_ += [(f"object{k}.symbol{i} segment", range(K + 1)) for i in range(nsyms) for k in range(nobj)]
    open_ += [(f"object{k}.relocation{i} segment", range(K + (not fix.get("in a missing segment", 1) == 0)))
              for i in range(nrel) for k in range(nobj) if fix.get(f"object{k} relocations") != 0]
    for name, values in open_:
        if name not in fix and len(values) > 1:
            return [(f"{what}, {name} = {v}", kinds, nobj, nsyms, nrel, dict(kw, fix=dict(fix, **{name: v}))) for v in values]
    return None


def C27(ctx, rep):
    global _F
    from pool import pmap
    _F = ctx.bin("tl")
    for x, (ds, panics, blocks) in pmap(_tl, TL + (TL_DEEP if rep.tier == "thorough" else []), split=_tl_cases):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_objects", 1)
        for what, w, sites in ds:
            rep.finding(f"tl:{what}", f"the linker: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"tl:panic:{what}", f"the linker panics ({what})", [site], w)
    return ("The linker's main function is interpreted over one to three arbitrary object files (segments, bytes, symbols, "
            "relocations, entry points; each unreadable or not) and every option but the raw binary one. The object it writes is "
            "compared with the layout that the specification gives: the place and bytes of every segment, the address of every "
            "symbol, the use at every relocation, entry point and header; and the exit status with whether linking must fail.")


def _small(x):
    import smalltools
    F, fn, args = x
    ds, panics, I = getattr(smalltools, fn)(_F[F], *args)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what, *_ in panics], I.blocks


def _tools(ctx, rep, items, verb):
    global _F
    from pool import pmap
    _F = {b: ctx.bin(b) for b in sorted({x[0] for x in items})}
    for x, (ds, panics, blocks) in pmap(_small, items):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_inputs", 1)
        v = verb[x[1]]
        for what, w, sites in ds:
            rep.finding(f"{x[1]}:{what}", f"{v}: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"{x[1]}:panic:{what}", f"{v} panics ({what})", [site], w)


def C28(ctx, rep):
    deep = rep.tier == "thorough"
    _tools(ctx, rep, [("t", "emulate", (2,)), ("t", "emulate", (1,))], {"emulate": "the emulator tool"})
    return ("The emulator tool's main function is interpreted over any file (unreadable, an object with or without entry point, "
            "any content) with the machine as an unknown partner that may end with any trap: what is loaded before it runs, "
            "that it runs once, the exit status, and the place it reports for a termination point.")


def C29(ctx, rep):
    deep = rep.tier == "thorough"
    items = [("tar", "archive", (3,)), ("tobjdump", "unarchive", ("tobjdump", 3)), ("tl", "unarchive", ("tl", 2))]
    _tools(ctx, rep, items + ([("tar", "archive", (5,)), ("tl", "unarchive", ("tl", 5))] if deep else []),
           {"archive": "the archiver", "unarchive": "reading an archive"})
    return ("The archiver's main function is interpreted over several files with any failing operation: what is written, in "
            "which order. The archive reader is interpreted over a file with any first bytes and length and any object ends, "
            "any operation failing: where each object is read from, the order, the end and the errors.")


def C30(ctx, rep):
    deep = rep.tier == "thorough"
    items = [("tstrip", "strip", (2, 2)), ("tobjdump", "dump", (2, 2, 1, True)), ("tobjdump", "dump", (1, 2, 2)),
             ("tobjdump", "dump", (3, 1, 1, True))]
    _tools(ctx, rep, items + ([("tstrip", "strip", (3, 3)), ("tobjdump", "dump", (2, 2, 2, True))] if deep else []),
           {"strip": "the stripper", "dump": "the object dumper"})
    return ("The main functions of the stripper and the object dumper are interpreted over several files (objects, archives of "
            "objects; each unreadable or unwritable) with any symbols, and any options: the object written back against what "
            "the options ask for; the objects shown and the names, places and segments listed; the exit status.")


# inputs, objects in each archive, symbols of each object, names; closed choices
CALM = {"cannot be read": 0, "cannot be opened": 0, "verbose": 0}
_C = dict(CALM, **{" global": 1, "backwards": 0, "objects in archive 0": 3, "object0 symbols": 1, "object0.symbol0 segment": 1})
CHAIN = dict(_C, **{f"object{k} symbols": 2 for k in (1, 2, 3)}, **{f"object{k}.symbol{i} segment": i for k in (1, 2, 3) for i in (0, 1)})
BACK = dict(CHAIN, **{"object0.symbol0 name": 0, "object3.symbol0 name": 0, "object3.symbol1 name": 1, "object2.symbol0 name": 1})
AR = [("one archive", 1, (2,), 2, 3, {}),
      ("two inputs", 2, (2,), 1, 3, {}),
      ("two archives", 1, (1, 2), 1, 3, {}),
      ("three objects", 1, (3,), 1, 3, {}),
      ("each needed by the next", 1, (3,), 2, 3, BACK)]
AR_DEEP = [("a chain", 1, (3,), 2, 3, dict(CHAIN, **{"object0.symbol0 name": 0})),
           ("two of each", 2, (1, 1), 2, 2, {}),
           ("four objects", 1, (2, 2), 1, 3, CALM)]


def _ar(x):
    import archsel
    what, nobj, sizes, nsyms, names, fix = x
    ds, panics, I = archsel.select(_F, nobj, sizes, nsyms, names, fix)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what, *_ in panics], I.blocks


def _ar_cases(x):
    what, nobj, sizes, nsyms, names, fix = x
    n = nobj + sum(sizes)
    for i in range(nsyms):
        for k in range(n - 1, 0, -1):
            q = f"object{k}.symbol{i} name"
            if q not in fix:
                return [(f"{what}, {q} = {v}", nobj, sizes, nsyms, names, dict(fix, **{q: v})) for v in range(names)]
    return None


def C32(ctx, rep):
    global _F
    from pool import pmap
    _F = ctx.bin("tl")
    for x, (ds, panics, blocks) in pmap(_ar, AR + (AR_DEEP if rep.tier == "thorough" else []), split=_ar_cases):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_archives", 1)
        for what, w, sites in ds:
            rep.finding(f"tl:{what}", f"the linker: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"tl:panic:{what}", f"the linker panics ({what})", [site], w)
    return ("The linker's selection from archives is interpreted over any one or two input objects and archives of up to three "
            "objects with any symbols (name, visibility, defined or not), any of them unreadable, and any iteration order of its "
            "hash maps that is the order of insertion or its reverse. What it links is compared with the least set of objects "
            "closed under need.")


def _words(*ws):
    return tuple(tuple(w.encode()) + (10,) for w in ws)


def _any(n, before="", after="\n"):
    return ((tuple(before.encode()) + (None,) * n + tuple(after.encode()),),)


STEPS = _words("n", "si", "so")
TALK = _words("r 16", "rpc", "n", "r2l", "r 0x10", "g 3", "?")
# commands (each one of several lines; None: any character), times the program goes on, symbols, entry point asked for
DEBUG = ([(f"any {n} characters", _any(n), 2, 0, None) for n in range(1, 5)] +
         [("any 5 characters without a line end", _any(5, "", ""), 2, 0, None)] +
         [(f"{w}", (_words(w),), 2, 1, None) for w in ("stepin", "stepout", "flags", "  next ", "si \r")] +
         [(f"{ch} and any {n} characters", _any(n, ch + " ") + _words("rpc")[:0] + (_words("rpc"),), 2, 0, None) for ch in "rg" for n in (1, 2, 3, 4)] +
         [(f"{ch} {pre} and any {n} characters", _any(n, ch + " " + pre) + (_words("rpc"),), 2, 0, None) for ch in "rg" for pre in ("0x", "0o", "0b", "6") for n in (3, 4)] +
         [("a place with a name", (_words("g 16", "g 17", "n", "si", "so"),) * 2, 2, 2, None),
          ("steps", (STEPS,) * 4, 4, 0, None),
          ("steps and labels", (STEPS,) * 2, 3, 2, None),
          ("one after the other", (TALK, TALK, TALK), 2, 0, None),
          ("three symbols", (), 1, 3, None),
          ("a named entry point", (_words("n"),), 1, 2, ("name", "main")),
          ("another named entry point", (), 1, 3, ("name", "f"))] +
         [(f"an entry point of {n} characters", (_words("rpc"),), 1, n < 3, ("hex", (None,) * n)) for n in range(0, 5)])
DEBUG_DEEP = [("any two commands of 2 characters", _any(2) + _any(2), 2, 0, None),
              ("r and any 5 characters", _any(5, "r "), 2, 0, None),
              ("more steps", (STEPS,) * 6, 6, 0, None),
              ("steps, places and labels", (_words("g 0x10", "n", "si", "so"),) * 4, 4, 2, None),
              ("an entry point of 5 characters", (_words("rpc"),), 1, 0, ("hex", (None,) * 5)),
              ("four symbols", (), 1, 4, None)]


def _dbg(x):
    import debugger
    any_ = lambda v: 1
    sh = lambda cs: [c if c is not None else any_ for c in cs]
    what, commands, runs, nsyms, entry = x
    entry = (entry[0], sh(entry[1])) if entry and entry[0] == "hex" else entry
    ds, panics, I = debugger.debug(_F, [[sh(a) for a in alts] for alts in commands], runs, nsyms, entry)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what, *_ in panics], I.blocks


def C33(ctx, rep):
    global _F
    from pool import pmap
    _F = ctx.bin("tdbg")
    for x, (ds, panics, blocks) in pmap(_dbg, DEBUG + (DEBUG_DEEP if rep.tier == "thorough" else [])):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_sessions", 1)
        for what, w, sites in ds:
            rep.finding(f"tdbg:{what}", f"the debugger: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"tdbg:panic:{what}", f"the debugger panics ({what})", [site], w)
    return ("The debugger's main function is interpreted over any object (or none), any content of the machine, and sessions of "
            "commands with any characters; the machine is an unknown partner whose instructions may call, return, end or not be "
            "fetched. A monitor follows what the session asks for: what is shown, when the program goes on, and where.")
