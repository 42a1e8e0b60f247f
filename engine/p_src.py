"""Properties of source::process: layout of segments, addresses, symbols, errors."""
import srcproc

_F = None
SYM = ("Label", "DirWide", "DirGlobal", "DirReference")
SEG = ("DirSeg",)
INC = ("DirInclude",)
# how many lines, lines of an included file, the kinds of some lines, short names
QUICK = [(1, 0, (), False), (2, 0, (), False), (3, 0, ((0, SEG),), False), (3, 0, ((1, SEG),), True),
         (4, 0, ((0, SEG), (2, SEG)), True), (4, 0, ((0, SEG), (1, SYM), (2, SYM), (3, SYM)), True),
         (5, 0, ((0, SEG), (2, SEG), (3, ("DirWide", "Label")), (4, ("Label", "DirEntry"))), True),
         (2, 1, (), True), (3, 1, ((0, SEG), (1, INC)), True), (3, 1, ((0, SEG), (2, INC)), True), (1, 2, ((0, INC),), True)]
DEEP = [(3, 0, (), True), (4, 0, ((0, SEG), (1, ("DirString",)), (2, SEG)), False),
        (5, 0, ((0, SEG), (1, ("DirString",)), (2, SEG), (3, ("DirString",))), True),
        (4, 0, ((0, SEG), (1, ("Ins", "DirByte")), (3, SYM + ("DirEntry",))), True),
        (2, 2, ((0, SEG), (1, INC)), True)]
ADDRESS = ("an entry point is lost or invented", "the entry point is not the next address after the directive",
           "a segment is lost or invented", "the start of a segment differs from its specified value",
           "the size of a segment differs from its lines", "a segment has lines lost or invented",
           "a line's data is of another kind than the line", "a line's data differs from the line",
           "a label use refers to no symbol", "a label use refers to another label's symbol",
           "a symbol is not at the address of its label")


def _run(x):
    n, inner, only, short = x
    ds, panics, I = srcproc.process(_F, n, inner, dict(only), short)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what in panics], I.blocks


def _all(ctx, rep, mine):
    global _F
    from pool import pmap
    _F = ctx.lib()
    for (n, inner, only, short), (ds, panics, blocks) in pmap(_run, QUICK + (DEEP if rep.tier == "thorough" else [])):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("families_of_programs", 1)
        for what, w, sites in ds:
            if mine(what):
                rep.finding(f"process:{what}", f"assembling a program: {what}", sites, w)
        for what, site, w in panics:
            if mine("panic"):
                rep.finding(f"process:panic:{what}", f"assembling a program panics ({what})", [site], w)


EXPL = ("source::process is interpreted over arbitrary sequences of source lines (families of programs of up to four lines, "
        "also of included files; names of up to seven bytes), with the line parser and the instruction encoder as unknown partners. ")


def C24(ctx, rep):
    _all(ctx, rep, lambda what: what in ADDRESS)
    return EXPL + ("The data lines of every segment, their sizes, the starts of segments, the addresses of labels, of the entry "
                   "point and the targets of label uses are compared with an address counter kept by the specification.")


def C25(ctx, rep):
    _all(ctx, rep, lambda what: what not in ADDRESS)
    return EXPL + ("Whether the program is accepted, and which symbols it has with which visibility, is compared with the "
                   "declarations and uses among the lines; no program makes it panic.")
