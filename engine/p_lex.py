"""What the lines of a source file are read as."""
import lexer
from bdd import B, const, eqc
import bdd

_F = None


def between(v, a, b):
    return B.and_(B.not_(bdd.ult(v, const(ord(a), 8))), B.not_(bdd.ult(const(ord(b), 8), v)))


CLASS = {
    "?": None,
    "d": lambda v: between(v, "0", "9"),
    "h": lambda v: B.or_(between(v, "0", "9"), B.or_(between(v, "a", "f"), between(v, "A", "F"))),
    "b": lambda v: between(v, "0", "1"),
    "o": lambda v: between(v, "0", "7"),
    "w": lambda v: B.not_(lexer.blank(v)),                             # no blank
    "s": lambda v: B.and_(B.not_(lexer.blank(v)), B.not_(eqc(v, ord(",")))),
}


def shape(*parts):
    """Text, or ("class", how many)."""
    r = []
    for p in parts:
        if p == EARLIER:
            continue
        if isinstance(p, str):
            r += list(p.encode())
        else:
            r += [CLASS[p[0]]] * p[1]
    return r


EARLIER = "an error was reported before"
Q = lambda n: ("?", n)
QUICK = [(Q(n),) for n in range(7)] + [(".", Q(n)) for n in range(5, 12)] + [("add ", Q(n)) for n in range(1, 6)] + [
    (" .string ", Q(5)), (".string ", Q(6)), (".byte ", Q(4)), (".byte -", ("d", 4)), (".byte 0x", ("h", 3)),
    (".wide ", Q(5)), (".word ", Q(4)), (".wide ", ("d", 5)), (".word 0x", ("h", 5)), (".seg ", Q(5)), (".global ", Q(4)),
    (".globl ", Q(3)), (".ref ", Q(4)), (".reference ", Q(3)), (".include ", Q(4)), (".entry ", Q(2)),
    ("x ", ("d", 3), "b"), ("x -", ("d", 3), "b"), ("x ", ("d", 5), "w"), ("x -", ("d", 5), "w"), ("x 0x", ("h", 4), "w"),
    ("x 0b", ("b", 8), "b"), ("x 0b1", ("b", 8), "w"), ("x 0o", ("o", 3), "b"), ("x 0o", ("o", 5), "w"), ("x 0b", ("b", 12)),
    ("x 21474836", ("d", 2)), ("x -21474836", ("d", 2)), ("x 0x7ffffff", ("h", 1)), ("x 0x", ("h", 8)), ("x 0x1", ("h", 8)), ("x ", ("d", 6)),
    ("x '", Q(2), "'"), ("x '", Q(3), "'"), ("x '\\x", ("?", 2), "'"), ("x '\\", Q(4)), (".byte '", Q(3)), (".word '", Q(3)),
    ("st r1,", ("s", 2), " ,", ("s", 3)), ("ld r", ("s", 2), ", r", ("s", 1), ",r", ("s", 2)), ("a", Q(2), " r2", Q(2)),
    ("  ", Q(2), "ab", Q(3)), ("lab", Q(3), ":"), ("\tadd  r1", Q(3)), ("add r1,r2,r3,r4,r5", Q(2)), ("; ", Q(3)), ("/", Q(4)), ("#", Q(3)),
    (EARLIER, Q(3)), (EARLIER, ".", Q(6)), (EARLIER, "x '", Q(2)),
]
DEEP = [(Q(7),), ("add ", Q(6)), ("x ", Q(2), " ", Q(4)), (".string ", Q(8)), (".", Q(12)), (".wide ", Q(6)), ("x ", ("s", 2), ",", ("s", 2), ",", ("s", 2))]


def _run(x):
    return lexer.check(_F, shape(*x), EARLIER in x)


def C31(ctx, rep):
    global _F
    from pool import pmap
    _F = ctx.lib()
    for x, (ds, panics, blocks, rows) in pmap(_run, QUICK + (DEEP if rep.tier == "thorough" else [])):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("shapes_of_lines", 1)
        rep.count("cases_compared", rows)
        for what, w, sites in ds:
            rep.finding(f"line:{what}", f"reading a source line: {what}", sites, w)
        for what, sites, w in panics:
            rep.finding(f"line:panic:{what}", f"reading a source line panics ({what})", sites, w)
    return ("The line parser is interpreted over families of lines (any ASCII text of up to six characters; each directive, label, "
            "instruction, operand, literal and string with any characters in the open places), each also failing to be read. "
            "What is delivered, its line number, the errors reported and the line read next are compared with the specified grammar.")
