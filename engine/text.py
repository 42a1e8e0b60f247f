"""Formatted text: strings as sequences of literal pieces and formatted values.

A String (or the target of a Formatter) holds guarded alternatives
("txt", pieces); a piece is ("l", literal) or ("f", trait, spec, type, value).
Displaying a type of the analysed crate is interpreted (its fmt body is run on
a sink); numbers and register types stay symbolic pieces."""
import itertools
import re
import bdd
from bdd import B, const, to_int, eqc
from interp import State, Trace, merge, atom, U, UNIT, Unsupported, bv

_n = itertools.count(1)
MAXALT = 400
KEEP = ("telda2::blf4::ByteRegister", "telda2::blf4::WideRegister")


def txt(pieces=()):
    return atom("txt", tuple(pieces))


def cat(a, b):
    a, b = list(a), list(b)
    if a and b and a[-1][0] == "l" and b[0][0] == "l":
        a[-1:] = [("l", a[-1][1] + b[0][1])]
        b = b[1:]
    return tuple(a + b)


def alts(v):
    """Guarded piece sequences of a text value."""
    if v[0] != "o":
        raise Unsupported(f"text value {v[0]}")
    out = []
    for g, a in v[1]:
        if a[0] == "txt":
            out.append((g, a[1]))
        else:
            out.append((g, (("s", a),)))
    return out


def product(g0, xs, ys):
    out = {}
    for g, a in xs:
        for h, b in ys:
            k = B.and_(B.and_(g, h), g0)
            if k:
                c = cat(a, b)
                out[c] = B.or_(out.get(c, 0), B.and_(g, h))
    if len(out) > MAXALT:
        raise Unsupported("too many alternatives of a text")
    return [(g, a) for a, g in out.items()]


def value(al):
    return ("o", tuple((g, ("txt", a)) for g, a in al))


def deref_(I, st, v):
    return I.read_targets(st, [(g, o, p) for g, (o, p) in I.as_ptr(st, v)[1]])


def append(I, st, ptr, more):
    p = I.as_ptr(st, ptr)
    for g, (o, path) in p[1]:
        v = I.read_path(I.load_obj(st, o), path)
        new = value(product(B.and_(st.g, g), alts(v), more))
        st.mem[o] = I.write_path(I.load_obj(st, o), path, new, g)
    return st


def template(b):
    """[("l", text) | ("a", index, spec)] of a format template."""
    out = []
    i = k = 0
    while i < len(b) and b[i] != 0:
        c = b[i]
        i += 1
        if c < 0x80:
            out.append(("l", bytes(b[i:i + c]).decode()))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(("l", bytes(b[i + 2:i + 2 + n]).decode()))
            i += 2 + n
        elif c & 0xc0 == 0xc0:
            flags, width, prec, idx = None, None, None, k
            if c & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if c & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if c & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if c & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if c & 0x30:
                raise Unsupported("format spec with runtime width")
            out.append(("a", idx, (flags, width, prec)))
            k = idx + 1
        else:
            raise Unsupported("format template")
    return out


def display(I, st, kind, t, v, spec):
    """Alternatives of the text of one argument. v is a pointer to it."""
    ty = I.T[t]
    while ty["k"] in ("ref",) or ty.get("def") in ("std::boxed::Box", "alloc::boxed::Box"):
        if ty["k"] == "ref" and I.T[ty["e"]]["k"] == "str" or ty["k"] != "ref" and I.T[ty["args"][0]]["k"] == "str":
            break
        v = deref_(I, st, v)
        t = ty["e"] if ty["k"] == "ref" else ty["args"][0]
        ty = I.T[t]
    plain = spec == (None, None, None) or spec[1] is None and spec[2] is None and (spec[0] or 0x20) & 0xffffff == 0x20
    if ty["k"] == "str" or ty["k"] in ("ref",) or ty.get("def") in ("std::boxed::Box",):
        sv = v if ty["k"] == "str" else deref_(I, st, v)
        if sv[0] == "a":
            sv = I.as_ptr(st, sv)
        return string(I, st, sv)
    if ty.get("def", "").endswith("string::String"):
        sv = deref_(I, st, v)
        if sv[0] == "a" and plain:
            import rt
            return string(I, st, rt.slice_of(I, st, v))
        if plain:
            return alts(sv)
        return [(1, (("f", kind, spec, "String", sv),))]
    val = deref_(I, st, v)
    name = ty["s"]
    if ty["k"] in ("int", "uint", "bool", "char") or name in KEEP or kind not in ("display",):
        return [(1, (("f", kind, spec, name, val),))]
    key = None
    for k, i in I.F.insts.items():
        if i["nm"].endswith(" as std::fmt::Display>::fmt") and i.get("body") and \
                I.F.tys[i["body"]["locals"][1]].get("e") == t:
            key = k
    if key is None:
        return [(1, (("f", kind, spec, name, val),))]
    obj = ("H", f"sink{next(_n)}")
    st.mem[obj] = txt()
    s2, r = I.call(st, key, [v, ("p", ((1, (obj, ())),), None)])
    if s2 is None:
        return []
    st.g, st.tr = s2.g, s2.tr
    st.mem.update(s2.mem)
    return alts(s2.mem[obj])


def string(I, st, sv):
    """Alternatives of the text behind a &str value."""
    b = I.const_str(sv)
    if b is not None:
        return [(1, (("l", b.decode()),))]
    if sv[0] == "p":
        out = []
        for g, (o, path) in sv[1]:
            if o[0] == "LIT":
                out.append((g, (("l", o[1]),)))
                continue
            one = I.const_str(("p", ((1, (o, path)),), sv[2]))
            if one is not None:
                out.append((g, (("l", one.decode()),)))
                continue
            if o[0] == "TXT":
                v = st.mem[o]
                out += [(B.and_(g, h), a) for h, a in alts(v)]
                continue
            k = ("str", o, path)
            out.append((g, (("s", k + (sv[2],) if getattr(I, "strmeta", False) else k),)))
        return out
    return [(1, (("s", sv),))]


def install(I):
    M = I.models

    def arg_new(kind):
        def f(I, st, inst, args, site):
            return st, atom("arg", kind, inst["args"][0], args[0])
        return f

    def new_args(I, st, inst, args, site):
        (_, (ob, _p)), = args[0][1]
        tb = I.const_bytes(ob[1], ob[3], inst["args"][0]["const"]) if ob[0] == "K" else None
        if tb is None:
            raise Unsupported("format template is not constant")
        n = inst["args"][1]["const"]
        res = [(1, ())]
        for x in template(tb):
            if x[0] == "l":
                more = [(1, (x,))]
            else:
                a = I.read_targets(st, [(g, o, I.idx(p, const(x[1], 64)))
                                        for g, (o, p) in elems(I, st, args[1])])
                more = []
                for g, at in a[1]:
                    if at[0] != "arg":
                        raise Unsupported("format argument")
                    more += [(B.and_(g, h), q) for h, q in display(I, st, at[1], at[2], at[3], x[2])]
            res = product(st.g, res, more)
        return st, value(res)

    def elems(I, st, v):
        # pointer to an array: its elements
        out = []
        for g, (o, p) in I.as_ptr(st, v)[1]:
            out.append((g, (o, p + (("s", const(0, 64)),))))
        return out

    def from_str(I, st, inst, args, site):
        return st, value(string(I, st, args[0]))

    def write_fmt(I, st, inst, args, site):
        return append(I, st, args[0], alts(args[1])), ok(I, inst)

    def write_str(I, st, inst, args, site):
        return append(I, st, args[0], string(I, st, args[1])), ok(I, inst)

    def push_str(I, st, inst, args, site):
        return append(I, st, args[0], string(I, st, args[1])), UNIT

    def push(I, st, inst, args, site):
        n = to_int(args[1][1])
        pc = ("l", chr(n)) if n is not None else ("f", "display", (None, None, None), "char", args[1])
        return append(I, st, args[0], [(1, (pc,))]), UNIT

    def ok(I, inst):
        return ("e", const(0, 1), ((UNIT,), (UNIT,)))

    def format_(I, st, inst, args, site):
        return st, value(alts(args[0]))

    def str_display(I, st, inst, args, site):
        return append(I, st, args[1], string(I, st, args[0])), ok(I, inst)

    def prim_display(kind):
        def f(I, st, inst, args, site):
            v = deref_(I, st, args[0])
            w = len(v[1])
            return append(I, st, args[1], [(1, (("f", kind, (None, None, None), f"u{w}", v),))]), ok(I, inst)
        return f

    def num_string(I, st, inst, args, site):
        v = deref_(I, st, args[0])
        return st, value([(1, (("f", "display", (None, None, None), f"u{len(v[1])}", v),))])

    def add_assign(I, st, inst, args, site):
        return append(I, st, args[0], string(I, st, args[1])), UNIT

    def add(I, st, inst, args, site):
        obj = ("TXT", next(_n))
        st.mem[obj] = args[0]
        st = append(I, st, ("p", ((1, (obj, ())),), None), string(I, st, args[1]))
        return st, st.mem.pop(obj)

    def empty(I, st, inst, args, site):
        return st, txt()

    def strlen(I, st, inst, args, site):
        return st, ("b", bdd.zext(bdd.fresh(f"strlen#{next(_n)}", 48), 64))

    def deref(I, st, inst, args, site):
        v = deref_(I, st, args[0])
        obj = ("TXT", next(_n))
        st.mem[obj] = v
        return st, ("p", ((1, (obj, (("s", const(0, 64)),))),), ("b", bdd.fresh(f"strlen#{next(_n)}", 64)))

    def from_s(I, st, inst, args, site):
        return st, value(string(I, st, args[0]))

    for k, i in I.F.insts.items():
        n = i["nm"]
        if "fmt::rt::Argument" in n and "::new_" in n:
            M[n] = arg_new(n.split("::new_")[1].split("::")[0])
        elif n.startswith("std::fmt::Arguments::new::<"):
            M[n] = new_args
        elif n == "std::fmt::Arguments::from_str":
            M[n] = from_str
        elif n in ("<std::string::String as std::fmt::Write>::write_fmt", "std::fmt::Formatter::write_fmt"):
            M[n] = write_fmt
        elif n in ("<std::string::String as std::fmt::Write>::write_str", "std::fmt::Formatter::write_str",
                   "<std::fmt::Formatter as std::fmt::Write>::write_str", "std::fmt::Formatter::pad"):
            M[n] = write_str
        elif n == "std::string::String::push_str":
            M[n] = push_str
        elif n == "std::string::String::push":
            M[n] = push
        elif n in ("std::fmt::format", "alloc::fmt::format"):
            M[n] = format_
        elif n == "<str as std::fmt::Display>::fmt":
            M[n] = str_display
        elif n.startswith("core::fmt::num::") and n.endswith("::fmt") and "Display for u" in n:
            M[n] = prim_display("display")
        elif n.startswith("core::fmt::num::") and n.endswith("::fmt") and "LowerHex for u" in n:
            M[n] = prim_display("lower_hex")
        elif re.fullmatch(r"<(u8|u16|u32|u64|usize) as std::string::(ToString>::to|SpecToString>::spec_to)_string", n):
            M[n] = num_string
        elif n.startswith("<std::string::String as std::ops::AddAssign<&str>>::"):
            M[n] = add_assign
        elif n.startswith("<std::string::String as std::ops::Add<&str>>::"):
            M[n] = add
        elif n in ("std::string::String::new", "std::string::String::with_capacity"):
            M[n] = empty
        elif n == "std::string::String::len":
            M[n] = strlen
        elif n in ("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str"):
            M[n] = deref
        elif n in ("<std::string::String as std::convert::From<&str>>::from", "<str as std::borrow::ToOwned>::to_owned",
                   "<str as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string"):
            M[n] = from_s
