"""Properties of object files: section layouts, the container, objects."""
import objfile

_F = None


def _run(x):
    fn, args = x
    ds, panics, I = getattr(objfile, fn)(_F, *args)
    return ds, [(what, site, I.witness(g) if hasattr(I, "witness") else {}) for g, site, what in panics], I.blocks


def _all(ctx, rep, items, verb):
    global _F
    from pool import pmap
    _F = ctx.lib()
    for (fn, args), (ds, panics, blocks) in pmap(_run, items):
        tag = ":".join([fn] + [a for a in args if isinstance(a, str)])
        rep.count("basic_blocks_analysed", blocks)
        rep.count("functions_compared", 1)
        what0 = verb[fn] + (f" ({args[0]})" if args and isinstance(args[0], str) else "")
        for what, w, sites in ds:
            rep.finding(f"{tag}:{what}", f"{what0}: {what}", sites, w)
        for what, site, w in panics:
            rep.finding(f"{tag}:panic:{what}", f"{what0} panics ({what})", [site], w)


def C21(ctx, rep):
    items = []
    more = {"syms": 2, "reloc": 3} if rep.tier == "thorough" else {}
    for k in objfile.STRUCT:
        items += [("read_codec", (k, more.get(k, 2))), ("write_codec", (k, 3 if k == "reloc" and more else 2)), ("section_name", (k,))]
    items += [(fn, (k, 1)) for fn in ("read_codec", "write_codec") for k in ("syms", "reloc")]
    _all(ctx, rep, items, {"read_codec": "reading a section", "write_codec": "writing a section",
                           "section_name": "the name of a section"})
    return ("The writer and the reader of each section kind are interpreted over a file with arbitrary content, size, position "
            "and I/O errors, for an arbitrary section value (tables: up to two entries). Every byte written, "
            "every field read, the final position and success or error are compared with the documented layout.")


def C22(ctx, rep):
    items = [("find_magic", (15 if rep.tier == "thorough" else 13,)), ("read_container", ()),
             ("read_container", (2, 8, 4, (6, 6))), ("read_container", (2, 8, 4, (6, 3))),
             ("read_container", (2, 8, 4, (3, 6))), ("write_container", ()),
             # (files of fixed proportions, where a wrong position cannot blow the analysis up)
             ("read_container", (3, 6, 4, (6, 6, 6), (2, 2, 2))), ("read_container", (3, 8, 4, (3, 6, 6), (2, 1, 2)))]
    items += [("read_container", (1, 17, 6, (6,), (n,))) for n in (3, 0x7fff, 0x8001, 0xffff)]
    _all(ctx, rep, items, {"find_magic": "finding the magic", "read_container": "reading a container",
                           "write_container": "writing a container"})
    return ("The container's reader and writer are interpreted over a file with arbitrary content and size and probe sections "
            "that read and write in arbitrary ways; positions, windows, bytes and errors are compared with the format. The "
            "search for the magic is compared with the first occurrence in every short file.")


def C23(ctx, rep):
    items = [("read_object", ()), ("write_object", ()), ("open_for_writing", ())]
    _all(ctx, rep, items, {"read_object": "reading an object", "write_object": "writing an object",
                           "open_for_writing": "opening a file for an object"})
    return ("Object::from_aalv_reader and Object::write_to_file are interpreted with the container as an unknown partner: "
            "any combination of sections present, absent, failing to be read or written. The object read, the sections "
            "written, their order and the result are compared with the specification.")
