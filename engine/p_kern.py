"""Properties of the built-in kernel and the loader."""
import kernel


def C12(ctx, rep):
    F = ctx.lib()
    ds, panics, I = kernel.handle_trap(F)
    rep.count("basic_blocks_analysed", I.blocks)
    at = [(kernel.EK, "src/blf4/std_kernel.rs", 0)]
    for what, w, sites in ds:
        rep.finding(f"trap:{what}", what, sites or at, w)
    for s, what, w in panics:
        rep.finding(f"panic:{what}", f"handling a trap panics ({what})", [s], w)
    ds, nf, nc = kernel.show_map(F)
    rep.count("memory_map_functions", nf)
    rep.count("memory_map_calls", nc)
    for what, w, sites in ds:
        rep.finding(f"mmap:{what.split(' (')[0]}", f"showing the memory map: {what}", sites, w)
    ds, n = kernel.machine_loop(F)
    rep.count("basic_blocks_analysed", n)
    for what, w, sites in ds:
        rep.finding(f"loop:{what}", what, sites, w)
    return ("handle_trap is interpreted for an unknown trap, machine and kernel state and compared with the documented system "
            "calls (result, registers, flags, kernel state, physical accesses). execute_once and run_until_abort are "
            "interpreted with the processor and kernel as unknown partners. Every store and call reachable "
            "from the memory-map display is checked: it leaves registers and memory alone.")


def _map_page(page):
    import pages
    ds, panics, I = pages.map_page(_F, page)
    return ds, panics, I.blocks


def C13(ctx, rep):
    import pages
    from pool import pmap
    F = ctx.lib()
    global _F
    _F = F
    for _, (ds, panics, n) in pmap(_map_page, [None] + [(1 << i if i < 9 else 511 * (i - 9), n) for i in range(11) for n in range(3)]):
        rep.count("basic_blocks_analysed", n)
        rep.count("partitions", 1)
        for what, w, sites in ds:
            rep.finding(f"map:{what}", f"mapping a page: {what}", sites, w)
        for s, what, w in panics:
            rep.finding(f"panic:{what}", f"mapping a page panics ({what})", [s], w)
    ds, panics, n = pages.allocator(F)
    rep.count("basic_blocks_analysed", n)
    for what, w, sites in ds:
        rep.finding(f"alloc:{what}", what, sites, w)
    for s, what, w in panics:
        rep.finding(f"panic:{what}", f"allocating a page panics ({what})", [s], w)
    return ("The function that maps one page is interpreted over an unknown memory (array term) with an arbitrary page "
            "table, page and permissions, and compared with the specified update of the two tables at an arbitrary address. "
            "The allocator is interpreted for an arbitrary next page.")


def _load(x):
    import pages
    ds, panics, L = pages.load_program(_F, *x)
    return ds, panics, L.I.blocks, len(L.maps), len(L.writes)


def C14(ctx, rep):
    import bdd
    import pages
    from pool import pmap
    global _F
    _F = ctx.lib()
    bdd.LIMIT = 12_500_000
    pages.Loader(_F, 0)
    kinds = sorted(pages.KINDS)
    items = [(True, n) for n in range(8)] + [(False, None)]
    if rep.tier == "thorough":
        items += [(True, n, k) for n in range(8) for k in kinds if k != "Heap"]
        items += [(False, None, k) for k in kinds]
    else:
        items += [(False, None, "Heap"), (False, None, "Text"), (False, None, "Zero"), (True, 5, "Text")]
    items.sort(key=lambda x: not x[0])
    for x, (ds, panics, blocks, nm, nw) in pmap(_load, items):
        rep.count("basic_blocks_analysed", blocks)
        rep.count("page_mappings", nm)
        rep.count("data_writes", nw)
        rep.count("partitions", 1)
        for what, w, sites in ds:
            rep.finding(f"load:{what}", what, sites, w)
        for s, what, w in panics:
            rep.finding(f"panic:{what}", f"loading a program panics ({what})", [s], w)
    return ("load_user_binary is interpreted for an object with one arbitrary segment (any kind, offset, length), alone or "
            "after a small segment of another kind, with arbitrary flags, heap size, stack size and entry. The loops over "
            "pages are unrolled completely (512 pages). At an arbitrary page the permissions mapped, and at an arbitrary "
            "address the byte stored, are compared with the specification; mapping one page is C13's obligation.")
