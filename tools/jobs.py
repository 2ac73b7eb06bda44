"""What each property's check runs."""


def J(driver, cfg, instr, *args, seed=1, timeout=300, **kw):
    d = dict(driver=driver, cfg=cfg, instr=instr, args=list(args), seed=seed, timeout=timeout)
    d.update(kw)
    return d


def latt(*a):
    return "--latt=" + ",".join(map(str, a))


def rlatt(rng, even0=True, mx=6, vmax=700, mult0=2, mult=1):
    while True:
        l = [rng.randint(1, mx) for _ in range(4)]
        l[0] = rng.randint(1, max(1, mx // mult0)) * mult0
        if mult > 1:
            l = [l[0]] + [rng.randint(1, max(1, mx // mult)) * mult for _ in range(3)]
        v = l[0] * l[1] * l[2] * l[3]
        if 8 <= v <= vmax:
            return latt(*l)


import random
PROPS = {}


def prop(pid, rule, require=(), assumptions=(), width=1):
    def deco(f):
        PROPS[pid] = dict(jobs=f, rule=rule, require=list(require), assumptions=list(assumptions), width=width)
        return f
    return deco


@prop("C01", "one case per lattice size and layout; non-trivial: a distinct lattice size, box or refused size",
      require=["sites", "box_sites", "coordinate_fields", "refused"])
def c01(tier, seed):
    r = random.Random(seed)
    n = 14 if tier == "quick" else 120
    out = []
    for cfg in ("s32", "s32lex", "s32cb3d", "s32cb32"):
        ins = "san"
        out.append(J("d_layout", cfg, ins, "--odd=1", "--cases=%d" % (25 if tier == "quick" else 200), seed=seed))
        for i in range(n if cfg == "s32" else n // 2):
            if cfg == "s32cb32":
                l = latt(4 * r.randint(1, 2), *[2 * r.randint(1, 3) for _ in range(3)])
            elif cfg == "s32lex":
                l = latt(*[r.randint(1, 6) for _ in range(4)])
            else:
                l = latt(2 * r.randint(1, 4), *[2 * r.randint(1, 2) if r.random() < .5 else r.randint(1, 5) for _ in range(3)])
            out.append(J("d_layout", cfg, ins, l, seed=seed + i))
    return out


def even_latt(r, mx=3, lo=1):
    return latt(*[2 * r.randint(lo, mx) for _ in range(4)])


LAYS = ["s32", "s32lex", "s32cb3d", "s32cb32"]


def latt_for(cfg, r, small=False):
    m = 2 if small else 3
    if cfg.endswith("cb32"):
        return latt(4, *[2 * r.randint(1, 2) for _ in range(3)])
    if cfg.startswith(("s32lex", "s64lex", "p32lex")):
        return latt(*[r.randint(1, 5) for _ in range(4)])
    return latt(2 * r.randint(1, m), *[r.choice([2, 4, 2, 4, 6 if not small else 2, 2, 4]) for _ in range(3)])


@prop("C02", "one case per colouring function (random kind, number of colours, seed) and lattice; each is a distinct colouring",
      require=["sets", "table_entries", "ordered_subsets", "unordered_subsets", "subset_ops", "set_copies"])
def c02(tier, seed):
    r = random.Random(seed)
    out = []
    for cfg in LAYS:
        for i in range(6 if tier == "quick" else 40):
            out.append(J("d_sets", cfg, "san", latt_for(cfg, r), "--cases=%d" % (25 if tier == "quick" else 120), seed=seed * 1000 + i))
    return out


@prop("C03", "one case per map (nearest-neighbour shifts of every direction, or a random map function of a random kind) and lattice; distinct by map kind, seed, value mode",
      require=["maps_applied", "maps_made", "site_values_compared"])
def c03(tier, seed):
    r = random.Random(seed)
    out = []
    for cfg in LAYS + ["s64"]:
        for i in range(4 if tier == "quick" else 30):
            out.append(J("d_shift", cfg, "san", latt_for(cfg, r), "--cases=%d" % (15 if tier == "quick" else 60), seed=seed * 1000 + i))
    return out


CAT = ["s32", "s32lex", "s64", "nogen"]


@prop("C04", "one case per statement form (operator, destination type, right-hand side) and value mode, on the whole field and on subsets from a random pool; distinct by form and mode",
      require=["statements", "subset_statements", "aliased_statements", "masked_copies", "site_accesses", "component_pokes"])
def c04(tier, seed):
    r = random.Random(seed)
    out = []
    for cfg in CAT:
        for i in range(3 if tier == "quick" else 12):
            out.append(J("d_expr", cfg, "san0", latt_for(cfg, r, True), "--cases=%d" % (3 if tier == "quick" else 9), seed=seed * 1000 + i))
    return out


@prop("C05", "one case per expression of the catalogue (operation and operand types) and value mode; distinct by expression and mode",
      require=["statements", "scalar_statements", "expressions"])
def c05(tier, seed):
    r = random.Random(seed + 5)
    out = []
    for cfg in CAT:
        for i in range(3 if tier == "quick" else 12):
            out.append(J("d_fiber", cfg, "san0", latt_for(cfg, r, True), "--subsets=1", "--cases=3", seed=seed * 1000 + i))
    return out


@prop("C06", "one case per gamma-matrix or projector expression (index, basis, side, operand type) and value mode; distinct by expression and mode",
      require=["expressions", "site_values_compared"])
def c06(tier, seed):
    r = random.Random(seed + 6)
    out = []
    for cfg in ["s32", "s64", "nogen", "s32lex"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_gamma", cfg, "san0", latt_for(cfg, r, True), "--cases=3", seed=seed * 1000 + i))
    return out


@prop("C07", "one case per statement a kernel takes over (form, operand types), aliasing pattern, kind of subset and value mode; distinct by form and mode",
      require=["whole_kernels", "ordered_subset_kernels", "unordered_subset_kernels", "aliased_kernels"])
def c07(tier, seed):
    r = random.Random(seed + 7)
    out = []
    for cfg in ["s32", "s64", "sse64", "nogen", "sse32"]:
        for i in range(2 if tier == "quick" else 16):
            out.append(J("d_kern", cfg, "san0", latt_for(cfg, r, True), "--cases=%d" % (2 if tier == "quick" else 6), seed=seed * 1000 + i))
    # more than 1365 sites: the streaming branches of the SSE kernels
    for cfg in ("sse64", "sse32"):
        out.append(J("d_kern", cfg, "opt", latt(6, 6, 8, 10), "--cases=%d" % (1 if tier == "quick" else 6), seed=seed + 77))
    return out


@prop("C08", "one case per field type or expression reduced and value mode, over the whole lattice, random subsets and sets, constants and arrays; distinct by type and mode",
      require=["reductions", "subset_norms", "empty_subset_norms", "set_sums", "array_norms", "extrema", "classifications"])
def c08(tier, seed):
    r = random.Random(seed + 8)
    out = []
    for cfg in ["s32", "s64", "sse64", "nogen", "s32lex"]:
        for i in range(2 if tier == "quick" else 16):
            out.append(J("d_reduce", cfg, "san0", latt_for(cfg, r, i > 0), "--cases=%d" % (6 if tier == "quick" else 12), seed=seed * 1000 + i))
    return out


@prop("C09", "one case per history of draws, seed saves and restores (field and scalar, all element types, whole lattice or subset); distinct by seed, history and lattice",
      require=["field_draws", "subset_draws", "empty_draws", "scalar_draws", "gaussian_draws", "restores", "seed_operations", "site_words_drawn"])
def c09(tier, seed):
    r = random.Random(seed + 9)
    out = []
    for cfg in ["s32", "s32lex", "s32cb3d", "s32cb32", "s64", "nogen"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_rng", cfg, "san0", latt_for(cfg, r, i > 0), "--cases=%d" % (60 if tier == "quick" else 400), seed=seed * 1000 + i))
    return out


@prop("C10", "one case per history of draws, saves and sets of the scalar generator; the first ones in a fresh process; distinct by history",
      require=["draws", "fresh_processes", "refusals", "restores", "saves", "sets", "state_draws"])
def c10(tier, seed):
    out = []
    for cfg in ["s32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_rannyu", cfg, "san", "--cases=%d" % (200 if tier == "quick" else 2000), seed=seed * 1000 + i))
    out.append(J("d_rannyu", "s32", "opt", "--cases=%d" % (200 if tier == "quick" else 2000), seed=seed * 1000 + 500))
    return out


@prop("C11", "one case per sequence of writes, seeks, overwrites and reads of one image (file or buffer), with its truncations; distinct by sequence",
      require=["images", "image_bytes", "writes", "reads", "seeks", "overwrites", "positions", "checksums", "truncated_reads", "readonly_writes"])
def c11(tier, seed):
    out = []
    for cfg in ["s32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_bin", cfg, "san", "--cases=%d" % (500 if tier == "quick" else 3000), seed=seed * 1000 + i))
    return out


@prop("C12", "one case per sequence of field, site, range and time-slice writes and reads of one element type; distinct by element type and sequence",
      require=["arrays", "fields_compared", "image_bytes", "images", "sites_read", "sites_written", "slices_read", "slices_written", "truncated_fields"])
def c12(tier, seed):
    r = random.Random(seed + 12)
    out = []
    for cfg in ["s32", "s32lex", "s32cb3d", "s32cb32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_fieldio", cfg, "san0", latt_for(cfg, r, True), seed=seed * 1000 + i))
    return out


@prop("C13", "one case per gauge configuration: written by the library in one of three ways, read back, written by the independent writer in all four formats, and five damaged files; distinct by seed and lattice",
      require=["damaged_files", "files_read", "files_written", "foreign_files", "header_fields", "links_compared", "xml_headers"])
def c13(tier, seed):
    r = random.Random(seed + 13)
    out = []
    for cfg in ["s32", "s32lex", "s32cb3d", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_nersc", cfg, "san0", latt_for(cfg, r, True), "--cases=%d" % (28 if tier == "quick" else 150), seed=seed * 1000 + i))
    return out


@prop("C14", "one case per sequence of values written as text and read back by every reader, its truncations, malformed numbers, and structured objects; distinct by sequence",
      require=["files", "buffers", "tokens", "values_read", "stdout_values", "missing", "truncated", "malformed", "objects", "object_words", "refused_files"])
def c14(tier, seed):
    out = []
    for cfg in ["s32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_text", cfg, "san", "--cases=%d" % (600 if tier == "quick" else 3000), seed=seed * 1000 + i))
    return out


@prop("C15", "one case per history of operations on a pool of arrays of one element type and number of dimensions, with array arithmetic and one-based arrays; distinct by history",
      require=["array_operations", "arrays_compared", "comparisons", "elements_compared", "onebased", "operations", "refusals", "self_assignments", "slices", "views"])
def c15(tier, seed):
    out = []
    for cfg in ["s32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_cont", cfg, "san", "--cases=%d" % (400 if tier == "quick" else 2000), seed=seed * 1000 + i))
    return out


@prop("C16", "one case per history of inserts, updates, lookups, flushes, closings and reopenings on one map object, in memory and on disk, of one key and value type; distinct by history",
      require=["closed_uses", "creates", "erases", "files_parsed", "flushes", "foreign_files", "inserts", "iterations", "longer_updates", "lookups", "maps_compared", "memory_maps", "misses", "multiples", "operations", "other_processes", "readonly_inserts", "records_parsed", "refusals", "reopens", "slice_fields", "snapshots_clean", "snapshots_dirty", "updates", "xml_maps"])
def c16(tier, seed):
    out = []
    for cfg in ["s32", "s64"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_mapobj", cfg, "san", "--cases=%d" % (100 if tier == "quick" else 500), seed=seed * 1000 + i))
    return out


@prop("C17", "one case per map file of one key and value type and the images made of it: one byte changed, cut short, or the state left by a writer dying inside one of its calls; each image is read by a process of its own; distinct by file",
      require=["cuts", "damaged_header", "damaged_index", "damaged_link", "damaged_record", "damaged_dead", "deaths", "deaths_flushing", "files", "flushed_content_checked", "images_read", "others_read", "refused", "refused_by_size", "still_original", "writes_traced"],
      assumptions=["a writer's death leaves the bytes of its completed write calls, and a prefix of those of the call it died in"])
def c17(tier, seed):
    out = []
    for cfg in ["s32", "s32", "s64"]:
        for i in range(1 if tier == "quick" else 8):
            out.append(J("d_mapfault", cfg, "san", "--cases=%d" % (84 if tier == "quick" else 420), "--images=%d" % (60 if tier == "quick" else 300), seed=seed * 1000 + 10 * i + len(out), timeout=400, asan=":max_allocation_size_mb=24"))
    return out


@prop("C19", "one case per statement of the other properties' catalogues, or dispatch of an index range, run by a team of threads of random size, with random delays or one after another in random order; distinct by statement or range",
      require=["dispatches", "empty_dispatches", "small_dispatches", "large_dispatches", "indices", "parallel_regions", "threads_run", "finishing_orders", "statements", "subset_statements", "whole_kernels", "ordered_subset_kernels", "unordered_subset_kernels", "reductions", "subset_norms", "maps_applied", "field_draws", "expressions"])
def c19(tier, seed):
    r = random.Random(seed + 19)
    q = tier == "quick"
    out = []

    def add(drv, cfg, ins, n, dyn=False, order=False, t=None, l=None, *x):
        env = {"VH_OMP": str(t or r.choice([2, 3, 4, 5, 8])), "VH_OMP_SEED": str(r.randint(1, 10**9))}
        if dyn:
            env["VH_OMP_DYN"] = "1"
        if order:
            env["VH_OMP_MODE"] = "order"
        out.append(J(drv, cfg, ins, l or latt_for(cfg, r, True), "--cases=%d" % n, *x, seed=seed * 1000 + len(out), env=env, timeout=400))
    for t in [1, 2, 3, 7, 16]:
        for dyn in (False, True):
            add("d_omp", "omp32", "gtsan0", 6 if q else 60, dyn, False, t)
            add("d_omp", "omp32", "gsan0", 6 if q else 60, dyn, True, t)
    small = latt(2, 2, 2, 2)
    for i in range(1 if q else 6):
        # races
        for drv, cfg, n in [("d_kern", "omp32", 1), ("d_kern", "ompsse", 1), ("d_kern", "ompsse32", 1), ("d_reduce", "omp32", 2), ("d_reduce", "ompsse", 2), ("d_expr", "omp32", 1), ("d_shift", "omp32", 8), ("d_sublat", "omp32", 4), ("d_rng", "omp32", 12), ("d_gamma", "ompsse32", 1)]:
            add(drv, cfg, "gtsan0", n, False, False, None, small if drv in ("d_kern", "d_gamma") else None)
        # results: any team, one after another in any order
        for drv, cfg, n in [("d_kern", "omp64", 1), ("d_kern", "ompsse", 1), ("d_kern", "ompsse32", 1), ("d_reduce", "omp32", 4), ("d_reduce", "ompsse", 4), ("d_reduce", "omp64", 4), ("d_expr", "omp32", 2), ("d_shift", "omp32", 16), ("d_rng", "omp32", 30), ("d_fiber", "omp64", 1)]:
            for t in (2, 7) if q else (2, 3, 7, 16, 40):
                add(drv, cfg, "gsan0", n, t == 7, t != 7, t)
    return out

@prop("C22", "one case per group of random buffers: swapped whole, in part and twice, checksummed whole and in pieces, and written to and read from files; distinct by seed",
      require=["bit_flips", "crcs", "elements_swapped", "failed_writes", "files", "huge_crcs", "huge_swaps", "partial_swaps", "pieces", "refusals", "short_reads", "strnlens", "swaps", "zero_runs"])
def c22(tier, seed):
    n = 60 if tier == "quick" else 1500
    return [J("d_bytes", "s32", "san", "--cases=%d" % n, seed=seed), J("d_bytes", "s32", "opt", "--cases=%d" % n, "--huge=1", seed=seed + 1), J("d_bytes", "s32", "copt", "--cases=%d" % n, seed=seed + 2)]


@prop("C18", "one case per history of allocations, frees, refused sizes and frees, and field life-cycles, in the default, debug and pool allocators; distinct by history",
      require=["allocations", "bad_frees", "dumps", "fields_assigned", "fields_checked", "fields_copied", "fields_destroyed", "fields_made", "frees", "large_blocks", "origin_changes", "origins", "refused_sizes", "temporaries"])
def c18(tier, seed):
    out = []
    for cfg in ["s32", "s64", "dbgmem", "pool"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_alloc", cfg, "san", "--cases=%d" % (60 if tier == "quick" else 500), "--qdpargs=-poolsize,0.05", seed=seed * 1000 + i))
    return out


@prop("C24", "one case per life of the library in a process of its own (start-ups, options, layouts, fields, messages, profile levels, shut-downs, aborts), or per statement of the other properties' catalogues in another configuration; distinct by history or statement",
      require=["lives", "ends", "aborts", "refusals", "statements", "subset_statements", "reductions", "maps_applied", "field_draws", "sets", "operations"])
def c24(tier, seed):
    r = random.Random(seed + 24)
    out = []
    q = tier == "quick"
    for cfg in ["s32", "dbgmem", "pool", "prof", "nogen"]:
        for i in range(1 if q else 8):
            out.append(J("d_life", cfg, "san", "--cases=%d" % (100 if q else 600), seed=seed * 1000 + i))
    for cfg in ["prof", "dbgmem", "pool"]:
        x = ["--qdpargs=-poolsize,0.05"] if cfg == "pool" else []
        for drv, n in [("d_expr", 1), ("d_shift", 12), ("d_reduce", 3), ("d_rng", 40), ("d_sets", 20), ("d_sublat", 4)] + ([] if q else [("d_fiber", 3), ("d_kern", 3), ("d_gamma", 3), ("d_fieldio", 2)]):
            for i in range(1 if q else 4):
                for lev in ([1, 3] if cfg == "prof" and drv in ("d_shift", "d_reduce") else [1]):
                    out.append(J(drv, cfg, "san0", latt_for(cfg, r, True), "--cases=%d" % n, "--prof=%d" % lev, *x, seed=seed * 1000 + i))
    return out


@prop("C25", "one case per history of statements between fields on random subsets (of every kind and size) and full fields, constants and views, of one element type; distinct by history",
      require=["back_assignments", "extractions", "fields_compared", "fields_made", "full_fields_compared", "inner_products", "operations", "own_assignments", "pokes", "refusals", "resets", "scalar_statements", "sites_compared", "statements", "sums", "view_statements", "view_sums"])
def c25(tier, seed):
    r = random.Random(seed + 25)
    out = []
    for cfg in ["s32", "s32lex", "s64", "nogen"]:
        for i in range(2 if tier == "quick" else 12):
            out.append(J("d_sublat", cfg, "san0", latt_for(cfg, r, True), "--cases=%d" % (20 if tier == "quick" else 120), seed=seed * 1000 + i))
    return out
