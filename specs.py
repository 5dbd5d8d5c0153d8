"""What each check builds and runs."""
SPECS = {}


def simple(pid, src, rule, repo=(), np=(0,), san=("asan",), flags=(), env=None, thorough_seeds=4, threads=1,
           standin=False, eti=(), **kw):
    """One source, the same program under each sanitizer and number of ranks; the thorough tier repeats it over
    several seeds."""
    builds = {s: dict(src=src if isinstance(src, list) else [src], repo=list(repo), eti=list(eti), san=s, flags=list(flags),
                      standin=standin)
              for s in san}

    def runs(tier, seed):
        out = []
        for s in san:
            for n in np:
                for k in range(1 if tier == "quick" else thorough_seeds):
                    out.append(dict(build=s, np=n, seed=seed + 1000 * k, env=env or {}, threads=threads))
        return out

    SPECS[pid] = dict(builds=builds, runs=runs, rule=rule, **kw)


simple("C01", "harness/c01_index2d.cpp",
       "Operand pairs mix small, negative, limit and uniform values over 4 index types and 8 type/tag pairs; grids are "
       "enumerated up to 13x13 and sampled up to the type limits; fail-stop probes run in forked children. Non-trivial: "
       "distinct operand/grid tuples other than the all-zero index.",
       min_distinct=5000, must_observe=["forked probes", "cells checked", "sub-grid members"])
simple("C02", "harness/c02_range2d.cpp",
       "Random rectangles (4 index types, offsets, limits) walked completely through all four factory overloads, plus "
       "random 30-step iterator histories compared with a position counter, also on rectangles with more cells than the "
       "index type can count. Non-trivial: distinct non-empty rectangles.",
       min_distinct=1000, must_observe=["iterator steps", "indices visited"])
simple("C03", "harness/c03_dist1d.cpp",
       "All tuples of a small parameter space (tile sizes, offsets, grids, sources) dealt explicitly, random medium "
       "tuples likewise, and random 64-bit sized tuples against a 128-bit reference. Non-trivial: distinct parameter "
       "tuples with at least one element/tile.", min_distinct=5000,
       must_observe=["tiles dealt", "elements dealt", "large tuples"])
simple("C04", "harness/c04_casts.cpp",
       "For 11 source types and 15 conversions: limit values of both types +-2, powers of two and random values; "
       "representable ones must come back identical, the others must terminate a forked child. Sums, products, ceilings "
       "against 128-bit arithmetic. Non-trivial: distinct (function, types, refused value) and operand-type cases.",
       min_distinct=300, must_observe=["forked probes", "representable conversions", "ceilings"])
simple("C05", "harness/c05_numeric.cpp",
       "Interval splits enumerated for small lengths/blocks and sampled (also huge); percentages on a grid and random; "
       "strings of random bytes; operation counts, conjugates, sign pairs. Non-trivial: distinct argument tuples.",
       min_distinct=1000, must_observe=["split lists", "percentages", "strings", "conjugates"])
simple("C06", "harness/c06_data.cpp",
       "Random factorisations of a random element count into source and destination block structures (6 element types, "
       "4 view kinds), copied inside stamped allocations; every byte of both allocations is compared. Non-trivial: "
       "distinct non-empty (type, source shape, destination shape).", min_distinct=1000,
       must_observe=["strided to strided", "strided to contiguous", "contiguous to strided", "buffers", "used support buffers", "huge views", "wide copies", "long copies"])
simple("C07", "harness/c07_message.cpp",
       "Random source/destination shapes for 15 element types sent between ranks and to self, whole receive allocation "
       "compared; random histories of construct/move/assign/destroy of messages under PMPI type accounting; element "
       "types exercised with local reductions; oversized counts probed in forked children. Non-trivial: distinct "
       "(type, shapes) transfers and distinct histories.",
       repo=["src/communication/datatypes.cpp"], np=(2,), min_distinct=500,
       must_observe=["transfers", "history steps", "histories left by an exception", "MPI types created", "local reductions"])

simple("C08", "harness/c08_sync.cpp",
       "Random transfers, broadcasts and reductions; counts, shapes (contiguous, strided, different on every rank), element types, operations, roots and "
       "communicators of 1..6 ranks (also with reversed rank order); every element of every rank's allocations compared "
       "with an exact reference. Non-trivial: distinct (kind, type, operation, root, shapes).",
       repo=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp",
             "src/communication/datatypes.cpp"], np=(6,), min_distinct=300,
       must_observe=["results checked", "messages received", "messages received with another pending", "broadcasts received"], standin=True)
simple("C09", "harness/c09_communicator.cpp",
       "Random collective histories of wrap/own/clone/copy/move/assign/destroy over six handles on communicators of 1..4 "
       "ranks against a reference-count model, with every MPI_Comm creation and release accounted and messages exchanged "
       "on clone/original pairs; forked probes for refused communicators. Non-trivial: distinct histories.",
       repo=["src/communication/communicator.cpp", "src/communication/communicator_impl.cpp"], np=(4, 1), min_distinct=100,
       must_observe=["histories", "clones", "isolation messages", "handles checked", "move assignments"])
simple("C39", ["harness/c39_stop.cpp", "harness/c39_none.cpp", "harness/c39_plain.cpp", "harness/c39_moderate.cpp", "harness/c39_heavy.cpp"],
       "Assertions of every level with 1..4 random values (12 types, long and multi-line strings) fail in forked children, in six "
       "places (threads, try blocks, noexcept, unwinding), whose standard error and end are observed; units compiled with every "
       "set of levels; all MPI error codes and ones of the application, and really failing calls, with MPI_Abort observed; names "
       "of options printed, shortened and parsed back; timers on fake clocks. Non-trivial: distinct cases.",
       np=(1,), min_distinct=300, standin=True,
       must_observe=["forked probes", "messages read", "assertions which hold", "MPI errors", "error codes of the application", "MPI calls that fail", "names",
                     "names parsed", "times read"])
simple("C10", "harness/c10_stblas.cpp",
       "Random walks of nested scopes, exceptions, early exits, user changes of the limit, on one thread, inside OpenMP "
       "teams and on up to 8 overlapping threads; the thread limit and the size of real parallel regions are observed at "
       "every step. Non-trivial: distinct walks.",
       repo=["src/common/single_threaded_blas.cpp"], san=("asan", "tsan"), threads=8, min_distinct=200,
       must_observe=["limit observations", "walks with dynamic adjustment", "thread groups", "parallel regions", "forked probes"])
simple("C11", "harness/c11_values.cpp",
       "Random operation histories of pools (3 resource types) and vectors (5 element types) against reference models, "
       "with every element's lifetime tracked; consuming calls with all lvalue/rvalue mixes; deferred construction of "
       "immovable elements; forked probes for refused sizes/indices. Non-trivial: distinct histories/argument tuples.",
       min_distinct=1000, must_observe=["pool steps", "pools moved", "vector steps", "consuming calls",
                                        "deferred constructions", "out of range accesses", "forked probes"])
simple("C12", "harness/c12_blas.cpp",
       "Random lengths, increments, scalars, regions, shapes and leading dimensions inside stamped allocations (any bit "
       "pattern, NaNs included); every element compared; oversized dimensions probed in forked children. Non-trivial: "
       "distinct non-empty calls.",
       repo=["src/blas/scal.cpp"], min_distinct=1000,
       must_observe=["vectors scaled", "regions copied and set", "forked probes"])
simple("C13", "harness/c13_distribution.cpp",
       "Random 2D distributions (sizes, blocks, tiles per block, grids up to 7, sources, offsets beyond a block) through "
       "every constructor on every rank, compared query by query with elements dealt one by one; chains of "
       "sub-distributions; merged blocks; local views; sizes up to 2^61 against 128-bit formulas; refused arguments in "
       "forked children. Non-trivial: distinct non-empty distributions.",
       repo=["src/matrix/distribution.cpp"], standin=True, min_distinct=1500,
       must_observe=["distributions checked", "sub-distributions", "merged distributions", "views", "large distributions",
                     "forked probes"])

# ---- the asynchronous library on the runtime stand-in
CORE_REPO = ["src/communication/communicator_impl.cpp", "src/communication/communicator.cpp",
             "src/communication/communicator_grid.cpp", "src/communication/datatypes.cpp", "src/init.cpp",
             "src/matrix/distribution.cpp", "src/memory/memory_chunk.cpp", "src/tune.cpp", "src/blas/scal.cpp",
             "src/common/single_threaded_blas.cpp"]
CORE_ETI = ["src/matrix.cpp", "src/matrix/tile.cpp", "src/matrix/matrix_ref.cpp", "src/memory/memory_view.cpp",
            "src/matrix_mirror.cpp"]


def alg(pid, src, rule, mc=(), comm=(), san=("addr",), np=6, threads=3, types="d|z", thorough_seeds=3, env=None,
        thorough_types="s|c", real=(), core=None, tsan_types=None, extra=(), more_eti=(), more_repo=(),
        flags=(), **kw):
    """A workload on the stand-in: core library and the algorithms in `mc` (directories below src), built for the element
    types of the tier; the thorough tier adds the other types and more seeds."""
    def one(s, ty):
        eti = [(f, core or ty.replace("|", "")) for f in CORE_ETI] + [("src/communication/kernels/%s.cpp" % f, ty) for f in comm]
        eti += [("src/%s/mc.cpp" % a, ty) for a in mc] + [(f, ty) for f in more_eti]
        # these exist for real types only: the real types behind the ones asked for
        rt = "|".join(sorted({{"c": "s", "z": "d"}.get(t, t) for t in ty if t != "|"}))
        eti += [("src/%s/mc.cpp" % a, rt) for a in real]
        return dict(src=src if isinstance(src, list) else [src], repo=CORE_REPO + list(more_repo), eti=eti, san=s,
                    standin=True, mon=True, flags=list(flags) + ["-DVK_TYPE_%s" % t.upper() for t in ty if t != "|"])

    builds = {}
    for s in san:
        builds[s] = one(s, types)
        if thorough_types:
            builds[s + "_more"] = one(s, thorough_types)
        if s == "tsan" and tsan_types:
            builds[s] = one(s, tsan_types)

    def runs(tier, seed):
        e = dict(env or {}, VK_THREADS=str(threads))
        out = []
        for s in san:
            for k in range(1 if tier == "quick" else thorough_seeds):
                out.append(dict(build=s, np=np, seed=seed + 1000 * k, env=e, threads=2))
            if tier != "quick" and thorough_types:
                out.append(dict(build=s + "_more", np=np, seed=seed + 500, env=e, threads=2))
        # runs of their own for inputs the code is known not to survive
        for x in extra:
            out.append(dict(build=san[0], np=1, seed=seed, env=dict(e, **x), threads=1, timeout=60))
        return out

    SPECS[pid] = dict(builds=builds, runs=runs, rule=rule, **kw)


RULE = ("Random grids (1 to 6 processes, both orderings, permuted ranks, up to 4 grids at once), sizes, tile sizes, source "
        "ranks, storage layouts and leading dimensions, element types, tuning parameters, task schedules and message delays. ")
alg("C23", "harness/c23_cholesky.cpp",
    RULE + "HPD matrices (also badly scaled) with NaN in the unreferenced triangle are factorised; the factor times its adjoint is "
    "compared with the input componentwise, the other triangle and all padding bit by bit. Non-trivial: distinct "
    "(type, size, tile, triangle, grid, source, layout) with at least one element.",
    mc=["factorization/cholesky"], comm=["broadcast"], min_distinct=60, must_observe=["factors checked", "padding bytes compared", "MPI operations completed"])
alg("C24", "harness/c24_trsm.cpp",
    RULE + "All sides, triangles, operations, diagonal kinds and scalars, right-hand sides also as part of a larger matrix; the "
    "solution is put back into the equation, NaN wherever A must not be read. Non-trivial: distinct parameter tuples with "
    "non-empty operands.",
    mc=["solver/triangular"], comm=["broadcast", "reduce"], min_distinct=200,
    must_observe=["solutions checked", "padding bytes compared", "MPI operations completed"])
alg("C25", "harness/c25_mult.cpp",
    RULE + "Triangular (all kinds locally, the supported ones distributed), Hermitian and general products, the latter on parts "
    "of matrices with offsets in tiles; NaN outside what may be read, bitwise comparison outside the result. Non-trivial: "
    "distinct parameter tuples with a non-empty result.",
    mc=["multiplication/triangular", "multiplication/hermitian", "multiplication/general"], comm=["broadcast", "reduce"],
    min_distinct=200, must_observe=["triangular products", "Hermitian products", "general products", "MPI operations completed"])
alg("C26", "harness/c26_inverse.cpp",
    RULE + "Triangular inverses and HPD inverses from factors, also with several tiles per block, multiplied back. Non-trivial: "
    "distinct parameter tuples with n > 0.",
    mc=["inverse/triangular", "inverse/cholesky"], comm=["broadcast", "reduce"], min_distinct=150,
    must_observe=["triangular inverses", "HPD inverses", "MPI operations completed"])
alg("C27", "harness/c27_gen_to_std.cpp",
    RULE + "Hermitian matrices with NaN in the other triangle transformed with random well-conditioned factors; the result is "
    "transformed back. Non-trivial: distinct parameter tuples with n > 0.",
    mc=["eigensolver/gen_to_std"], comm=["broadcast", "reduce"], min_distinct=100,
    must_observe=["transformations checked", "MPI operations completed"])
alg("C32", "harness/c32_norm.cpp",
    RULE + "Largest elements placed inside, on the edge of and outside the region; every process designated in turn. "
    "Non-trivial: distinct parameter tuples of non-empty matrices.",
    mc=["auxiliary/norm"], comm=[], min_distinct=300, must_observe=["norms checked", "MPI operations completed"])
alg("C28", "harness/c28_red2band.cpp",
    RULE + "Hermitian matrices (general, sparse, banded, rank one, graded, zero columns), NaN in the upper triangle, bands dividing the "
    "tile size; Q accumulated from the reflectors; C with its own column tiling and column range. Non-trivial: distinct parameter "
    "tuples with at least one reflector.",
    mc=["eigensolver/reduction_to_band", "eigensolver/bt_reduction_to_band", "factorization/qr"], comm=["broadcast", "reduce", "all_reduce", "p2p"],
    min_distinct=80, extra=[{"VK_BEYOND": "1"}],
    must_observe=["reductions checked", "back-transformations checked", "MPI operations completed"])
alg("C29", "harness/c29_band2trid.cpp",
    RULE + "Hermitian band matrices (general, decoupled, sparse, outermost diagonal only ...), NaN outside the band, random block "
    "sizes of the one-dimensional distribution and group sizes of the back-transformation; also under ThreadSanitizer. Non-trivial: "
    "distinct parameter tuples with at least one reflector.",
    mc=["eigensolver/band_to_tridiag", "eigensolver/bt_band_to_tridiag"], comm=["broadcast", "reduce", "all_reduce", "p2p"], san=("addr", "tsan"), tsan_types="d",
    min_distinct=80, must_observe=["reductions checked", "reflectors accumulated", "back-transformations checked", "MPI operations completed"])
alg("C30", "harness/c30_tridiag.cpp",
    RULE + "Sixteen families of tridiagonal matrices (clusters, glued and graded spectra, zero couplings, multiple eigenvalues), NaN in the "
    "unused entry; permutations of rows and columns on tile ranges. Non-trivial: distinct parameter tuples with n > 1.",
    real=["eigensolver/tridiag_solver", "permutations/general", "multiplication/general"], comm=["broadcast", "reduce", "all_reduce", "p2p"], types="d", thorough_types="s",
    core="sdcz", min_distinct=150, extra=[{"VK_BEYOND": "1"}], must_observe=["decompositions checked", "permutations checked", "MPI operations completed"])
alg("C31", "harness/c31_eigen.cpp",
    RULE + "Hermitian matrices with prescribed spectra (multiple, clustered, geometric, zero), well conditioned positive definite partners, "
    "all entry points, whole and partial spectra, NaN in the other triangle; eigenvalues also against LAPACK. Non-trivial: distinct "
    "parameter tuples with n > 1 and at least one vector.",
    mc=["eigensolver/reduction_to_band", "eigensolver/bt_reduction_to_band", "factorization/qr", "factorization/cholesky", "eigensolver/band_to_tridiag",
        "eigensolver/bt_band_to_tridiag", "eigensolver/eigensolver", "eigensolver/gen_eigensolver", "eigensolver/gen_to_std", "solver/triangular",
        "multiplication/triangular"],
    real=["eigensolver/tridiag_solver", "permutations/general", "multiplication/general"],
    comm=["broadcast", "reduce", "all_reduce", "p2p"], min_distinct=80,
    must_observe=["standard problems", "generalized problems", "generalized with given factor", "partial spectra", "MPI operations completed"])

simple("C14", "harness/c14_memory.cpp",
       "Random histories of create, wrap, sub-view, copy, move, assign and drop over eight mutable and const views (6 "
       "element types) and five chunks, replayed against a model with every byte stamped and every allocation of the "
       "allocator accounted; copies shared between threads under TSan; refused requests in forked children. Non-trivial: "
       "distinct histories and probes.",
       repo=["src/memory/memory_chunk.cpp", "src/memory/memory_view.cpp"], san=("asan", "tsan"), standin=True,
       min_distinct=1500, must_observe=["view steps", "chunk steps", "sub-views", "allocations", "threads", "forked probes"])

simple("C15", "harness/c15_pipeline.cpp",
       "Random programs of requests, read-only copies, dropped senders, nested sub-pipelines, moves and assignments over live "
       "pipelines, resets, pipelines handed to tasks, and waits, under random task schedules and delays; each grant records "
       "the complete log of writes it saw, compared with the requested order, and overlaps are counted. Non-trivial: distinct "
       "programs.", san=("asan", "tsan"), standin=True, threads=4, min_distinct=1000,
       must_observe=["grants checked", "sub-pipelines", "senders dropped", "assignments over pipelines",
                     "pipelines with overlapping readers", "waits for a grant", "pipelines moved into tasks",
                     "distinct task orders"])

# tile-level programs without MPI
TILE_REPO = ["src/matrix/distribution.cpp", "src/memory/memory_chunk.cpp", "src/tune.cpp"]
TILE_ETI = [("src/matrix.cpp", "d"), ("src/matrix/tile.cpp", "d"), ("src/matrix/matrix_ref.cpp", "d"), ("src/memory/memory_view.cpp", "d")]
simple("C16", "harness/c16_tiles.cpp",
       "Random programs over up to five matrices, sub-pipelines, retiled and const views, references to parts, sub-tiles, disjoint "
       "splits, shared read-write tiles, early releases, moves, tasks owning matrices, retained and failing accesses, under "
       "random schedules; every element carries its last writer, every access records what it found and when it ran, compared "
       "with the program order. Non-trivial: distinct programs.",
       repo=TILE_REPO, san=("asan", "tsan"), standin=True, threads=4, min_distinct=800, eti=TILE_ETI,
       must_observe=["grants checked", "ordered pairs checked", "sub-pipelines", "retiled sub-pipelines", "references", "sub-tiles",
                     "disjoint splits", "shared read-write tiles", "tiles released early", "matrices moved", "failing accesses",
                     "matrices moved into tasks", "waits for all tiles", "matrices with overlapping accesses", "distinct task orders"])

alg("C17", "harness/c17_layout.cpp",
    "Random distributions (grids, sources, tiles per block), allocation layouts and leading dimensions, also by default, through every "
    "constructor; every element's memory marked once inside the allocations, placement and leading dimensions compared, also of "
    "sub-pipelines, retilings and user memory of exactly the required size; layout queries; refused arguments in forked children; csv "
    "and numpy text parsed back. Non-trivial: distinct parameter tuples of non-empty matrices.",
    types="sdcz", thorough_types=None, np=4, min_distinct=2000,
    must_observe=["tiles of layouts checked", "specifications checked", "tiles placed", "tiles read back", "matrices over user memory",
                  "padding elements compared", "numpy texts read", "csv texts read", "forked probes"])
alg("C18", "harness/c18_comm.cpp",
    "Random programs of broadcasts, reductions, all-reductions (with and without a separate result), point-to-point messages (exclusive, "
    "shared and plain communicators, also to oneself), sums of two and local changes over several pipelines of row, column and full "
    "communicators, simulated by every process for all ranks; everything delivered, the final tiles and all padding are compared. "
    "Non-trivial: distinct programs on more than one process.",
    mc=[], comm=["broadcast", "reduce", "all_reduce", "p2p"], san=("addr", "tsan"), types="sdcz", thorough_types=None, min_distinct=200,
    must_observe=["broadcasts", "reductions", "all-reductions", "all-reductions in place", "messages scheduled", "sums of two", "deliveries compared",
                  "padding bytes compared", "messages completed out of order", "waits for all communicators"])

alg("C20", "harness/c20_copy.cpp",
    RULE + "Copies of regions of local tiles (each process its own), between references with offsets, of single tiles and other element "
    "types, chains of redistributions between tile sizes and source ranks with the source overwritten right after; arbitrary bit "
    "patterns, compared bit by bit with all padding. Non-trivial: distinct parameter tuples with something to copy.",
    comm=["p2p"], more_eti=["src/matrix_mirror.cpp"], types="sdcz", thorough_types=None, min_distinct=500,
    must_observe=["elements copied locally", "elements copied through references", "redistributions", "tiles copied", "integer matrices copied",
                  "mirrors", "padding bytes compared", "messages", "messages completed out of order"])
alg("C21", "harness/c21_init.cpp",
    RULE + "Every initialiser on matrices with own and several tiles per block, with another initialisation still pending; compared bit "
    "by bit with one process, and with the definition: range, exact Hermitian symmetry, real diagonal, diagonal dominance, "
    "zeros outside the band, distinct tiles. Non-trivial: distinct parameter tuples with elements.",
    types="sdcz", thorough_types=None, np=6, min_distinct=1000,
    must_observe=["defined contents checked", "random contents compared between grids", "ranges of tiles zeroed", "tiles compared with each other",
                  "padding bytes compared"])
alg("C22", "harness/c22_panel.cpp",
    RULE + "Row and column panels, stored plain and transposed, through rounds of changing range, offset and width without waiting in "
    "between, own, external and zeroed tiles, broadcasts along the axis and to the transposed panel; every tile's size and content is "
    "checked when it is read, external tiles must be released. Non-trivial: distinct sequences of ranges on distinct distributions.",
    comm=["broadcast"], types="dz", thorough_types="sc", min_distinct=1000,
    must_observe=["panel shapes checked", "tiles written", "tiles read: own", "tiles read: external", "tiles read: zeroed panel", "tiles read: broadcast",
                  "tiles read: changed copy", "tiles read: transposed panel", "panels moved", "messages completed out of order"])
alg("C19", "harness/c19_grid.cpp",
    "Random grids over 1 to 6 processes (also smaller than the communicator, over communicators that end right after, moved, two at a "
    "time), their coordinates and the members of every communicator gathered; pipelines drawn, nested, moved, reset and compared; "
    "collective work pending while the grids are destroyed, with all communicators accounted; barriers timed. Non-trivial: distinct "
    "(processes, shapes, orderings, pipelines).",
    types="d", thorough_types=None, san=("addr", "tsan"), min_distinct=100,
    must_observe=["positions checked", "processes outside the grid", "pipelines drawn", "operations on pipelines", "ordered uses", "barriers", "grids moved",
                  "forked probes", "messages completed out of order"])

simple("C33", "harness/c33_init.cpp",
       "Random assignments of every option (16 of the configuration, 12 tuning parameters, 9 debug switches) to the sources "
       "application, environment and command line (also given as part of an application's own options), values up to the type "
       "limits, in random histories of lives in one process, with MPI present or absent; the values in effect, the printed ones, "
       "what the algorithms derive from them and the state after the end are compared with a table. Malformed values and refused "
       "histories in forked children. Non-trivial: distinct assignments and probes.",
       repo=["src/init.cpp", "src/tune.cpp", "src/memory/memory_chunk.cpp"], standin=True, threads=4,
       min_distinct=1000, must_observe=["values from the command line", "values from the environment", "configurations printed",
                                        "parameters used", "lives", "malformed values", "forked probes", "questions to MPI"])

C_API = ["src/c_api/grid.cpp", "src/c_api/utils.cpp", "src/c_api/init.cpp", "src/c_api/eigensolver/eigensolver.cpp",
         "src/c_api/eigensolver/gen_eigensolver.cpp", "src/c_api/factorization/cholesky.cpp", "src/c_api/inverse/cholesky.cpp"]
alg("C34", "harness/c34_capi.cpp",
    "Random histories of several lives of the library in one process: grids created on communicators of 1 to 6 processes (both "
    "orderings, all shapes, processes left outside, also through BLACS), freed in any order, and in between calls of all 56 routines "
    "of the C interface with random sizes, blocks, source processes, leading dimensions, triangles and parts of the spectrum on "
    "exactly sized arrays; compared with the native interface bit by bit. The algorithms behind are replaced by ones whose result "
    "depends on everything handed over. Refused descriptors in forked children. Non-trivial: distinct parameter tuples.",
    types="sdcz", thorough_types=None, more_repo=C_API, flags=["-DDLAF_WITH_SCALAPACK"], min_distinct=200,
    must_observe=["calls in the style of ScaLAPACK", "calls of the plain C interface", "padding elements compared", "elements changed by a call",
                  "grids created", "grids freed", "grids taken from BLACS", "orderings asked", "processes outside a grid", "lives",
                  "repeated initialisations", "forked probes"])
# thorough: also with the real Cholesky factorisation and inverse
SPECS["C34"]["builds"]["real"] = dict(
    src=["harness/c34_capi.cpp"], repo=CORE_REPO + C_API, san="addr", standin=True, mon=True,
    eti=[(f, "sdcz") for f in CORE_ETI] + [("src/communication/kernels/%s.cpp" % f, "s|d|c|z") for f in ("broadcast", "reduce")] +
        [("src/%s/mc.cpp" % a, "s|d|c|z") for a in ("factorization/cholesky", "inverse/triangular", "inverse/cholesky")],
    flags=["-DDLAF_WITH_SCALAPACK", "-DVK_TYPE_S", "-DVK_TYPE_D", "-DVK_TYPE_C", "-DVK_TYPE_Z", "-DVK_REAL"])


def _c34(runs):
    return lambda tier, seed: runs(tier, seed) + ([] if tier == "quick" else
                                                  [dict(build="real", np=6, seed=seed + 700, env={"VK_THREADS": "3"}, threads=2)])


SPECS["C34"]["runs"] = _c34(SPECS["C34"]["runs"])

alg("C35", "harness/c35_schedule.cpp",
    RULE + "Random programs of 3 to 12 calls (copies, factorisations, solves, products, inverses, transformations, norms, eigensolvers, "
    "temporary matrices, sub-pipelines) on eight shared matrices: once waiting after each call, then without waiting under other schedules, "
    "message timings and numbers of communicators; all matrices compared bit by bit, under the race detector with the operands of every "
    "BLAS, LAPACK and MPI call watched. Non-trivial: distinct programs on non-empty matrices.",
    mc=["eigensolver/reduction_to_band", "eigensolver/bt_reduction_to_band", "factorization/qr", "factorization/cholesky", "eigensolver/band_to_tridiag",
        "eigensolver/bt_band_to_tridiag", "eigensolver/eigensolver", "eigensolver/gen_eigensolver", "eigensolver/gen_to_std", "solver/triangular",
        "multiplication/triangular", "multiplication/hermitian", "inverse/triangular", "inverse/cholesky", "auxiliary/norm"],
    real=["eigensolver/tridiag_solver", "permutations/general", "multiplication/general"],
    comm=["broadcast", "reduce", "all_reduce", "p2p"], san=("tsan",), np=4, types="d", thorough_types="z", min_distinct=30,
    must_observe=["programs run call by call", "programs run without waiting", "algorithm calls", "elements compared bit by bit",
                  "tasks executed in an order other than submitted", "messages completed out of order", "distinct task orders",
                  "operand ranges watched"])

alg("C36", ["harness/c36_aux.cpp", "harness/c36_blas.cpp", "harness/c36_lapack.cpp", "harness/c36_temp.cpp"],
    "Every tile-level BLAS, LAPACK and auxiliary kernel with random sizes (also empty), leading dimensions, flags, scalars and element types: "
    "called directly, through the blocking overload, asynchronously on whole tiles and parts of tiles of matrices (whose contents are written "
    "just before and overwritten right behind by other tasks) and on tiles owned by the call. Results against naive formulas; operands, "
    "unreferenced elements, neighbouring tiles and padding bit by bit. Non-trivial: distinct (kernel, type, way of calling, flags, scalars, shapes).",
    np=4, types="d|z", min_distinct=400,
    must_observe=["results checked", "elements compared bit by bit", "operands overwritten right behind the call", "calls direct", "calls blocking",
                  "calls async/detached", "calls async/waited", "calls owned/detached", "calls owned/waited"])
