#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I="include/dlaf/"
prop("C01","2D index and size algebra is exact",
 "Adding, subtracting, transposing, comparing, bounds-checking and printing 2D indices and sizes agrees with componentwise exact integer arithmetic, whenever the result is representable, for every index type and strong-type tag, including negative (invalid) coordinates, empty sizes and values near the limits of the type. Converting a position to its linear index in row- or column-major order and back is a bijection between the grid cells and 0..rows*cols-1, for every grid whose cell count fits the wide integer type. A position outside the grid, or a result which does not fit the requested integer type, terminates the program (assertions enabled) instead of yielding a wrong value.",
 ["inputs"],"every pair of indices/sizes of any signed index type, every grid shape, both orderings, every destination integer type",
 "The tests use a handful of small hand-picked coordinates; narrow index types, huge grids and limit values are unreached.",
 [I+"common/index2d.h",I+"communication/index.h",I+"matrix/index.h"],
 [("coordinate operators, isIn/isInOrOn/isInSub",I+"common/index2d.h"),("computeCoords / computeLinearIndex (RowMajor, ColMajor, dispatching)",I+"common/index2d.h")],
 ["return values of the public coordinate functions"])
prop("C02","2D ranges visit each index exactly once, in column-major order",
 "Iterating over a 2D range given by a size, an end index, a begin/end pair or a begin index plus size yields every index of the half-open rectangle exactly once, in column-major order, and nothing for an empty rectangle. Its iterators obey random-access semantics: jumps, differences, comparisons, subscripts, increments and decrements all agree with stepping one by one. The range reports emptiness and membership of an index correctly; all this holds for any rectangle whose number of cells fits the wide integer type, even when the index type is narrower.",
 ["inputs","histories"],"every rectangle (offset, extent, index type) and every sequence of iterator moves",
 "The tests walk a few small ranges with ++ only.",
 [I+"common/range2d.h"],[("IteratorRange2D index update","include/dlaf/common/range2d.h"),("IterableRange2D bounds","include/dlaf/common/range2d.h")],["dereferenced iterators, differences, comparisons"])
prop("C03","Block-cyclic index maps agree with explicit block-cyclic dealing",
 "Along each matrix dimension, the tile containing an element and the element's place in it, the element at a given place in a tile, the process owning a global tile, its local position there, the global position of a local tile, and the first local tile at or after a global tile all agree with explicitly cutting the range into tiles (with an optional shortened first tile) and dealing blocks of tiles round robin to the processes from the source process (with an optional shortened first block). In particular ownership is unique and the local and global numberings are order-preserving inverses of each other, and a query for a tile not stored on a process answers -1. It holds for all sizes, tile sizes, tiles per block, grid sizes, ranks, source ranks and offsets whose results are representable.",
 ["inputs","configurations"],"all element/tile indices, tile sizes, tiles per block, grid sizes, ranks, source ranks, tile and element offsets, including 64-bit large ones",
 "The tests check a few dozen tabulated tuples.",
 [I+"matrix/util_distribution.h"],[("1D distribution functions",I+"matrix/util_distribution.h")],["return values of the 1D distribution functions"])
prop("C04","Integer conversions are value-preserving or stop the program",
 "Converting between signed and unsigned integer types of any width returns exactly the same mathematical value whenever the destination can represent it, and terminates the program (assertions enabled) whenever it cannot; a value is never silently truncated, wrapped or sign-changed. Mixed-type sums and products formed with the wide-arithmetic helpers equal the exact integer result whenever operands and result fit. Rounding-up division equals the mathematical ceiling for all non-negative numerators and positive denominators allowed by its precondition.",
 ["inputs"],"every (source type, destination type, value) triple and operand pair",
 "The tests sample few type pairs and values.",
 [I+"types.h",I+"util_math.h"],[("to_signed/to_unsigned/integral_cast/to_int/to_uint/to_sizet/to_SizeType",I+"types.h"),("size_t::/ptrdiff_t:: sum, mul; ceilDiv",I+"util_math.h")],["returned value or termination of the process"])
prop("C05","Numeric, string and operation-count helpers match their definitions",
 "Overlaying two equally spaced block partitions with different offsets over one interval yields exactly the sorted, duplicate-free set of the interval's ends and all block boundaries inside it. Converting a percentage to a leading-count gives the nearest integer (up to floating-point precision), monotonically, from 0 at 0% to the full size at 100%; sign comparison agrees with the sign bits, lower-casing changes only upper-case letters, conjugation returns the conjugate in the argument's own type, and operation counts weigh real and complex additions and multiplications 1/1 and 2/6.",
 ["inputs"],"all lengths, block sizes, offsets, sizes, percentages, reals and strings within the documented preconditions",
 "Only a few examples are tested, the operation counts and conjugation not at all.",
 [I+"util_math.h",I+"util_string.h",I+"types.h"],[("interleaveSplits, percent_to_index, sameSign",I+"util_math.h"),("copy_to_lower",I+"util_string.h"),("total_ops, conj, TypeInfo",I+"types.h")],["return values"])
prop("C06","Strided data views describe and copy exactly their elements",
 "A view over strided blocks reports the element count, block structure and contiguity of precisely the elements it was built for (adjacent blocks being merged into one), and converting it to a read-only view or a generic data descriptor preserves this. Copying between two views with equal element counts, whatever their block structures, transfers the elements in order and leaves every byte outside the destination's elements untouched. Temporary buffers have room for exactly all elements, own their memory, and are only made when the data is not contiguous.",
 ["inputs"],"all combinations of block count, block size, stride, element type and source/destination structure",
 "The tests use one or two shapes per case and do not look at the gap bytes or at all source/destination structure pairs.",
 [I+"common/data.h",I+"common/data_descriptor.h"],[("copy",I+"common/data.h"),("DataDescriptor, Buffer, make_contiguous, create_temporary_buffer",I+"common/data_descriptor.h")],["descriptor accessors, full destination and source allocations after copies"])
prop("C07","MPI messages carry exactly the described elements, and free their types once",
 "A message built from any contiguous or strided data, sent with the pointer, count and MPI type it reports, transfers all and only the described elements in order, for every supported element type, and leaves the gaps at the receiver untouched. Every MPI type a message creates is committed, stays valid while the message it was moved into lives, and is freed exactly once, through any sequence of move constructions and move assignments. Contiguous data uses the basic MPI type of its element, and a size that does not fit MPI's count type stops the program rather than sending fewer elements.",
 ["inputs","histories"],"all data shapes and element types, all move sequences of message objects",
 "The tests send a few fixed shapes, never move-assign and do not count MPI type allocations.",
 [I+"communication/message.h",I+"communication/type_handler.h",I+"communication/datatypes.h","src/communication/datatypes.cpp"],
 [("Message",I+"communication/message.h"),("type_handler RAII",I+"communication/type_handler.h"),("element type map","src/communication/datatypes.cpp")],
 ["received buffers; PMPI interposition on MPI_Type_vector/commit/free; MPI_Type_size/extent/envelope"])
prop("C08","Blocking collectives and point-to-point transfer deliver exact results",
 "Blocking send/receive delivers the sender's elements in order to the receiver, from the named sender whatever else is pending, and a broadcast delivers the root's elements to every other rank. Reduce and all-reduce, out-of-place and in-place, for any communicator size, root, operation, element type and any mix of contiguous and strided arguments, leave the elementwise reduction over all ranks in the output at the root (respectively at every rank), leave input data (when not in-place), non-root data and all bytes between and around the strided blocks unchanged, and on a single-rank communicator act as a copy or no-op.",
 ["inputs","configurations"],"all ranks counts, roots, operations, element types and data shapes on each rank",
 "Only the sync wrappers' tests that need the unavailable runtime exist; shapes and roots are few.",
 [I+"communication/sync/basic.h",I+"communication/sync/broadcast.h",I+"communication/sync/reduce.h",I+"communication/sync/all_reduce.h"],
 [("send_to/receive_from",I+"communication/sync/basic.h"),("reduce*, reduceInPlace",I+"communication/sync/reduce.h"),("allReduce, allReduceInPlace",I+"communication/sync/all_reduce.h")],
 ["complete input/output allocations on every rank after the call"])
prop("C09","Communicator handles share one MPI communicator and release owned ones once",
 "A communicator handle and all its copies denote the same MPI communicator and report its true rank and size. Cloning gives an independent communicator (a message sent on one is never received on the other) with the same group, rank and size; a wrapped communicator is never freed by the library, while an owned or cloned one stays usable as long as any copy exists and is freed exactly once when the last copy goes. Wrapping the null communicator, or taking ownership of the world or null communicator, stops the program.",
 ["histories","configurations"],"all sequences of wrap, own, clone, copy, assign, move, destroy on communicators of any size",
 "The tests look at single instances; lifetimes over histories and leaks are not observed.",
 [I+"communication/communicator.h","src/communication/communicator.cpp","src/communication/communicator_impl.cpp"],
 [("shared CommunicatorImpl","src/communication/communicator.cpp"),("managed destructor","src/communication/communicator_impl.cpp")],["PMPI interposition on MPI_Comm_dup/split/free; MPI_Comm_compare; message probes"])
prop("C10","Single-threaded BLAS scopes limit and restore the thread count",
 "While a single-threaded BLAS scope is alive on a thread, parallel regions started from that thread use one thread; when it ends the previous thread limit of that thread is back, whatever it was, also for nested scopes, early exits and exceptions. Scopes on one thread never change what other threads see. Ending a scope on a different thread than it began on stops the program (assertions enabled).",
 ["schedules","histories"],"all nestings and concurrent interleavings of scopes on any number of threads and initial limits",
 "One nesting on one thread is tested.",
 [I+"common/single_threaded_blas.h","src/common/single_threaded_blas.cpp"],[("scope constructor/destructor","src/common/single_threaded_blas.cpp")],["thread limits and actual parallel region sizes per thread"])
prop("C11","Round-robin pools, signed vectors and value helpers keep their contracts",
 "A round-robin pool holds exactly the requested number of resources, each built from the given arguments, and hands out the current one or advances cyclically through all of them in order, also after being moved. The signed-index vector behaves as the standard vector for every size, access and resize, and out-of-range checked access or a negative size is reported rather than performed. The helpers that consume rvalue arguments call the wrapped callable itself, destroy those arguments before returning and pass lvalues by reference, and the deferred-construction helper builds each element in place from a fresh call.",
 ["histories","inputs"],"all operation sequences on pools and vectors, all argument value categories",
 "The tests cover single sequences; object lifetimes are not tracked.",
 [I+"common/round_robin.h",I+"common/vector.h",I+"common/consume_rvalues.h",I+"common/with_result_of.h",I+"common/callable_object.h"],
 [("RoundRobin",I+"common/round_robin.h"),("vector",I+"common/vector.h"),("ConsumeRvalues",I+"common/consume_rvalues.h"),("WithResultOf",I+"common/with_result_of.h")],["returned references, lifetime counters of instrumented element types"])
prop("C12","Supplementary BLAS/LAPACK entry points act exactly on the described elements",
 "Scaling a complex vector by a real scalar multiplies exactly the n elements at the given increment and touches nothing else. The triangle-selecting copy and set variants for lower, upper and general regions act on exactly that region (respectively set off-diagonal and diagonal values there) and leave everything else, including the padding below the columns, unchanged. Dimension arguments that do not fit the BLAS integer stop the program instead of being truncated.",
 ["inputs"],"all sizes, increments, leading dimensions, regions and element types",
 "These shims have no tests.",
 [I+"blas/scal.h","src/blas/scal.cpp",I+"util_lapack.h"],[("blas::scal mixed overloads","src/blas/scal.cpp"),("lapack::lacpy/laset with blas::Uplo",I+"util_lapack.h")],["whole destination allocation after the call"])
prop("C13","Matrix distributions tile the matrix and deal the tiles consistently",
 "For every matrix size, block size, tile size, grid, rank, source rank and element offset, each element belongs to exactly one tile, each tile to exactly one process, local tiles and elements on all ranks add up to the whole matrix, and all conversions between global/local elements, tiles, blocks, ranks and tile sizes agree with explicit block-cyclic dealing. A sub-distribution at any origin and size describes exactly the corresponding elements with the same owners, and merging or splitting tiles into retiled distributions keeps element ownership. Local ranges \"from this global tile/element on\" name exactly the local items at or after it, and distances between elements and tiles equal the element counts between them.",
 ["inputs","configurations"],"all size/block/tile/grid/rank/source/offset tuples, all sub-rectangles and index queries",
 "The tests tabulate some tuples; the parameter space is product-large.",
 [I+"matrix/distribution.h","src/matrix/distribution.cpp",I+"matrix/distribution_extensions.h"],
 [("Distribution constructors, normalisation and conversions","src/matrix/distribution.cpp"),("distribution extensions",I+"matrix/distribution_extensions.h")],["all public Distribution queries on every rank of a simulated grid"])
prop("C14","Memory chunks and views own, share and bound memory correctly",
 "An owning allocation is at least as large as requested, returned to the allocator exactly once, at the end of the last view sharing it, while wrapped user memory is never freed. Sub-views address exactly the requested offset and length of their parent and keep it alive; moving transfers ownership and leaves the source empty; empty requests are harmless. A request outside the parent stops the program.",
 ["histories","inputs"],"all sequences of construct, wrap, subview, copy, move, assign, destroy on chunks and views",
 "Tests use single steps, without allocator accounting.",
 [I+"memory/memory_view.h",I+"memory/memory_chunk.h"],[("MemoryView",I+"memory/memory_view.h"),("MemoryChunk",I+"memory/memory_chunk.h")],["allocator stand-in event log; view pointers"])
prop("C15","Access pipelines grant ordered exclusive or shared access",
 "Accesses to a value guarded by an access pipeline take effect in the order they were requested: a read-write access starts only after every earlier access has been released and sees its effects, while consecutive read-only accesses may overlap each other but never a read-write access. A sub-pipeline takes its turn as a single exclusive (or read-only) access of its parent: accesses requested on the parent later wait until the sub-pipeline and all accesses requested through it are finished. Every requested access is eventually granted once its predecessors are released; dropped, moved or overwritten pipelines never lose, duplicate or block accesses.",
 ["schedules","histories"],"all request sequences (nested sub-pipelines, moves, resets, dropped senders) and all task schedules",
 "The tests check isolated sequences on one schedule.",
 [I+"common/pipeline.h",I+"matrix/internal/tile_pipeline.h"],[("Pipeline, sub_pipeline, PipelineReadOnly",I+"common/pipeline.h"),("TilePipeline",I+"matrix/internal/tile_pipeline.h")],["grant/release event log at the access boundary"])
prop("C16","Tile accesses of matrices are serialised per tile in program order",
 "For each tile of a matrix, results are as if the accesses were executed one after another in the order the program requested them, with concurrent read-only accesses allowed, independent tiles unordered, and a tile released only when all its sub-tiles, copies and retained handles are gone. This remains true across matrix views, sub-matrix references, retiled matrices, sub-pipelines, sub-tile splitting, read-only and const views, moves, early-released views and destruction of the matrix object while accesses are pending. A failing access releases its tile like any other, and the handles derived from it (sub-tiles, shared read-only handles) fail too instead of vanishing or deadlocking. A request to hand out overlapping parts of one tile for writing at the same time is refused (checked builds), and one for disjoint parts, empty ones included, is not.",
 ["schedules","histories","programs"],"all programs of tile accesses over a matrix and its views and all schedules",
 "Tests verify readiness of a few futures in a fixed order.",
 [I+"matrix/matrix.h",I+"matrix/tile.h",I+"matrix/matrix_ref.h",I+"matrix/views.h",I+"matrix/internal/tile_pipeline.h"],
 [("tile pipelines of Matrix",I+"matrix/matrix.h"),("Tile promise/dependency tracking",I+"matrix/tile.h")],["per-tile version stamps written and read by tasks; event log"])
prop("C17","Matrix storage layouts are disjoint, complete and honoured",
 "Under every allocation layout (column-major, blocks, tiles, compact or padded, user-provided), distinct elements of the local matrix occupy distinct memory, all within the memory required, tiles are placed where the layout says, and reported leading dimensions, offsets and minimal memory sizes are consistent with that. Creating a matrix over existing user memory neither copies nor exceeds it, and invalid leading dimensions or strides are refused. Row-wise or column-wise printing and element access show exactly the element values.",
 ["inputs","configurations"],"all local sizes, tile sizes, leading dimensions, strides, allocation kinds and distributions",
 "A list of fixed layouts is tested.",
 [I+"matrix/col_major_layout.h",I+"matrix/allocation.h",I+"matrix/allocation_types.h",I+"matrix/check_allocation.h",I+"matrix/create_matrix.h",I+"matrix/print_csv.h",I+"matrix/print_numpy.h"],
 [("ColMajorLayout",I+"matrix/col_major_layout.h"),("allocation and create_matrix_from_*",I+"matrix/create_matrix.h")],["element addresses of all tiles, ASan redzones, printed text parsed back"])
prop("C18","Asynchronous communication delivers the right data whatever the completion order",
 "Asynchronous broadcasts, reductions, all-reductions and point-to-point transfers of tiles deliver, for any interleaving of submissions and completions across ranks and communicator pipelines, exactly the data sent by the matching operation in program order, and leave every other element untouched. A communicator taken from its pipeline is used by one operation at a time and returned after it, operations never deadlock when every rank submits them in the same order, and buffers stay alive until the operation completed.",
 ["schedules","histories","configurations"],"all sequences of operations over grids of any shape, all schedules and delays",
 "Fixed two- or four-operation sequences are tested.",
 [I+"communication/kernels/broadcast.h",I+"communication/kernels/reduce.h",I+"communication/kernels/all_reduce.h",I+"communication/kernels/p2p.h",I+"communication/kernels/p2p_allsum.h",I+"communication/communicator_pipeline.h",I+"sender/transform_mpi.h"],
 [("comm kernels","include/dlaf/communication/kernels"),("transformMPI",I+"sender/transform_mpi.h")],["received tiles carrying unique stamps, MPI interposition log"])
prop("C19","Communicator grids map ranks to coordinates one to one",
 "Over any communicator, grid shape and ordering, each participating process gets a unique coordinate, conversions between rank and coordinate are inverse to each other and follow the requested ordering, row, column and full communicators contain exactly the processes of that row, column or grid in coordinate order, and ranks outside the grid are told so. Communicator pipelines are handed out round robin, are independent communicators, and are all released exactly once after pending work finished.",
 ["configurations","histories"],"all communicator sizes, grid shapes, orderings, numbers of pipelines and request sequences",
 "Two or three grid shapes are tested.",
 [I+"communication/communicator_grid.h","src/communication/communicator_grid.cpp",I+"communication/communicator_pipeline.h"],[("CommunicatorGrid","src/communication/communicator_grid.cpp")],["grid queries on all ranks, PMPI communicator accounting"])
prop("C20","Copies and redistributions preserve every element",
 "Copying a matrix or sub-matrix into another of the same size transfers exactly all elements of the selected regions and changes nothing else, whatever the two tilings, allocations, source ranks, offsets and block sizes, locally and between processes and under any order of message completion. Mirrored copies between memory spaces bring changes back exactly when asked or at destruction.",
 ["inputs","schedules","configurations"],"all pairs of distributions, sub-rectangles, grids and message schedules",
 "A list of fixed pairs is tested on one schedule.",
 [I+"matrix/copy.h",I+"matrix/copy_tile.h",I+"matrix/matrix_mirror.h"],[("copy between matrices and with redistribution",I+"matrix/copy.h"),("MatrixMirror",I+"matrix/matrix_mirror.h")],["complete destination and source matrices on all ranks"])
prop("C21","Matrix initialisers depend only on global position",
 "Setting a matrix from a function, to identity or zero, or to random, random Hermitian, positive definite or banded content gives each element a value determined only by its global index (and matrix and tile size), identical for every grid, source rank, rank count and schedule. Random Hermitian matrices are exactly Hermitian with real diagonal, the positive definite ones are positive definite, the banded ones vanish outside the band, and the entries lie in the documented range.",
 ["inputs","configurations","schedules"],"all sizes, tile sizes, grids, band sizes and schedules",
 "Tests compare few sizes, with themselves.",
 [I+"util_matrix.h",I+"matrix/matrix.h"],[("set, set0, set_identity, set_random*",I+"util_matrix.h")],["gathered global matrices across grids"])
prop("C22","Panels broadcast and alias exactly the intended tiles",
 "A row or column panel over any range of a distributed matrix has a tile of the right size for each local index of that range, whether owned or attached to an external tile, respects the start offset, width or height restrictions and reset, and its tiles are usable independently of earlier rounds of use. Broadcasting a panel along its axis, or from a row panel to a column panel or vice versa, delivers to each process exactly the panel tiles it needs, each from the process owning it.",
 ["inputs","configurations","schedules"],"all distributions, ranges, offsets, reuse sequences, grids and schedules",
 "One or two reuse rounds on fixed shapes are tested.",
 [I+"matrix/panel.h",I+"communication/broadcast_panel.h"],[("Panel",I+"matrix/panel.h"),("broadcast",I+"communication/broadcast_panel.h")],["panel tile sizes and content on all ranks over multi-round histories"])
prop("C23","Cholesky factorisation reproduces the matrix",
 "For every Hermitian positive definite matrix, size, tile size, triangle, element type, process grid and schedule, the computed factor times its conjugate transpose reproduces the input to within rounding, only the selected triangle is read or written, and the result is independent of source rank and schedule.",
 ["inputs","schedules","configurations"],"all HPD matrices, sizes, tilings, grids, triangles, schedules",
 "A few sizes on one analytically known matrix family and whichever schedule occurs.",
 [I+"factorization/cholesky.h",I+"factorization/cholesky/impl.h"],[("local and distributed tile algorithm",I+"factorization/cholesky/impl.h")],["residual of factor vs input; other triangle bits; padding bits"])
prop("C24","Triangular solves satisfy the equation and touch nothing else",
 "Solving with a triangular matrix from the left or right, upper or lower, plain, transposed or conjugate-transposed, unit or non-unit diagonal, scaled by any factor, returns a solution that satisfies the equation within rounding for every size, tiling, element type, grid and schedule. The triangular matrix is unchanged and neither its other triangle nor (for unit diagonals) its diagonal influences the result.",
 ["inputs","schedules","configurations"],"all operand shapes, flags, scalars, tilings, grids and schedules",
 "Fixed sizes and one matrix family.",
 [I+"solver/triangular.h",I+"solver/triangular/impl.h"],[("Triangular solver variants",I+"solver/triangular/impl.h")],["residual; bitwise input preservation with NaN in unreferenced parts"])
prop("C25","Matrix products equal their definition on the selected region",
 "Triangular, Hermitian and general multiplication (including products restricted to sub-ranges and sub-matrices) equal their mathematical definition within rounding for all sides, triangles, transpositions, diagonal kinds, scalars (including zero and one), tilings, element types, grids and schedules. Inputs and all elements outside the result region are left bit-identical, and unreferenced triangles are never used.",
 ["inputs","schedules","configurations"],"all shapes, flags, scalars, sub-ranges, tilings, grids and schedules",
 "Fixed sizes and one matrix family.",
 [I+"multiplication/triangular/impl.h",I+"multiplication/hermitian/impl.h",I+"multiplication/general/impl.h"],[("multiplication algorithms","include/dlaf/multiplication")],["reference product comparison; bitwise preservation"])
prop("C26","Inverses multiply back to the identity",
 "Inverting a triangular matrix, or an HPD matrix from its Cholesky factor, gives a matrix whose product with the original is the identity within conditioning-scaled rounding, for every triangle, diagonal kind, size, tiling, element type, grid and schedule, changing only the selected triangle.",
 ["inputs","schedules","configurations"],"all nonsingular triangular and HPD matrices, flags, tilings, grids, schedules",
 "Fixed sizes and one matrix family.",
 [I+"inverse/triangular/impl.h",I+"inverse/cholesky/impl.h"],[("inverse algorithms","include/dlaf/inverse")],["residual; other triangle bits"])
prop("C27","Reduction of the generalized problem preserves the spectrum transformation",
 "Transforming a Hermitian matrix with the Cholesky factor of another to the standard eigenproblem gives inv(L) A inv(L)^H (or inv(U)^H A inv(U)) within rounding in the selected triangle, for all sizes, tilings, element types, grids and schedules, leaving the factor and the opposite triangle unchanged.",
 ["inputs","schedules","configurations"],"all matrix pairs, triangles, tilings, grids, schedules",
 "Fixed sizes and one matrix family.",
 [I+"eigensolver/gen_to_std.h",I+"eigensolver/gen_to_std/impl.h"],[("gen_to_std algorithms",I+"eigensolver/gen_to_std/impl.h")],["comparison with dense reference"])
prop("C28","Band reduction and its back-transformation are a unitary similarity",
 "Reducing a Hermitian matrix to band form yields a Hermitian band matrix and reflectors whose accumulated transformation Q is unitary and satisfies Q B Q^H = A within rounding, for all sizes, tile sizes, band sizes dividing the tile size, element types, grids and schedules. Applying the back-transformation to any matrix equals multiplication by that same Q, on the whole matrix or the selected columns only.",
 ["inputs","schedules","configurations"],"all Hermitian matrices, sizes, bands, tilings, grids, schedules",
 "Fixed sizes.",
 [I+"eigensolver/reduction_to_band/impl.h",I+"eigensolver/bt_reduction_to_band/impl.h",I+"factorization/qr/api.h"],[("reduction to band",I+"eigensolver/reduction_to_band/impl.h"),("back transformation",I+"eigensolver/bt_reduction_to_band/impl.h")],["residual and orthogonality norms"])
prop("C29","Band-to-tridiagonal reduction is a unitary similarity, race free",
 "Chasing a Hermitian band matrix to tridiagonal form yields a real symmetric tridiagonal matrix and reflectors whose accumulated unitary transformation reproduces the band matrix within rounding, for every size, band size, tile size, element type, grid and schedule of the concurrent sweeps. The corresponding back-transformation equals multiplication by that unitary matrix.",
 ["inputs","schedules","configurations"],"all band matrices, sizes, bands, grids, sweep schedules",
 "Fixed sizes and uncontrolled schedules.",
 [I+"eigensolver/band_to_tridiag/mc.h",I+"eigensolver/bt_band_to_tridiag/impl.h"],[("sweep workers and semaphores",I+"eigensolver/band_to_tridiag/mc.h"),("back transformation",I+"eigensolver/bt_band_to_tridiag/impl.h")],["residual and orthogonality; TSan"])
prop("C30","The divide-and-conquer tridiagonal eigensolver is accurate for every spectrum",
 "For every real symmetric tridiagonal matrix, including ones with repeated, clustered, zero or widely scaled entries and split (zero) off-diagonals, the solver returns eigenvalues in ascending order and orthonormal eigenvectors with small residual, for all sizes, tile sizes, grids and schedules. Row and column permutations used in it move exactly the requested vectors.",
 ["inputs","schedules","configurations"],"all tridiagonal matrices (deflation patterns), sizes, tilings, grids, schedules",
 "A random and a Laplace matrix are tested.",
 [I+"eigensolver/tridiag_solver/impl.h",I+"eigensolver/tridiag_solver/merge.h",I+"eigensolver/tridiag_solver/rot.h",I+"permutations/general/impl.h"],[("merge with deflation",I+"eigensolver/tridiag_solver/merge.h"),("permute",I+"permutations/general/impl.h")],["residual, orthogonality, order"])
prop("C31","Hermitian eigensolvers return an accurate ordered eigendecomposition",
 "For every Hermitian matrix (and every Hermitian/positive-definite pair for the generalized problem, also with a given factorisation) given by its lower triangle, the other triangle being neither read nor written and requests for the upper one being refused, the eigensolver returns eigenvalues in ascending order and eigenvectors that are orthonormal (respectively B-orthonormal) with small residual, for any size, tiling, element type, grid and schedule. A partial request returns exactly the requested lowest eigenpairs, equal to the corresponding ones of the full solution.",
 ["inputs","schedules","configurations"],"all Hermitian matrices/pairs, index ranges, tilings, grids, schedules",
 "Fixed sizes and one matrix family.",
 [I+"eigensolver/eigensolver/impl.h",I+"eigensolver/gen_eigensolver/impl.h"],[("eigensolver drivers",I+"eigensolver/eigensolver/impl.h")],["residual, orthogonality, order"])
prop("C32","Norm of the selected part of the matrix is exact",
 "The maximum norm over the whole matrix or its lower triangle is the largest absolute value over exactly the elements of that region (0 for an empty matrix), delivered at the designated process for any size, tiling, element type, grid and schedule, leaving the matrix unchanged.",
 ["inputs","schedules","configurations"],"all matrices (position of the maximum), tilings, grids, target ranks",
 "Fixed sizes with the maximum in chosen tiles.",
 [I+"auxiliary/norm/mc.h",I+"auxiliary/norm.h"],[("norm algorithms",I+"auxiliary/norm/mc.h")],["returned norm vs direct maximum"])
prop("C33","Configuration precedence and initialise/finalise life cycle",
 "Each configuration and tuning value comes from the highest-priority source that sets it (command line, then environment, then the user's configuration object or the tuning values set by the application, then defaults), malformed values and values that do not fit the option are rejected, and printing shows the values in effect. Initialise and finalise pair up: initialising twice, finalising without initialising or initialising on an MPI without full thread support is refused, and after finalise the library can be initialised again with all its resources released in between.",
 ["configurations","histories"],"all combinations of sources per option, all values, all init/finalize sequences",
 "Only a sampled few options and orders are tested.",
 [I+"init.h","src/init.cpp",I+"tune.h","src/tune.cpp"],[("update_configuration","src/init.cpp"),("TuneParameters","src/tune.cpp")],["effective configuration, process termination, resource counters"])
prop("C34","The C interface computes the same results in place for callers",
 "Through the C interface, for every valid array descriptor (offset one, any leading dimension and source process) and any grid context created by the caller, the results left in the caller's local array equal those of the native interface, padding beyond the local matrix is untouched, success is reported, and repeated use, several coexisting grids and release of grids in any order keep working. Invalid descriptors or arguments are refused.",
 ["inputs","histories","configurations"],"all descriptors, grids, call sequences",
 "One grid and one descriptor shape per routine is tested, and only with ScaLAPACK.",
 ["include/dlaf_c/grid.h","include/dlaf_c/desc.h","src/c_api/grid.cpp","src/c_api/utils.cpp","src/c_api/factorization/cholesky.h","src/c_api/eigensolver/eigensolver.h"],[("C wrappers","src/c_api")],["caller's arrays incl. padding; return codes; grid table"])
prop("C35","Results do not depend on the schedule and no data race occurs",
 "For any task schedule, thread count, number of communicators and timing of communication, the asynchronous algorithms run without data races, deadlock or lost work and deliver results which for deterministic algorithms are bit-identical between schedules. Work submitted to the same matrices from consecutive algorithm calls without waiting in between gives the same results as waiting after each call.",
 ["schedules","programs"],"all schedules of algorithm sequences on shared matrices",
 "Tests run whatever schedule occurs, without race detection.",
 [I+"common/pipeline.h",I+"matrix/tile.h",I+"sender/transform.h",I+"schedulers.h"],[("tile dependencies",I+"matrix/tile.h"),("transform/scheduling",I+"sender/transform.h")],["ThreadSanitizer reports, quiescence detector, bit comparison between runs"])
prop("C36","Tile-level kernels act exactly on their tiles",
 "Every tile-level BLAS, LAPACK, copy, set, add and scan kernel, called on tiles or through its asynchronous wrapper, gives the mathematically defined result within rounding for all tile sizes (including empty), leading dimensions, flags, scalars and element types, writes only the output region of its output tile, and keeps its operands alive and locked until it is done.",
 ["inputs","schedules"],"all tile shapes, leading dimensions, flags, scalars, types",
 "Tests use a list of sizes with analytic matrices.",
 [I+"blas/tile.h",I+"lapack/tile.h",I+"matrix/copy_tile.h",I+"blas/tile_extensions.h"],[("tile wrappers",I+"blas/tile.h")],["whole tile allocations vs naive reference"])
prop("C37","GPU execution gives the same results as CPU execution",
 "Every algorithm run on the GPU backend gives the same result as on the CPU within rounding, transfers between host and device memory move exactly the data, and work on streams respects tile dependencies.",
 ["inputs","schedules","configurations"],"all algorithms, devices and stream schedules","Needs GPU hardware.",
 [I+"gpu","src/cusolver"],[("GPU backend","include/dlaf/gpu")],["device results"])
prop("C38","Matrices written to HDF5 files read back identically",
 "A matrix written to an HDF5 file, by one or many processes and with any distribution, is read back with any other distribution with identical elements, and file access modes are respected.",
 ["inputs","configurations"],"all matrices and distribution pairs","One round trip per type is tested.",
 [I+"matrix/hdf5.h","src/matrix/hdf5.cpp"],[("FileHDF5",I+"matrix/hdf5.h")],["file content"])
prop("C39","Failures stop the program and name what failed, options have one name each",
 "A failed assertion of an enabled level, an unreachable or unimplemented branch and an unknown option value stop the program at once, wherever they happen (any thread, try blocks, during unwinding) and cannot be caught, after printing file, line, function, the failed expression and every value given to it in order. An assertion that holds evaluates its condition once and prints nothing, one of a disabled level evaluates nothing. A failed MPI call, whatever its error code, aborts all processes with a non-zero code after printing the call site and the error text of MPI, while a successful one does nothing. Each option value has its own printed name and initial, which parses back to that value in any letter case, and timers report the elapsed time of their clock in seconds without being restarted by reading.",
 ["inputs","configurations","faults"],"all assertion levels and argument lists, places of failure, MPI error codes, option values and strings, clocks",
 "Death tests cover one assertion each; MPI failures, levels and names are not tested.",
 [I+"common/assert.h",I+"communication/error.h",I+"common/source_location.h",I+"blas/enum_output.h",I+"lapack/enum_output.h",I+"matrix/allocation_io.h",I+"common/timer.h"],
 [("assertion macros",I+"common/assert.h"),("MPI error check",I+"communication/error.h")],["exit and standard error of forked children, MPI_Abort calls"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
