#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run `python3 tools/gen_props.py` after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DA = "pylops_mpi/DistributedArray.py"
LO = "pylops_mpi/LinearOperator.py"
SLO = "pylops_mpi/StackedLinearOperator.py"
DEC = "pylops_mpi/utils/decorators.py"
BD = "pylops_mpi/basicoperators/BlockDiag.py"
VS = "pylops_mpi/basicoperators/VStack.py"
HS = "pylops_mpi/basicoperators/HStack.py"
FD = "pylops_mpi/basicoperators/FirstDerivative.py"
SD = "pylops_mpi/basicoperators/SecondDerivative.py"
GR = "pylops_mpi/basicoperators/Gradient.py"
LA = "pylops_mpi/basicoperators/Laplacian.py"
FR = "pylops_mpi/signalprocessing/Fredholm1.py"
MD = "pylops_mpi/waveeqprocessing/MDC.py"
SO = "pylops_mpi/optimization/cls_basic.py"
SB = "pylops_mpi/optimization/basic.py"
PL = "pylops_mpi/plotting/plotting.py"
DT = "pylops_mpi/utils/dottest.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


NTEST = "The tests run with exactly 3 processes on a handful of fixed, mostly even sizes and one application per object; "

prop("C01", "Distribution tiles the global array and gathering restores it exactly",
     "For any array, partition axis and number of processes (more processes than elements included), the scattered local parts are consecutive, non-overlapping blocks in rank order that together are exactly the global array; the default split is balanced (sizes differ by at most one, larger parts first) and a valid custom list of local shapes is honoured as given. "
     "Gathering a distributed array returns, on every rank, the original global array bit for bit with its shape and dtype, and a replicated array holds all of it on every rank. "
     "The reported global shape, local shape, list of local shapes, axis, rank and size agree with the data actually held.",
     ["inputs", "configurations"],
     "all global shapes, axes, dtypes, memory layouts, partitions, valid custom local shapes and process counts",
     NTEST + "never more processes than elements, zero-size parts, gathered large messages or non-contiguous inputs on an arbitrary axis.",
     [DA], [("local_split", DA + ": local_split"), ("DistributedArray.to_dist", DA + ": to_dist"), ("DistributedArray.asarray", DA + ": asarray")],
     state=[("local_array", "block of the global array owned by this rank", DA)],
     observe=["DistributedArray.local_array on every rank", "DistributedArray.asarray()"])

prop("C02", "Broadcast arrays stay identical on all ranks after every modification",
     "An array with the broadcast partition holds the same content on every rank after any sequence of assignments (full, slice, integer, boolean or negative index), arithmetic and in-place operations and operator applications, even when ranks supply different values: the value of rank 0 wins. "
     "An array with the unsafe-broadcast partition keeps whatever each rank assigned to it and an assignment to it performs no communication at all.",
     ["histories", "inputs"],
     "all histories of assignments and array operations, all index expressions, all per-rank values and process counts",
     NTEST + "no test assigns rank-dependent values through slices or checks that unsafe assignment is communication-free.",
     [DA, VS, FR], [("__setitem__ broadcasts the value of rank 0", DA + ": __setitem__")],
     observe=["local_array on every rank after each step", "collective calls made by an assignment"])

prop("C03", "Element-wise array algebra equals NumPy and keeps the layout",
     "Negation, addition, subtraction, element-wise and scalar multiplication (either side), their in-place forms, conjugation, copy, zero-filled copy and flattening of distributed arrays hold on each rank exactly what the same NumPy expression on the local parts gives, so gathering the result equals the NumPy expression on the global arrays. "
     "The result has the operands' global shape, partition, axis, local shapes, mask and communicator (flattening: the row-major or requested-order flattening of each local part, same partition and mask).",
     ["inputs", "programs", "configurations"],
     "all expressions over arrays and scalars, shapes, axes, partitions, masks, uneven local shapes, dtypes and process counts",
     NTEST + "single operations on few shapes, never chains of operations on uneven or masked layouts and non-zero axes.",
     [DA], [("add/iadd/multiply/__neg__/conj/copy/zeros_like/ravel", DA)],
     observe=["local_array, global_shape, partition, axis, local_shapes, mask, base_comm of every result"])

prop("C04", "Value semantics: operands are never modified and results never share memory",
     "Building an array, any array operation, any operator application, any combination of operators and any solver call leave their array, operator and data inputs bitwise unchanged; only the explicitly in-place forms and item assignment modify their target. "
     "A returned array shares no memory with any input (nor with a buffer owned by an operator), so writing into a result never changes an input, an earlier result or later results. (The accessors local_array and indexing, and asarray of a replicated array, give access to the array's own data by design.)",
     ["programs", "histories", "inputs"],
     "all public operations, operators and solvers, all partitions and process counts, and histories in which results are overwritten afterwards",
     NTEST + "tests never overwrite results nor compare inputs before and after, so aliasing or in-place shortcuts are invisible to them.",
     [DA, LO, SLO, BD, VS, FD, FR, SO], [("fresh result arrays", DA + ": copy/add/multiply/..."), ("x0.copy() in solver setup", SO + ": setup"), ("res = x.copy() in powers", LO + ": _PowerLinearOperator")],
     observe=["digests of inputs before/after", "numpy.shares_memory between inputs and outputs"])

prop("C05", "Distributed dot products and norms equal their NumPy counterparts",
     "The dot product and the vector norm of any order (2, 1, 0, plus and minus infinity, any other positive order) of distributed arrays equal NumPy's on the flattened global arrays up to rounding, for every partition, layout and process count, ranks holding no element included (the minus-infinity and plus-infinity norms included); the norm along the partition axis equals NumPy's norm along that axis. "
     "All ranks obtain the bitwise identical value.",
     ["inputs", "configurations"],
     "all shapes, axes, partitions, local shapes, orders, dtypes and process counts",
     NTEST + "one evenly split shape per case, no empty local parts, few orders, and each rank's value is never compared with the others'.",
     [DA], [("dot", DA + ": dot"), ("norm", DA + ": norm/_compute_vector_norm")],
     observe=["returned scalar/array on every rank"])

prop("C06", "Masked reductions stay inside their group of ranks",
     "With a mask assigning ranks to groups, the dot product and norms returned on a rank are computed from the local parts of the ranks of its own group only, whatever the group layout, for scattered arrays of any layout and for arrays derived from masked ones by arithmetic, flattening, copying or masked operators. "
     "A solver running a fixed number of iterations on masked arrays and block-diagonal operators with that mask returns in each group exactly what the group's own sub-problem solved alone would give, also when the groups meet the stopping rule at different iterations.",
     ["configurations", "inputs", "histories"],
     "all masks (contiguous, interleaved, singleton groups), layouts, operations deriving arrays from masked arrays, and fixed-iteration solver runs",
     NTEST + "one or two masks with contiguous groups; derived arrays and solver runs on uneven groups are not exercised.",
     [DA, BD, SO], [("sub_comm built from the mask", DA + ": __init__"), ("_allreduce_subcomm", DA), ("mask of block-diagonal outputs", BD)],
     observe=["dot/norm/solution per group"])

prop("C07", "Ghost cells hold exactly the neighbours' boundary data",
     "Adding ghost cells returns, on each rank, a fresh array made of the requested number of trailing cells of the previous rank, the rank's own part unchanged, and the requested number of leading cells of the next rank, along the partition axis; the first rank gets none in front and the last none behind. "
     "This holds when ranks request different widths (zero included), for any number of dimensions, dtype, uneven layout and process count, leaves the array unchanged and leaves no message undelivered. "
     "A width larger than what a neighbour holds raises ValueError on every rank instead of returning wrong data or blocking.",
     ["inputs", "schedules", "configurations"],
     "all shapes, axes, per-rank widths, layouts, process counts and message timings",
     NTEST + "uniform widths on balanced layouts with 3 ranks, so per-rank widths and the two-sided exchange order under delays are not covered.",
     [DA], [("add_ghost_cells", DA + ": add_ghost_cells")],
     observe=["returned array per rank", "sends/receives on the communicator"])

prop("C08", "Stacked arrays behave as the concatenation of their components",
     "Gathering a stack of distributed arrays returns the concatenation of the flattened global components; addition, subtraction, multiplication (stack or scalar, either side), in-place forms, negation, conjugation, copy, dot product and norms of any order equal the NumPy operations on that concatenation, component by component in the component's own layout. "
     "Stacks with a different number of components or different component shapes are rejected with ValueError on every rank.",
     ["inputs", "programs", "configurations"],
     "all stacks (any number of components, mixed partitions, shapes, axes, dtypes), operations, orders and process counts",
     NTEST + "one fixed stack of equal components; mixed partitions, uneven components and chains of operations are not tested.",
     [DA], [("StackedDistributedArray", DA + ": StackedDistributedArray")],
     observe=["components, gathered stack and scalars on every rank"])

prop("C09", "Operators accept any layout of their input and realign it exactly",
     "When the input of a stacking or derivative operator is scattered with a layout different from the operator's own, the data is realigned element for element and the result equals, after gathering, the one obtained with the matching layout. "
     "If the realignment is not achievable between neighbouring ranks, ValueError is raised on every rank: no rank ever blocks, and a silently wrong result is never returned.",
     ["inputs", "configurations", "schedules"],
     "all pairs of input layout and operator layout (zero-size parts included), operators, dtypes and process counts",
     NTEST + "inputs almost always match the operator layout or shift by one element between 3 ranks.",
     [DEC, DA, BD, VS], [("reshaped", DEC + ": reshaped"), ("add_ghost_cells", DA)],
     observe=["gathered operator output for every input layout"])

prop("C10", "Block-diagonal operators equal the serial block-diagonal matrix",
     "Forward and adjoint of a distributed block-diagonal operator, with any number of rectangular blocks per rank in rank order, equal the dense block-diagonal matrix of all blocks applied to the global vector, and the output is scattered according to the rows (columns for the adjoint) owned by each rank. "
     "The stacked variant applies its i-th distributed operator to the i-th component only, forward and adjoint.",
     ["inputs", "configurations"],
     "all block lists per rank (sizes, counts, dtypes, serial operator kinds), process counts and input vectors",
     NTEST + "one or few equal blocks per rank; different numbers and shapes of blocks per rank are not covered.",
     [BD, SLO], [("MPIBlockDiag", BD), ("MPIStackedBlockDiag", BD)],
     observe=["local and gathered outputs", "shape and dtype of the operator"])

prop("C11", "Vertical and horizontal stacks equal the serial stacked matrix",
     "Forward and adjoint of a distributed vertical stack equal the dense matrix obtained by stacking all blocks in rank order, for broadcast inputs forward and any scattered input in the adjoint; the adjoint sums the contributions of all ranks into a replicated vector identical on all ranks. "
     "The distributed horizontal stack is the dense horizontal concatenation with scattered model and replicated data; the stacked vertical variant concatenates the outputs of distributed operators and sums their adjoints.",
     ["inputs", "configurations"],
     "all block lists per rank (row counts, numbers of blocks, dtypes), process counts, partitions and input vectors",
     NTEST + "equal blocks on 3 ranks, few dtypes.",
     [VS, HS, SLO], [("MPIVStack", VS), ("MPIHStack", HS), ("MPIStackedVStack", VS)],
     observe=["local and gathered outputs", "replicated adjoint on every rank"])

prop("C12", "Distributed first derivative equals the serial first derivative",
     "For every stencil (forward, backward, centered of order 3 or 5), edge option, sampling, number of dimensions, dtype and process count, forward and adjoint of the distributed first derivative along the first axis equal, after gathering, the serial PyLops first derivative along axis 0 with the same parameters, for scattered inputs of any realignable layout and for replicated inputs, wherever each rank holds enough rows for the stencil.",
     ["inputs", "configurations"],
     "all dims, stencils, edges, samplings, partitions, dtypes, inputs and process counts with enough rows per rank",
     NTEST + "sizes are large multiples of the stencil so that each rank is an interior case; no boundary rank with the minimal number of rows.",
     [FD, DA, DEC], [("stencils and boundary handling", FD), ("ghost cells", DA + ": add_ghost_cells")],
     observe=["gathered forward/adjoint output"])

prop("C13", "Distributed second derivative equals the serial second derivative",
     "For every stencil (forward, backward, centered), edge option, sampling, number of dimensions, dtype and process count, forward and adjoint of the distributed second derivative along the first axis equal, after gathering, the serial PyLops second derivative along axis 0 with the same parameters, for scattered inputs of any realignable layout and for replicated inputs, wherever each rank holds enough rows for the stencil.",
     ["inputs", "configurations"],
     "all dims, stencils, edges, samplings, partitions, dtypes, inputs and process counts with enough rows per rank",
     NTEST + "sizes are large multiples of the stencil; no boundary rank with the minimal number of rows.",
     [SD, DA, DEC], [("stencils and boundary handling", SD), ("ghost cells", DA + ": add_ghost_cells")],
     observe=["gathered forward/adjoint output"])

prop("C14", "Distributed gradient and Laplacian equal their serial counterparts",
     "Forward and adjoint of the distributed gradient (one component per axis, in axis order) and Laplacian (weighted sum over any choice and order of axes, negative axes included) equal the serial PyLops operators with the same dims, sampling, stencil and edge parameters after gathering, for every process count giving each rank enough rows.",
     ["inputs", "configurations"],
     "all dims (2-D and 3-D, uneven over ranks), axes, weights, samplings, kinds, edges, dtypes and process counts",
     NTEST + "few dims and one set of axes and weights.",
     [GR, LA, FD, SD, BD, VS], [("MPIGradient", GR + ": _calc_stack_op"), ("MPILaplacian", LA + ": _calc_l2op")],
     observe=["gathered forward/adjoint output"])

prop("C15", "Distributed Fredholm integral equals the serial batched product",
     "For any split of the kernel slices over ranks (at least two slices each), any kernel size, number of right-hand sides, dtype and combination of the stored-transpose and matmul options, forward and adjoint of the distributed Fredholm integral equal the slice-by-slice product with the kernel and with its conjugate transpose computed serially, and the result is replicated identically on all ranks. "
     "All option combinations give the same result.",
     ["inputs", "configurations"],
     "all kernels, uneven slice distributions, nz, dtypes, options and process counts",
     NTEST + "the same number of slices per rank and two kernel sizes.",
     [FR], [("MPIFredholm1._matvec/_rmatvec", FR), ("slice offsets islstart/islend", FR)],
     observe=["output on every rank"])

prop("C16", "Distributed multi-dimensional convolution equals the serial operator",
     "For any split of the frequency slices over ranks, forward and adjoint of the distributed multi-dimensional convolution equal the serial PyLops operator built from the full kernel with the same options (time and space sampling, one- or two-sided, conjugated kernel, prescaling, stored transpose), and the real-valued result is identical on all ranks.",
     ["inputs", "configurations"],
     "all kernels, numbers of time samples, frequencies, sources, receivers and virtual sources, options and process counts",
     "No existing test exercises the distributed convolution at all; the examples run it with one configuration.",
     [MD, FR, LO], [("_MDC chain", MD + ": _MDC"), ("MPIMDC", MD)],
     observe=["output on every rank"])

prop("C17", "Operator algebra is matrix algebra",
     "Any expression built from distributed operators with adjoint, transpose, conjugate, sum, difference, negation, product, (real or complex) scaling on either side and non-negative integer power acts, forward and adjoint, as the same expression on the dense matrices on vectors its type can represent, and reports the matching shape. "
     "Double adjoints, transposes and conjugates give back the original action, and building an expression does not change the operators it is built from.",
     ["programs", "inputs"],
     "all well-typed expression trees over all operators, scalars, input vectors and process counts",
     NTEST + "each combinator is applied once to one real block-diagonal operator.",
     [LO], [("_AdjointLinearOperator ... _ConjLinearOperator", LO), ("MPILinearOperator.dot/__mul__/__pow__/...", LO)],
     observe=["gathered output of the expression"])

prop("C18", "Stacked-operator algebra is matrix algebra",
     "Any expression built from stacked distributed operators (diagonal and vertical stacks, gradient) with adjoint, transpose, conjugate, sum, difference, negation, product, (real or complex) scaling and non-negative integer power (sums of operators of one stacked kind) acts, forward and adjoint, as the same expression on the dense matrices of the stacked system, on stacked and plain distributed vectors its type can represent, and reports the matching shape.",
     ["programs", "inputs"],
     "all well-typed expression trees over stacked operators, scalars, stacked vectors and process counts",
     NTEST + "each combinator is applied once to one real stack.",
     [SLO, BD, VS, GR], [("_AdjointStackedLinearOperator ... _ConjLinearOperator", SLO), ("MPIStackedLinearOperator.dot/...", SLO)],
     observe=["gathered output of the expression"])

prop("C19", "Every operator passes the adjoint identity and dottest tells the truth",
     "For every distributed operator and every vectors u, v of matching layout, the inner products (Op u, v) and (u, Op^H v) agree to rounding, complex operators and vectors included. "
     "The dot-test utility returns true (or does not raise) exactly when the identity holds for the given vectors within its tolerances, identically on all ranks: it fails operators whose adjoint is wrong on a single rank or element, and rejects wrong dimensions.",
     ["inputs", "programs", "configurations"],
     "all operators and their combinations, real and complex vectors, tolerances, perturbed adjoints and process counts",
     NTEST + "the dot-test itself is never run on an operator with a wrong adjoint.",
     [DT, LO, BD, VS, FD, SD, FR, MD], [("dottest", DT), ("rmatvec of every operator", "pylops_mpi/*")],
     observe=["inner products", "verdict of dottest on every rank"])

prop("C20", "Distributed CG computes the conjugate-gradient iterates",
     "On a symmetric (Hermitian) positive-definite system, each iterate, the residual-norm history and the iteration count of the distributed CG equal those of the textbook conjugate-gradient recurrence on the gathered system from the same initial guess, up to rounding, for plain and stacked arrays, real and complex, any initial guess and process count; run to convergence, it returns the solution of the system.",
     ["inputs", "configurations", "histories"],
     "all SPD systems, right-hand sides, initial guesses, tolerances, iteration counts, array layouts and process counts",
     NTEST + "tests only compare the converged solution on well-conditioned systems, so wrong iterates or histories that still converge are invisible.",
     [SO, SB], [("CG.setup/step/run", SO + ": CG")],
     observe=["iterates (callback), cost, iteration count"])

prop("C21", "Distributed CGLS computes the damped least-squares iterates",
     "Each iterate, residual history, iteration count and returned norm of the distributed CGLS equal those of the textbook CGLS recurrence for the damped functional ||y - Op x||^2 + damp^2 ||x||^2 on the gathered system from the same initial guess (zero or not), for over- and under-determined, real and complex, plain and stacked problems, any damping and process count; run to convergence it returns the damped least-squares solution.",
     ["inputs", "configurations", "histories"],
     "all systems, right-hand sides, initial guesses, dampings, tolerances, iteration counts, layouts and process counts",
     NTEST + "tests compare converged undamped solutions only; damping with a non-zero initial guess is never tested.",
     [SO, SB], [("CGLS.setup/step/run/finalize", SO + ": CGLS")],
     observe=["iterates (callback), cost, iteration count, r1norm, r2norm"])

prop("C22", "Solvers terminate and report truthfully",
     "A solver performs at most the requested number of iterations, stops as soon as its squared-norm criterion falls to the tolerance or below (zero iterations when the initial guess already satisfies it), and calls the callback exactly once per iteration with the current iterate. "
     "The returned cost history has one entry per iteration plus one and its entries are the true residual norms of the iterates, the final norms and stop reason (tolerance met or iteration limit) describe the returned solution, and manual setup/step/run/finalize, running in several chunks, printing progress or passing a callback give bitwise the same numbers as a single call, identically on all ranks.",
     ["histories", "inputs", "configurations"],
     "all solver call patterns (solve, setup+step, setup+run in chunks, with or without show and callback), problems, tolerances and iteration limits",
     NTEST + "no test inspects cost, istop, iteration count, callbacks or the stepwise API.",
     [SO, SB], [("while loop and stopping rule", SO + ": run"), ("finalize", SO + ": finalize"), ("cg/cgls wrappers", SB)],
     observe=["returned tuple and solver attributes on every rank", "callback invocations"])

prop("C23", "Communication is deadlock-free and every message is consumed",
     "Every array operation, operator application and solver call completes for any relative speed of the ranks, also when sends wait for the matching receive: all ranks issue the same collective operations in the same order on each communicator with compatible roots and reductions, and every point-to-point message sent is received by the end of the call. "
     "No operation relies on messages being buffered by the transport.",
     ["schedules", "inputs", "programs"],
     "all message timings and transport buffering behaviours, all operations, layouts (uneven, empty parts, large messages) and process counts",
     "The tests run on one machine with eager buffering, tiny messages and no delays, where a mismatched or circular exchange can pass by luck.",
     [DA, DEC, BD, VS, FD, SD, FR, SO], [("ordered ghost exchange", DA + ": add_ghost_cells"), ("rank-independent control flow around collectives", "pylops_mpi/*")],
     observe=["every MPI call of every rank (wrapped communicator)", "blocked-state board of all ranks"])

prop("C24", "Results are independent of timing and identical on all ranks",
     "For the same inputs and process count, delays of ranks and of messages never change any result bit: arrays, scalars, solver iterates and histories are the same in every schedule. "
     "All values documented as replicated (gathered arrays, dot products, norms, broadcast results, operator shapes and dtypes, solver counts and histories) are the same on all ranks.",
     ["schedules", "inputs", "programs"],
     "all schedules (injected delays, synchronous sends), programs of array, operator and solver calls, layouts and process counts",
     "The tests run one uncontrolled schedule and each rank checks only its own view against the expected value.",
     [DA, LO, BD, VS, FR, SO], [("deterministic rank-ordered collectives", DA), ("replicated control state in solvers", SO)],
     observe=["digests of results per rank and per schedule"])

prop("C25", "Invalid requests are rejected the same way on all ranks",
     "An invalid request (axis out of range, unknown partition, local shapes that do not match the global shape or the number of ranks, operands with different shape, partition, layout or mask, wrong vector size or partition for an operator, stacks of operators with incompatible sizes or types, bad powers or derivative kinds, one-slice Fredholm kernels, and the like) raises the same kind of exception on every rank, also when only some ranks see the inconsistency, instead of blocking or returning a value. "
     "After the rejected request the operands are unchanged and later operations work normally.",
     ["inputs", "histories", "configurations"],
     "all kinds of invalid arguments (also ones visible to some ranks only), process counts and follow-up operations",
     NTEST + "a few errors that all ranks detect alike; errors detected by one rank only would hang the test run.",
     [DA, LO, SLO, BD, VS, HS, FD, SD, FR, MD, DEC], [("_check_local_shapes/_check_partition_shape/_check_mask", DA), ("shape checks of combinators", LO), ("partition checks in operators", VS)],
     observe=["exception type on every rank", "subsequent operations"])

prop("C26", "Work on a communicator stays on that communicator",
     "Arrays, operators and solvers created with a given communicator use only that communicator and ones derived from it: ranks outside it are never involved, disjoint groups of ranks can work on different problems at the same time without affecting each other, and results equal those of the same computation run on a world of that size. "
     "Derived arrays and operators keep the communicator of the ones they come from.",
     ["configurations", "programs", "schedules"],
     "all sub-communicators (contiguous, interleaved, reordered, duplicates of the world), array/operator/solver programs and group-dependent timings",
     "The tests only use the world communicator.",
     [DA, LO, SLO, DEC, BD, VS, HS, FD, SD, GR, LA, FR, MD], [("base_comm argument", "all classes")],
     observe=["communicator of every MPI call", "results per group"])

prop("C27", "Operators are pure: history never changes what they compute",
     "Applying a distributed operator forward or adjoint any number of times, in any order, interleaved with other vectors, other operators, failed calls or solver runs gives bitwise the same result for the same input each time, and the operator's shape, dtype and parameters never change.",
     ["histories", "inputs", "programs"],
     "all histories of forward/adjoint applications over all operators, partitions, vectors, result modifications and process counts",
     NTEST + "each operator is applied once or twice to one vector.",
     [LO, SLO, BD, VS, HS, FD, SD, GR, LA, FR, MD, DEC], [("stateless matvec/rmatvec", "all operators")],
     observe=["digests of outputs along the history", "operator attributes"])

prop("C28", "No computation silently loses precision or an imaginary part",
     "Mixing dtypes (signed or unsigned integer, single, double, real, complex) in array arithmetic, stacked arithmetic, operator sums, scalings, powers and stacks gives a result whose dtype can represent the NumPy-promoted result and whose values equal it: an imaginary part or fraction is never silently dropped, and the dtype is the same on all ranks. "
     "An in-place operation whose result is not of a kind its target can hold raises instead of truncating, as in NumPy.",
     ["inputs", "programs"],
     "all combinations of operand, scalar and operator dtypes, operations, partitions and process counts",
     NTEST + "operands of one test always share one dtype.",
     [DA, LO, SLO, BD, VS], [("dtype of results", DA + ": add/multiply"), ("operator dtypes", LO)],
     observe=["dtype and values of results", "ComplexWarning events"])

prop("C29", "Plotting shows the data faithfully and changes nothing",
     "Plotting a distributed array draws, on rank 0, the exact global array beside the map of owning ranks along the partition axis, and plotting local arrays draws each rank's own part in rank order under its rank title with the requested colour limits; other ranks draw nothing. "
     "The plotted array is unchanged, every rank returns, and unsupported arguments are rejected on all ranks.",
     ["inputs", "configurations"],
     "all 2-D shapes, axes, layouts, dtypes and process counts",
     "No existing test exercises the plotting helpers.",
     [PL], [("plot_distributed_array", PL), ("plot_local_arrays", PL)],
     observe=["image data of the figures", "digest of the array before/after"])

prop("C30", "Long computations do not exhaust communicators",
     "The number of MPI communicators alive is bounded by the number of distinct groupings in use, not by the number of arrays created or operations performed, so that programs of any length on masked or unmasked arrays never run out of communicators.",
     ["histories"],
     "all lengths of programs of array operations, operator applications and solver iterations on masked and unmasked arrays",
     "A test creates a few dozen arrays; the MPI library's limit (about 65,000 communicators) is never approached.",
     [DA, BD, SO], [("sub-communicator of masked arrays", DA + ": __init__")],
     observe=["communicators created and freed during a long program"])

prop("C31", "Distributed inversion workflows reproduce the serial PyLops results",
     "The documented workflows - block-diagonal modelling and least-squares inversion, vertical-stack (multi-source) modelling and inversion, regularised inversion with stacked operators (data operator plus weighted Laplacian or gradient), and multi-dimensional deconvolution - give on any number of processes the same modelled data and inverted model as the same workflow run serially with PyLops/NumPy, up to rounding.",
     ["programs", "configurations", "inputs"],
     "all problem sizes, damping and regularisation weights, iteration counts and process counts of the documented workflows",
     "The tutorials are not run by the tests; tests check single operators on 3 processes.",
     [BD, VS, LA, GR, MD, SO, LO, SLO], [("full chain of operators, arrays and solvers", "pylops_mpi/*")],
     observe=["modelled data and inverted model after gathering"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
