"""Per-property section of DESIGN.md (costs are read from evidence/ when present)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
T["C01"] = """Workload: arrays of 1-4 dimensions, every axis, 8 dtypes, fewer elements than ranks, custom (also zero) local sizes, C and Fortran order, views and
non-contiguous inputs, integer shapes, large arrays, gathers after histories of assignments. Oracle: an independent block computation (`lib.block`/`balanced`) gives each rank's part; the
parts compared bitwise, metadata (shape, local shape(s), axis, rank, size, dtype) compared with the data held; gather compared bitwise on every rank and replicated.
Beyond the tests: they use P=3 and divisible or nearly divisible sizes; most layout bugs (offsets, empty parts, uneven blocks) are invisible there."""
T["C02"] = """Workload: histories of 4-16 assignments with slices, integers (negative too), boolean masks, fancy indices, ellipsis, with values that differ on every rank; arithmetic, in-place
operations, operator applications, stacks. Oracle: a NumPy model updated with rank 0's value; content compared after each step on each rank and bitwise across ranks. For unsafe broadcast
the model is per rank and the event log must contain no MPI call during an assignment."""
T["C03"] = """Workload: chains of 3-12 operations over three arrays (all partitions, masks, layouts, dtypes, Python and NumPy scalars either side), flattening in every order, single-operation cases. Oracle: the
same NumPy expression on the reference global arrays; each rank's part and all metadata (shape, partition, axis, local shapes, mask, communicator) after each operation."""
T["C04"] = """Workload: every array, stacked-array, operator (all of the zoo), expression, solver call and accessor. Oracle: the aliasing/mutation sanitizer: digests of all inputs (including buffers reachable
from operators) before and after; no shared memory between result and inputs/other results; every result is overwritten and inputs, earlier results and a repetition of the call re-checked; in-place
forms must modify exactly their target."""
T["C05"] = """Workload: dot and norms (None, 2, 1, 0, inf, -inf, 3, 1.5, 4, 0.5, 2.5; vector and along the axis) over partitions, layouts, empty parts, integers, tiny/huge magnitudes, zeros, negative zeros. Oracle: NumPy
on the global array, error scaled by the sum of absolute products; bitwise replication across ranks."""
T["C06"] = """Workload: random masks (contiguous, interleaved, singletons, one group), reductions after chains of derivations, block-diagonal operators with mask, CG/CGLS with a fixed number of iterations, masked stacks. Oracle: NumPy on the
concatenated parts of the group's members; solver result compared with the group's own sub-problem solved by the textbook recurrence. One case per world of 2 and 4 ranks lets groups meet the stopping rule at
different iterations: known finding K01."""
T["C07"] = """Workload: same width everywhere, front only, back only, a different width on each rank, zero widths, uneven layouts, infeasible widths, synchronous sends, delayed ranks, large halos. Oracle: slices of the global array computed from the layout; the
array unchanged and not aliased; message balance; infeasible requests raise ValueError on every rank (exception oracle) and nothing blocks (deadlock oracle)."""
T["C08"] = """Workload: stacks of 1-5 components with different shapes, partitions, axes and layouts; chains of operations, in-place forms, reductions of all orders, rejected stacks. Oracle: NumPy on the concatenation of flattened components,
component-wise local parts and layouts; bitwise replication of scalars; ValueError everywhere for mismatched stacks."""
T["C09"] = """Workload: block-diagonal, stacks, derivatives, Laplacian, stacked operators and products of them applied to every kind of input layout: matching, shifted by a few cells, moved by more than a neighbour holds, chains of empty ranks, sequences of
different layouts through one operator. Oracle: gathered output equals the dense product whenever the call returns; otherwise ValueError on every rank; whether the shift is achievable is computed independently, so both "wrongly refused" and "wrongly accepted" alarm."""
T["C10"] = """Workload: 1-4 rectangular blocks per rank, mixed operator types, complex, one-row blocks, strongly unbalanced blocks, masks, stacked variants with components of different kinds. Oracle: dense block-diagonal matrix in rank order, output layout derived from rows/columns per rank, shape and dtype."""
T["C11"] = """Workload: vertical/horizontal stacks with mixed operators, complex blocks (adjoint conjugation), unsafe-broadcast inputs also with different content per rank, asymmetric sizes, restriction operators, stacked vertical stacks of distributed operators. Oracle: dense stack; adjoint bitwise identical on all ranks."""
T["C12"] = """Workload: all stencils x order x edge, samplings, 1-4 dimensions, real and complex dtypes, balanced and arbitrary realignable layouts, replicated inputs, ranks with the minimal number of rows, too few rows. Oracle: the dense matrix of the serial PyLops operator along axis 0; for a rank with too few
rows either the exact result or ValueError on all ranks."""
T["C13"] = """As C12 for the second derivative (forward, backward, centered, edge on/off)."""
T["C14"] = """Workload: gradient and Laplacian with 1-4 dimensions, any axes (negative ones too), weights, samplings, edge, stencils, complex arrays, realigned and tight layouts. Oracle: dense serial PyLops operators (stack of derivatives / weighted sum), component layouts and shapes."""
T["C15"] = """Workload: uneven numbers of slices per rank, nz from 1 up, one-row/one-column kernels, saveGt and usematmul options, non-contiguous kernels, unsafe broadcast. Oracle: batched einsum with the global kernel; replicated result bitwise identical on all ranks; agreement of the option variants."""
T["C16"] = """Workload: random kernels, odd and even nt, one- or two-sided, conjugated, prescaled, saveGt, usematmul, several virtual sources, band-limited. Oracle: serial PyLops MDC and, independently, an explicit FFT formula; adjoint identity; replicated outputs."""
T["C17"] = """Workload: random expression trees (depth 1-5) of adjoint, transpose, conjugate, sum, difference, negation, product, left/right real/complex scaling, power over the whole zoo; laws (double adjoint, (AB)^H, ...). Oracle: the same expression on dense matrices, forward and adjoint, with scale-aware tolerances; the
leaves re-applied afterwards must give bitwise the same result."""
T["C18"] = """As C17 for stacked operators (diagonal, vertical, gradient, and products of them with plain operators)."""
T["C19"] = """Workload: adjoint identity for every operator of the zoo and random expressions; and `dottest` on operators with a known small defect: one wrong element on one rank, a perturbation just above/below atol or rtol, wrong forward, wrong dimensions, zero vectors. Oracle: inner products computed from gathered arrays; expected
verdict computed from the documented criterion with a safety margin around the threshold; same verdict on all ranks."""
T["C20"] = """Workload: SPD systems over plain/stacked, real/complex, local, block-diagonal, normal-equation operators, with and without initial guess, tolerance stops, convergence, exact initial guess, class interface. Oracle: textbook CG on the dense system (`refsolve.py`), each iterate from the callback, cost and count; converged solution against
`numpy.linalg.solve`."""
T["C21"] = """As C20 for CGLS: over-/under-determined, damping, initial guesses, textbook CGLS of the damped functional, normal-equation solution after convergence."""
T["C22"] = """Workload: every way of driving CG and CGLS (function, class, manual setup/step/run/finalize, chunks, callback, show, zero iterations, tolerance already met, tolerance 0 and huge, exact solves). Oracle: residuals recomputed from the iterates recorded by the callback; counts and stop reasons from the definition;
bitwise agreement of all driving modes; replication."""
T["C23"] = """Workload: random programs (2-10 steps over everything the library does), each kind of step alone, large messages, all operators, ghost exchanges - all under synchronous sends and seeded delays. Oracle: trace, deadlock and message-balance oracles; results checked as well."""
T["C24"] = """Workload: the same program run under five schedules in one world: undisturbed, random delays, synchronous sends, both, one slow rank. Oracle: bitwise equality of every result (arrays, scalars, iterates, histories) over schedules, and replicated values over ranks. Distinct schedules are witnessed by the event logs."""
T["C25"] = """Workload: a catalogue of >100 invalid requests in all parts of the library, many visible on a single rank only, under synchronous sends too. Oracle: each raises one of the documented exception types on every rank; nobody blocks; operands bitwise unchanged; a following collective operation works; message queue empty."""
T["C26"] = """Workload: world split in halves, interleaved, reversed, rotated, rows/columns, with idle ranks, nested splits, duplicates, COMM_SELF; different programs on disjoint groups at different speeds. Oracle: event log: no call on any communicator but the given one and those derived from it, none by outsiders; results equal the
reference for a world of that size; communicator of derived objects."""
T["C27"] = """Workload: histories of 10-60 actions around one operator (forward, adjoint, same input object, scribbling over results and inputs, failed calls, solver runs, derivation of other operators, other dtypes and layouts, NaN input, twin operators) interleaved. Oracle: digest table: same input -> same output bits at every point; attributes unchanged."""
T["C28"] = """Workload: all pairs of 7 dtypes for arrays, stacks, scalars (Python and NumPy, either side), in-place forms, operator sums/scalings/powers/stacks, ranks with different block dtypes, solvers, reductions. Oracle: values against NumPy in the promoted type, dtype kind/precision, replication of dtype, `ComplexWarning` events; in-place
results that do not fit raise everywhere and leave the target unchanged."""
T["C29"] = """Workload: both plotting functions over shapes, axes, layouts, dtypes, empty parts, masks, sub-communicators, colour limits, titles. Oracle: image data, extents, titles, colour limits extracted from the Matplotlib figures (Agg); array digest; rejected arguments on all ranks."""
T["C30"] = """Workload: programs of thousands of operations on masked and unmasked arrays, solvers, operators, sub-communicators, growing in length. Oracle: communicators created minus freed as counted by the communicator monitor, compared between the first and last part of the program and with the number of groupings in use."""
T["C31"] = """Workload: the tutorials' workflows at small random sizes: post-stack modelling/inversion (plain, normal equations, regularised), multi-source with vertical stacks, horizontal stacks, multi-dimensional deconvolution, gradient/Laplacian regularised inversions, smoothing, denoising, continued inversion. Oracle: serial PyLops
modelling, and the textbook iterates (or the exact minimiser) on the dense system."""


def section():
    out = []
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    cost = json.load(open(ROOT + "/tools/costs.json")) if os.path.exists(ROOT + "/tools/costs.json") else {}
    for p in props:
        i = p["id"]
        c = cost.get(i)
        out.append(f"**{i} {p['title']}.** {T[i]}" + (f" [{c[0]} cases / {c[1]} comparisons / {c[2]} events / {c[3]} s]" if c else "") + "\n")
    return "\n".join(out)


def matrix():
    f = ROOT + "/tools/catch.json"
    if not os.path.exists(f):
        return ""
    m = json.load(open(f))
    rows = ["| planted bug | property | quick check | seconds | first oracle that fired |", "|---|---|---|---|---|"]
    for k in sorted(m):
        v = m[k]
        rows.append(f"| {k} | {v['property']} | {'caught' if v['rc'] == 1 else 'MISSED (rc %s)' % v['rc']} | {v['s']} | {v.get('first', '')} |")
    n = sum(v["rc"] == 1 for v in m.values())
    return f"{n} of {len(m)} are caught by the quick check of their own property (seed 1).\n\n" + "\n".join(rows) + "\n"


if __name__ == "__main__":
    rd = lambda n: open(os.path.join(ROOT, "tools", n)).read()
    open(ROOT + "/DESIGN.md", "w").write(rd("design_head.md") + section() + "\n" + rd("design_tail.md") + "\n" + matrix())
