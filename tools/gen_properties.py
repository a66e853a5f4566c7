"""One-off generator of /verif/properties.jsonl (kept so the file can be regenerated)."""
import json, os
DA = "pylops_mpi/DistributedArray.py"
LO = "pylops_mpi/LinearOperator.py"
SLO = "pylops_mpi/StackedLinearOperator.py"
B = "pylops_mpi/basicoperators/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})
ALLP = "every number of processes P >= 1, "

prop("C01", "Per-process shares tile the global array and are balanced",
 "When an array is distributed without explicit per-process shapes, the extents the processes own along the distribution axis are non-negative, add up to the global extent, differ by at most one with the larger shares on the lower ranks, and equal the full global extent on every other axis. A replicated array has the full global shape on every process. When explicit per-process shapes are given, construction succeeds only if they tile the global shape, and the array then uses exactly those shapes.",
 ["inputs", "configurations"], ALLP + "every global shape, every distribution axis, every partition kind, every list of explicit per-process shapes",
 "The tests run with three processes and a handful of shapes; the claim is arithmetic over all P and all extents (including extents smaller than P and zero-sized shares).",
 [DA], [("balanced split", DA + " local_split"), ("validation of explicit shapes", DA + " DistributedArray._check_local_shapes")],
 ["DistributedArray.local_shape / local_shapes / global_shape / ndim / axis"])

prop("C02", "Distribute-then-gather returns the original global array",
 "Distributing a global array and gathering it again returns the same values at the same positions with the same shape on every process, whatever the axis, partition kind, or explicit per-process shapes. In a scattered array, each process holds exactly the contiguous block of the global array that starts after the blocks of the lower ranks.",
 ["inputs", "configurations"], ALLP + "every array content and dtype, every shape, axis, partition kind, mask, and tiling list of per-process shapes (uneven and empty shares included)",
 "Tests gather a few even/uneven layouts on three ranks; offsets computed from prefix sums over all ranks can be wrong only for particular share patterns, axes or process counts.",
 [DA], [("slice by prefix sums of the shares", DA + " DistributedArray.to_dist"), ("gather and concatenate along the axis", DA + " DistributedArray.asarray")],
 ["DistributedArray.to_dist, asarray, local_array"])

prop("C03", "Replicated arrays never diverge between processes",
 "After any assignment to a replicated (consistent-broadcast) array, every process holds the same values, namely those supplied by rank 0, even when the processes supplied different values; results that the library itself returns as replicated arrays are likewise identical on all processes. Assignments to scattered and unsafe-replicated arrays store exactly the values the local process supplied, without exchanging any.",
 ["inputs", "histories"], ALLP + "every index expression assigned to, every history of assignments, every per-process value supplied",
 "Tests assign the same values on all ranks, so a missing or wrong broadcast is invisible to them; divergence needs rank-dependent values.",
 [DA, B + "VStack.py", "pylops_mpi/signalprocessing/Fredholm1.py"], [("broadcast on write", DA + " DistributedArray.__setitem__"), ("all-reduce then write", B + "VStack.py MPIVStack._rmatvec"), ("all-gather then write", "pylops_mpi/signalprocessing/Fredholm1.py")])

prop("C04", "Distributed arithmetic equals arithmetic on the global arrays",
 "Negation, addition, subtraction, their in-place forms, element-wise and scalar multiplication, conjugation, copying, zero-filling and flattening of distributed arrays give on every process exactly the local block of the same operation applied to the global arrays. The result keeps the operands' global shape, per-process shapes, partition kind, axis, mask and element type (flattening keeps everything but the shape and orders elements as the local row-major order within each process).",
 ["inputs", "configurations"], ALLP + "every shape up to three dimensions, axis, partition kind, per-process shapes, mask, real or complex contents of matching element type, every scalar of that type",
 "Tests compare a few random arrays on three ranks; metadata propagation (axis, mask, per-process shapes) in each operation is not asserted for most combinations.",
 [DA], [("element-wise operations on the local block", DA + " __neg__/add/iadd/multiply/__sub__/__isub__/conj/copy/zeros_like/ravel"), ("compatibility checks", DA + " _check_partition_shape/_check_mask")])

prop("C05", "Operations leave their operands alone and results own their data",
 "Apart from the explicitly in-place operations, which change only their left operand, no array operation, reduction, gather of a scattered array, or operator application changes any of its operands. The array made from a global array, or returned by an arithmetic operation, copy, conjugation, flattening or operator application, shares no storage with its operands, so later writes to one are never seen through the other.",
 ["inputs", "histories"], "every array operation, reduction and operator application, every operand value and layout, every later write to operand or result",
 "Aliasing shows only in a particular history (operate, then write, then read the other array); the tests almost never read operands back.",
 [DA, LO, B + "FirstDerivative.py", B + "BlockDiag.py", B + "VStack.py"], [("fresh buffer per result, slice assignment copies", DA), ("copy before ghosting", DA + " add_ghost_cells"), ("copy before power iteration", LO + " _PowerLinearOperator._power")])

prop("C06", "Dot products and norms equal those of the global vector",
 "The dot product and the vector norms (orders 0, 1, 2, other positive integers, plus and minus infinity) of distributed arrays equal the serial value computed on the gathered global arrays, and every process obtains the same value. When a mask divides the processes into groups, each process obtains the value for the sub-vector held by its own group. Replicated and scattered arrays with the same content give the same results, and a norm taken along the distribution axis equals the serial norm along that axis.",
 ["inputs", "configurations"], ALLP + "every content, every layout (shapes, axis, partition kind, per-process shapes), every mask, the listed norm orders; scattered arrays with a non-empty share on every process for the infinite orders",
 "Tests check three ranks and non-empty even shares; grouping, uneven shares and the 'same value on all ranks' claim quantify over all process counts and masks.",
 [DA], [("local product/partial norm then group all-reduce", DA + " dot/norm/_compute_vector_norm/_allreduce_subcomm")])

prop("C07", "Ghost cells are exactly the neighbours' adjacent border values",
 "Adding ghost cells returns, on every process, the last values of the previous process in front and the first values of the next process behind its own unchanged block, in the amounts this process asked for, with nothing added in front of the first or behind the last process. The array itself is not changed. If a neighbour owns fewer values than are asked of it, an error is raised instead of returning wrong values.",
 ["inputs", "configurations", "schedules"], ALLP + "every layout with uneven shares, every axis, every combination of front/back amounts including amounts that differ from process to process",
 "Tests use equal amounts on three ranks; per-rank amounts, missing neighbours and borders are combinations over all P.",
 [DA], [("neighbour exchange", DA + " DistributedArray.add_ghost_cells")])

prop("C08", "Operator results do not depend on how the input is split",
 "Operators that reshape or re-align their scattered input give the same global result for every way the input vector is split across processes, or raise an error when the needed values are not held by an adjacent process; they never return wrong values. The returned vector is one-dimensional and contains, rank after rank, the global result in row-major order.",
 ["inputs", "configurations"], ALLP + "every tiling of the flattened input over the processes, every operator grid shape and every block-operator layout",
 "Tests use the default split (and one or two uneven ones) on three ranks; the shift of every rank boundary in either direction gives a combinatorial family of layouts.",
 ["pylops_mpi/utils/decorators.py", DA], [("re-alignment of the input split with ghost cells", "pylops_mpi/utils/decorators.py reshaped"), ("neighbour exchange", DA + " add_ghost_cells")])

prop("C09", "Distributed first derivative equals the serial stencil and its transpose",
 "Applying the distributed first derivative gives the documented finite-difference stencil of the global array along its first axis (forward, backward, centered with 3 or 5 points, with or without edge handling), scaled by the sampling step, independently of the number of processes. Its adjoint application is exactly the transpose of that linear map.",
 ["inputs", "configurations"], ALLP + "every grid of 1 to 3 dimensions whose per-process share is at least as large as the stencil needs, every content, sampling step, kind, order and edge flag",
 "Tests compare with serial PyLops for a few sizes on three ranks; each stencil has distinct code for the first, interior and last rank and for stencil points crossing process borders.",
 [B + "FirstDerivative.py", "pylops_mpi/utils/decorators.py", DA], [("stencils on ghosted local blocks", B + "FirstDerivative.py"), ("border exchange", DA + " add_ghost_cells")])

prop("C10", "Distributed second derivative equals the serial stencil and its transpose",
 "Applying the distributed second derivative gives the documented finite-difference stencil of the global array along its first axis (forward, backward or centered, with or without edge handling), scaled by the squared sampling step, independently of the number of processes. Its adjoint application is exactly the transpose of that linear map.",
 ["inputs", "configurations"], ALLP + "every grid of 1 to 3 dimensions whose per-process share is at least as large as the stencil needs, every content, sampling step, kind and edge flag",
 "Tests compare with serial PyLops for a few sizes on three ranks; each stencil has distinct code for the first, interior and last rank and for stencil points crossing process borders.",
 [B + "SecondDerivative.py", "pylops_mpi/utils/decorators.py", DA], [("stencils on ghosted local blocks", B + "SecondDerivative.py"), ("border exchange", DA + " add_ghost_cells")])

prop("C11", "Laplacian and gradient combine the right derivative along each axis",
 "The distributed Laplacian applied to a vector equals the weighted sum, over the requested axes, of the serial second derivatives along those axes with that axis's own weight and sampling step, exactly as the serial PyLops Laplacian does; the gradient returns one component per axis, each the first derivative along that axis with that axis's sampling step and the requested kind and edge treatment. The adjoints are the corresponding transposes (sums of transposed components).",
 ["inputs", "configurations"], ALLP + "grids of 2 and 3 dimensions, every choice and order of axes (negative ones included), weights, sampling steps, edge flag and kind",
 "Tests fix a few dims/axes/weights on three ranks; the pairing of axis, weight and sampling is combinatorial.",
 [B + "Laplacian.py", B + "Gradient.py", B + "BlockDiag.py", B + "SecondDerivative.py", B + "FirstDerivative.py"], [("sum of scaled per-axis operators", B + "Laplacian.py MPILaplacian._calc_l2op"), ("stack of per-axis operators", B + "Gradient.py MPIGradient._calc_stack_op")])

prop("C12", "Block-diagonal, vertical and horizontal stacks equal the block matrices",
 "For any list of linear operators supplied per process, the distributed block-diagonal, vertical and horizontal stacks act in forward and adjoint mode exactly as the corresponding block matrix whose blocks are the operators ordered by rank and then by position in the list. Their shapes are the block matrix's shape, and the outputs are distributed by block rows (or replicated, where the documentation says so).",
 ["inputs", "programs", "configurations"], ALLP + "any number of operators per process (differing between processes), any operator shapes compatible with the stack, any linear operators, any input vector",
 "Tests use one or two square-ish operators on each of three ranks; offsets depend on all operator sizes of the process and reductions on all processes.",
 [B + "BlockDiag.py", B + "VStack.py", B + "HStack.py"], [("block offsets by prefix sums", B + "BlockDiag.py / VStack.py"), ("all-reduce in adjoint", B + "VStack.py MPIVStack._rmatvec"), ("adjoint of stacked adjoints", B + "HStack.py")])

prop("C13", "Operator algebra obeys the matrix laws",
 "For any distributed linear operators, the adjoint, transpose, conjugate, sum, difference, negation, scalar multiple, product and non-negative integer power built from them act, forward and adjoint, exactly as the same expression on their matrices, e.g. the adjoint of a product is the reversed product of adjoints and the adjoint of a complex multiple uses the conjugate scalar. Shapes follow the same laws, and combining operators of incompatible shapes or a non-square power is rejected.",
 ["inputs", "programs"], "every expression over operators of any shapes, real or complex, every (complex) scalar whose type the operator's element type can hold, every exponent, every vector",
 "Tests evaluate a few fixed expressions on fixed matrices; laws must hold for every nesting of the constructors and every scalar.",
 [LO], [("lazy operator nodes", LO + " _Adjoint/_Transposed/_Product/_Scaled/_Sum/_Power/_ConjLinearOperator")])

prop("C14", "Stacked arrays and stacked operators act component by component",
 "Arithmetic, dot products and norms of stacked arrays equal those of the concatenated components; stacked vertical and block-diagonal operators act as the block matrices of their components in forward and adjoint mode, and adjoint, transpose, conjugate, sum, scalar multiple and product of stacked operators follow the matrix laws. Gathering a stacked array gives the concatenation of its gathered components.",
 ["inputs", "programs"], "any number of components with any global shapes, any component operators, any scalars and norm orders",
 "Tests use two or three components of fixed shapes; the laws quantify over the number of components, operators and expressions.",
 [DA, SLO, B + "BlockDiag.py", B + "VStack.py"], [("loops over components", DA + " StackedDistributedArray"), ("lazy stacked operator nodes", SLO), ("component loops", B + "VStack.py MPIStackedVStack, BlockDiag.py MPIStackedBlockDiag")])

prop("C15", "Fredholm integral operator is the batched product on every path",
 "The distributed Fredholm operator multiplies each slice of the model by the corresponding slice of the kernel (forward) or its conjugate transpose (adjoint), with the slices of the kernel taken in rank order, and returns the full result on every process. The result does not depend on whether the kernel's transpose is saved or recomputed, nor on whether batched products or a loop are used, nor on how slices are spread over the processes.",
 ["inputs", "configurations"], ALLP + "every number of slices per process of at least two, every kernel of more than one row and column, any number of right-hand sides, real or complex contents",
 "Tests check three ranks with a few sizes; the two-by-two-by-(single or multiple right-hand sides) code paths must agree for all shapes and complex kernels.",
 ["pylops_mpi/signalprocessing/Fredholm1.py"], [("slice ranges by prefix sums", "pylops_mpi/signalprocessing/Fredholm1.py MPIFredholm1.__init__"), ("batched product and gather", "pylops_mpi/signalprocessing/Fredholm1.py _matvec/_rmatvec")])

prop("C16", "Multi-dimensional convolution is the documented operator chain",
 "Multi-dimensional convolution acts as inverse transform, kernel product and transform chained in that order on the kept frequencies, with the kernel scaled by the receiver sampling, time sampling and square root of the number of samples unless it is declared prescaled, and with the conjugated kernel when requested. Its adjoint is the adjoint chain, its element type is real and its output has no imaginary part, an even number of samples is rejected for two-sided data, and more frequencies than exist are clipped.",
 ["inputs", "configurations"], ALLP + "every kernel, number of samples, receivers, sources, right-hand sides and frequencies, samplings, and flags (two-sided, conjugate, prescaled, saved transpose, batched product)",
 "Tests exercise two or three flag combinations on fixed sizes, and compare with the serial code only there.",
 ["pylops_mpi/waveeqprocessing/MDC.py", "pylops_mpi/signalprocessing/Fredholm1.py"], [("operator chain construction", "pylops_mpi/waveeqprocessing/MDC.py _MDC/MPIMDC")])

prop("C17", "Conjugate gradient follows the textbook recurrences",
 "At every iteration the conjugate gradient solver holds the residual of its current iterate (data minus operator times iterate, in exact arithmetic), its step lengths, direction updates and iterates are those of the textbook method started from the given guess, and the recorded cost is the residual norm with one entry for the guess and one per iteration. It stops exactly when the iteration limit is reached or the squared residual norm does not exceed the tolerance, calls the user callback once per iteration with the current iterate, and changes neither the data nor the guess.",
 ["inputs", "histories"], "every linear operator, data, guess, iteration limit and tolerance, every iteration of the run, stacked and plain arrays",
 "Tests check convergence on well-conditioned fixed systems; an invariant at every iteration for every system is out of their reach.",
 ["pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py"], [("setup/step/run/finalize/solve", "pylops_mpi/optimization/cls_basic.py CG"), ("functional front end", "pylops_mpi/optimization/basic.py cg")])

prop("C18", "Least-squares conjugate gradient follows the damped recurrences",
 "At every iteration the least-squares solver holds the data residual of its current iterate, and its gradients, step lengths, directions and iterates are those of the textbook method for the documented damped functional (data misfit squared plus squared damping times model norm squared) started from the given guess. The cost history records the residual norm for the guess and each iteration, the returned residual norms are those of the final iterate with and without the damping term, and it stops exactly when the iteration limit is reached or the squared gradient norm does not exceed the tolerance.",
 ["inputs", "histories"], "every linear operator, data, guess, damping, iteration limit and tolerance, every iteration of the run, stacked and plain arrays",
 "Tests only use zero damping and check convergence on fixed systems; the recurrences with damping are never observed.",
 ["pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py"], [("setup/step/run/finalize/solve", "pylops_mpi/optimization/cls_basic.py CGLS"), ("functional front end", "pylops_mpi/optimization/basic.py cgls")])

prop("C19", "All processes take part in the same communication, without deadlock",
 "When all processes call the same library operation with consistent arguments and no process raises an error, they perform the same sequence of collective operations on the same communicator, and every point-to-point message sent is received by its addressee and vice versa in an order that cannot deadlock, even if sends block until received.",
 ["schedules", "configurations"], ALLP + "every interleaving, every rank position (first, interior, last, only), every share size and array layout, every array operation and operator",
 "Tests see one schedule with buffered sends on three ranks; a mismatch on a rank position or a rendezvous-only deadlock does not show.",
 [DA, "pylops_mpi/utils/decorators.py", B + "BlockDiag.py", B + "VStack.py", B + "FirstDerivative.py", B + "SecondDerivative.py", "pylops_mpi/signalprocessing/Fredholm1.py"], [("collectives issued unconditionally on rank", DA), ("chained neighbour exchange", DA + " add_ghost_cells")])

prop("C20", "The adjoint test accepts exactly the operators that satisfy it",
 "The adjoint (dot) test accepts if and only if the inner product of the operator's output with the data vector agrees, within the given relative and absolute tolerances, with the inner product of the model vector with the adjoint's output, using complex conjugation on the left factor. On failure it raises an error, or returns a false verdict if so requested; it reports the same verdict on every process and rejects inconsistent dimensions.",
 ["inputs", "programs"], ALLP + "every operator (correct or not), every pair of vectors, real or complex, every tolerance and flag setting",
 "Tests only run it on correct operators, so an always-true verdict would pass them.",
 ["pylops_mpi/utils/dottest.py"], [("comparison of two gathered inner products", "pylops_mpi/utils/dottest.py dottest")])

prop("C21", "Incompatible shapes, layouts and masks are always rejected",
 "Combining two distributed arrays whose partition kinds, per-process shapes or masks differ, applying an operator to a vector whose length is not the operator's, and stacking or combining stacked arrays or operators of inconsistent sizes raise an error before any data of the operands is changed, while compatible operands are accepted. Constructing an array with an axis out of range or with per-process shapes that do not tile the global shape raises an error as well.",
 ["inputs", "configurations"], "every pair of layouts and masks, every operator shape and vector length (forward and adjoint), every number and shape of components",
 "Tests assert a few raising cases; acceptance of one incompatible combination out of all would go unnoticed.",
 [DA, LO, SLO, B + "VStack.py", B + "HStack.py"], [("layout checks", DA + " _check_partition_shape/_check_mask/_check_local_shapes"), ("dimension checks", LO + " matvec/rmatvec"), ("component checks", DA + " StackedDistributedArray._check_stacked_size")])

prop("C22", "Arrays on a sub-communicator stay on it",
 "Every operation on arrays that live on a communicator other than the world communicator (arithmetic, copies, flattening, dot products, norms, gathers, ghost cells, stacks of such arrays) communicates only among that communicator's processes, returns arrays on the same communicator, and gives the values the same operation gives for the global array of that communicator.",
 ["configurations", "inputs"], "every communicator (any subset of processes in any rank order), every layout, every array operation",
 "Tests only use the world communicator, where a forgotten communicator argument is invisible.",
 [DA], [("communicator passed to every derived array", DA)])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
