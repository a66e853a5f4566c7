"""Everything that is assumed rather than proved (copied into the evidence of every run)."""

TRUSTED = [
    "z3 5.3 (linear/nonlinear integer arithmetic with uninterpreted functions, real arithmetic)",
    "pyvc: symbolic executor, polynomial normal form and equality prover (/verif/pyvc/engine.py, terms.py, values.py, data.py)",
    "model of the numpy functions the package calls (/verif/pyvc/sarr.py): shapes, broadcasting, views, dtype promotion, reductions",
    "model of mpi4py (/verif/pyvc/smpi.py): allgather/allreduce/bcast/Split in rank order, messages matched by source, destination, tag, order",
    "model of the helpers taken from pylops and scipy (/verif/pyvc/loader.py): _value_or_sized_to_tuple, _get_dtype, isintlike, Solver base class",
    "Lean 4 kernel and Mathlib for the meta rules (/verif/lemmas/Partition.lean: a prefix sum is determined by its recurrence, a sum or maximum over ranks of "
    "shares is the one over the global range, every global index lies in exactly one share, row-major sums); that the verifier applies them as stated there",
    "contract of serial pylops operators (/verif/pyvc/localop.py: linear, adjoint is the conjugate transpose) and their values for the FFT, the first and second "
    "derivative, MatrixMult and Identity as documented by pylops; numpy.isclose is an uninterpreted predicate",
]
EXTRACTION = [
    "extraction: module text read from the repository on every run and executed; rewritten mechanically: for/while/list displays/comprehensions "
    "go through helpers, third-party imports go to the models; dropped: docstrings, the text of error messages and f-strings (the calls inside f-strings are kept), print, logging",
]
ASSUMPTIONS = [
    "machine floats treated as exact real/complex numbers, machine integers as mathematical integers",
    "number of array dimensions instantiated at 1, 2 and 3; all extents, the number of processes, the rank and all shares are unbounded symbols",
    "engine='numpy' (the cupy engine is outside the sandbox)",
    "no two library calls of one process run concurrently",
]
PER_PROPERTY = {}
