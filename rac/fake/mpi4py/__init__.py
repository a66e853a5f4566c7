"""In-process stand-in for mpi4py: every rank is a thread, one runs at a time.

Used only to execute the *unmodified* code under /repo on concrete inputs (replay of failed
obligations, bounded stand-ins, run-time cross-check of the trusted MPI model)."""
__version__ = "0.fake"


class _RC:
    def __getattr__(self, k):
        return None

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        pass


rc = _RC()
from . import MPI  # noqa: E402,F401
