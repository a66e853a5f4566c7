"""pylops.optimization.basesolver.Solver without printing and callbacks (trusted model of a dependency)."""


class Solver:
    def __init__(self, Op, callbacks=None):
        self.Op = Op
        self.callbacks = callbacks
        self.iiter = 0
        self.tstart = 0.0

    def _print_solver(self, *a, **k):
        pass

    _print_setup = _print_step = _print_finalize = _print_solver

    def callback(self, *a, **k):
        pass
