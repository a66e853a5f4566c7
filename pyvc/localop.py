"""Operators of one process (pylops.LinearOperator) known only by their matrix: the contract PyLops documents and the
distributed operators rely on."""
import z3
from . import data as D, sarr, loader, values as V
from .terms import I, norm
from .values import mk
from .engine import Unsupported


class LocalOp(loader.LinOp):
    def __init__(self, rows, cols, ent, dt, matrix=None, what="operator"):
        self.rows, self.cols, self.ent, self.what = I(norm(I(rows))), I(norm(I(cols))), ent, what
        self.shape = (mk(self.rows), mk(self.cols))
        self.dtype = sarr.DT(dt)

    def _apply(self, x, n, m, f):
        if not isinstance(x, sarr.SymArr):
            raise Unsupported("operator applied to something that is not an array")
        if x.ndim != 1 or not sarr.dim_eq(x.tshape[0], n):
            loader.raise_model(ValueError)
        g = x.snapshot().fn()
        dt = sarr.promote(self.dtype, x.dtype)
        return sarr.new_array([m], lambda idx: D.bind("sum", [n], lambda v: f(idx[0], v[0]) * g((v[0],))), dt)

    def matvec(self, x):
        return self._apply(x, self.cols, self.rows, self.ent)

    def rmatvec(self, x):
        return self._apply(x, self.rows, self.cols, lambda i, j: self.ent(j, i).conj())

    def dot(self, x):
        return self.matvec(x)

    __matmul__ = __mul__ = dot
    _matvec, _rmatvec = matvec, rmatvec

    def adjoint(self):
        return LocalOp(self.cols, self.rows, lambda i, j: self.ent(j, i).conj(), self.dtype, what=self.what + ".H")

    H = property(adjoint)

    def transpose(self):
        return LocalOp(self.cols, self.rows, lambda i, j: self.ent(j, i), self.dtype, what=self.what + ".T")

    T = property(transpose)

    def conj(self):
        return LocalOp(self.rows, self.cols, lambda i, j: self.ent(i, j).conj(), self.dtype, what=self.what + ".conj()")
