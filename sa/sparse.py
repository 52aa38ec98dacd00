"""Model of the sparse matrices of scipy: dense object arrays with the sparse interface."""
import numpy as np

from .values import Term


class Sparse(np.ndarray):
    ext_names = ("scipy.sparse.csr_matrix", "scipy.sparse._csr.csr_matrix", "scipy.sparse.spmatrix", "builtins.object")

    @property
    def data(self):
        r, c = self.nonzero()
        return np.asarray(self)[r, c]

    @property
    def nnz(self):
        return len(self.nonzero()[0])

    def nonzero(self):
        a = np.asarray(self)
        nz = [(i, j) for i in range(a.shape[0]) for j in range(a.shape[1]) if isinstance(a[i, j], Term) or a[i, j] != 0]
        return np.array([i for i, j in nz], dtype=int), np.array([j for i, j in nz], dtype=int)

    def eliminate_zeros(self):
        return None

    def todense(self):
        return np.array(self)

    def toarray(self):
        return np.array(self)

    def tocsr(self):
        return self

    def tocoo(self):
        return self

    @property
    def row(self):
        return self.nonzero()[0]

    @property
    def col(self):
        return self.nonzero()[1]


def csr(w, a, k, n):
    x = a[0]
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, (int, np.integer)) for y in x):
        return np.zeros(x, dtype=object).view(Sparse)
    return np.array(np.asarray(x), dtype=object).view(Sparse)


def kron(w, a, k, n):
    return np.kron(np.asarray(a[0], dtype=object), np.asarray(a[1], dtype=object)).view(Sparse)


def eye(w, a, k, n):
    return np.array(np.eye(a[0]), dtype=object).view(Sparse)


MODELS = {"scipy.sparse.csr_matrix": csr, "scipy.sparse.csr_array": csr, "scipy.sparse.kron": kron, "scipy.sparse.identity": eye,
          "scipy.sparse.eye": eye}
