"""Matrix algebra of the least-squares inverse: products are kept as words over matrices, their transposes
and inverses; inv(A) A cancels (when A is invertible) and products are associative."""
from . import engine as E
from .arrays import Arr, Arr2

class Mat:
    """a product of factors; a factor is ('m', A), ('t', A) or ('i', word)"""
    elementwise = True
    is_sym = True
    def __init__(self, word): self.word = tuple(word)
    @staticmethod
    def of(x):
        if isinstance(x, Mat): return x
        if isinstance(x, Arr2): return Mat([('m', x)])
        raise E.Unsupported('matrix operand')
    @property
    def T(self):
        return Mat([{'m': 't', 't': 'm'}[k] and ({'m': 't', 't': 'm'}[k], a) if k != 'i' else self._ti(a) for k, a in reversed(self.word)])
    @staticmethod
    def _ti(w): return ('i', tuple(Mat(w).T.word))
    def __matmul__(self, o):
        if isinstance(o, MatVec): return MatVec(self.word + o.word, o.vec).norm()
        if isinstance(o, Arr): return MatVec(self.word, o).norm()
        return Mat(self.word + Mat.of(o).word)
    def dot(self, o): return self @ o
    def __getattr__(self, k): E.noattr(k, 'a matrix product')
class MatVec:
    is_sym = True
    def __init__(self, word, vec): self.word, self.vec = tuple(word), vec
    def norm(self):
        """a least-squares solution is handed to the contract in force"""
        w = self.word
        if len(w) == 2 and w[0][0] == 'i' and w[1][0] == 't' and len(w[0][1]) == 2:
            (k1, a1), (k2, a2) = w[0][1]
            if k1 == 't' and k2 == 'm' and a1 is w[1][1] and a2 is a1: return HOOK[0](a1, self.vec)
        return self
    def __getattr__(self, k): E.noattr(k, 'a matrix product')
HOOK = [lambda g, v: (_ for _ in ()).throw(E.Unsupported('least squares'))]
def inv(x): return Mat([('i', Mat.of(x).word)])
def pinv(x, *a, **k):
    if a or k: raise E.Unsupported('pseudo-inverse with a cut-off')
    w = Mat.of(x).word
    if len(w) == 1 and w[0][0] == 'm': return Mat([('i', (('t', w[0][1]), w[0])), ('t', w[0][1])])
    raise E.Unsupported('pseudo-inverse')
def lstsq(a, b, rcond=None): return (HOOK[0](a, b), None, None, None) if isinstance(a, Arr2) and isinstance(b, Arr) else (_ for _ in ()).throw(E.Unsupported('lstsq'))
def solve(a, b):
    if isinstance(b, MatVec): return inv(a) @ b
    raise E.Unsupported('solve')
class Linalg:
    inv, pinv, lstsq, solve = staticmethod(inv), staticmethod(pinv), staticmethod(lstsq), staticmethod(solve)
    def __getattr__(self, k): E.noattr(k, 'numpy.linalg')
Arr2.T = property(lambda self: Mat([('t', self)]))
Arr2.__matmul__ = lambda self, o: Mat.of(self) @ o
Arr2.dot = lambda self, o: Mat.of(self) @ o
