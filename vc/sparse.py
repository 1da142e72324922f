"""scipy.sparse model: a sparse matrix denotes the matrix of its entries; only the operations used by /repo"""
from __future__ import annotations
import types
import z3
from .core import *
from .core import E
from . import arrays as A, seqs, loops
from .arrays import SArr, as_arr
from .loops import TypeModel
from .pyfront import Opaque

class Data:
    """the .data array of a sparse matrix under element-wise reduction"""
    def __init__(self, sp): self.sp = sp
    def __imod__(self, k): 
        E.touch(self.sp); self.sp.arr = self.sp.arr % k; return self

class Sp:
    def __init__(self, arr): self.arr = arr; self._vc_born = born()
    def _vc_save(self): return self.arr
    def _vc_load(self, st): self.arr = st
    @property
    def shape(self): return self.arr.shape
    @property
    def dtype(self): return self.arr.dtype
    @property
    def data(self): return Data(self)
    @data.setter
    def data(self, v):
        if not (isinstance(v, Data) and v.sp is self): raise Unsupported("sparse .data assignment")
    def vc_array(self): return self.arr
    @property
    def T(self): return Sp(self.arr.T.copy())
    def transpose(self, *a): return self.T
    def todense(self): return self.arr.copy()
    def toarray(self): return self.arr.copy()
    def sum(self, axis=None):
        r = A.reduce_sum(self.arr, axis)
        if axis is None and self.arr.ndim == 2:
            # a sum of non-negative entries vanishes exactly when every entry does
            t = lift(r); s = self.arr.snapshot(); m, n = (lift(x) for x in s._shape)
            i, j = z3.Ints("szi szj"); a, b = fresh("szi"), fresh("szj")
            inr = lambda x, y: z3.And(x >= 0, x < m, y >= 0, y < n)
            q = E.skolem("nn"), E.skolem("nn")
            if E.entails(z3.Implies(inr(*q), lift(s.at(*q)) >= 0)):
                E.assume(t >= 0)
                E.assume(z3.Implies(t != 0, z3.And(inr(a, b), lift(s.at(a, b)) > 0)))
                E.assume(z3.Implies(t == 0, z3.ForAll([i, j], z3.Implies(inr(i, j), lift(s.at(i, j)) == 0))))
        return r
    def copy(self): return Sp(self.arr.copy())
    def astype(self, t, **k): return Sp(self.arr.astype(t))
    def tocsr(self): return self
    tocsc = tocoo = tocsr
    def __matmul__(self, o):
        r = A.matmul(self.arr, as_arr(o))
        return Sp(r) if isinstance(o, Sp) else r
    def __rmatmul__(self, o): return A.matmul(as_arr(o), self.arr)
    def dot(self, o): return self @ o
    def __mul__(self, o):
        if isinstance(o, (int, float, V)): return Sp(self.arr * o)
        return self @ o
    def __add__(self, o):
        if not isinstance(o, Sp): raise Unsupported("sparse + dense")
        r = self.arr + o.arr
        if A.ALG is not None: A.ALG.put(r, A.ALG.add(A.ALG.get(self.arr), A.ALG.get(o.arr)))
        return Sp(r)

def csr_matrix(x, shape=None, dtype=None, **k):
    E.trust("scipy.sparse constructors and block operations: the entries are those of the dense operation of the same name")
    if isinstance(x, Sp): return x
    if isinstance(x, tuple): raise Unsupported("sparse from tuple")
    a = as_arr(x)
    if a.ndim == 1: a = A.vstack([a])
    a = a.copy()
    return Sp(a if dtype is None else a.astype(dtype))
def asp(x): return x.arr if isinstance(x, Sp) else as_arr(x)
def items(l):
    if isinstance(l, (list, tuple)): return list(l)
    return seqs.as_plist(l).concrete()
def hstack(l, format=None, dtype=None): return Sp(A.hstack([asp(x) for x in items(l)]))
def vstack(l, format=None, dtype=None): return Sp(A.vstack([asp(x) for x in items(l)]))
def kron(a, b, format=None):
    from .models import np
    return Sp(np.kron(asp(a), asp(b)))
def identity(n, dtype=None, format=None): return eye(n, dtype=dtype)
def eye(m, n=None, k=0, dtype=None, format=None):
    from .models import np
    E.trust("scipy.sparse constructors and block operations: the entries are those of the dense operation of the same name")
    return Sp(np.eye(m, n, k, dtype=dtype))
def block_diag(l, format=None, dtype=None):
    """diagonal blocks; a repeated block gives the closed form"""
    E.trust("scipy.sparse constructors and block operations: the entries are those of the dense operation of the same name")
    pl = seqs.as_plist(l)
    if pl.is_concrete():
        bs = [asp(x) for x in pl.concrete()]
        R_, C_ = 0, 0
        offs = []
        for b in bs: offs.append((R_, C_)); R_, C_ = R_ + b._shape[0], C_ + b._shape[1]
        kd = bs[0].kind
        for b in bs[1:]: kd = A.res_kind(kd, b.kind)
        ss = [b.snapshot() for b in bs]
        def f(i, j):
            r = A.cast(z3.IntVal(0), kd)
            for b, (ro, co) in zip(ss, offs):
                ro, co = lift(ro), lift(co)
                r = z3.If(z3.And(i >= ro, i < ro + lift(b._shape[0]), j >= co, j < co + lift(b._shape[1])), A.cast(b.at(i - ro, j - co), kd), r)
            return r
        return Sp(SArr((R_, C_), f, kd).copy())
    n = pl.vc_len()
    if len(pl.segs) != 1 or pl.segs[0][0] != "s": raise Unsupported("block_diag of a mixed list")
    it = pl.segs[0][2]
    b0 = asp(it(V(E.skolem("bd")))); b1 = asp(it(V(E.skolem("bd"))))
    for x, y in zip(b0._shape, b1._shape):
        if not A.dims_eq(x, y): raise Unsupported("block_diag of blocks of different shapes")
    r, c = b0._shape
    rt, ct = lift(r), lift(c)
    def f(i, j):
        b = asp(it(mk(i / rt)))
        return z3.If(i / rt == j / ct, b.at(i % rt, j % ct), A.cast(z3.IntVal(0), b0.kind))
    return Sp(SArr((n * r, n * c), f, b0.kind).copy())
TM = lambda nm: TypeModel(nm, csr_matrix, lambda x: isinstance(x, Sp))
SPARSE = types.SimpleNamespace(csr_matrix=TM("csr_matrix"), csc_matrix=TM("csc_matrix"), coo_matrix=TM("coo_matrix"), spmatrix=TM("spmatrix"), hstack=hstack, vstack=vstack, kron=kron, identity=identity, eye=eye, block_diag=block_diag)
