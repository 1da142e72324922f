"""Models (assumed contracts) of the external libraries used by /repo: numpy, ldpc.mod2, small stdlib pieces."""
from __future__ import annotations
import types
import z3
from .core import *
from .core import E
from . import arrays as A, seqs, loops
from .arrays import SArr, as_arr
from .seqs import PList, PSet, PDict, Seq, as_plist
from .loops import TypeModel, PObj, RT, BUILTINS
from .pyfront import Opaque

def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(s)
    if isinstance(s, PList): return tuple(s.concrete())
    return (s,)

class NP:
    """numpy"""
    pi = 3.141592653589793
    inf = float("inf")
    newaxis = None
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Opaque(f"numpy.{a}")
    ndarray = TypeModel("ndarray", None, lambda x: isinstance(x, SArr))
    int8 = TypeModel("int8", lambda x=0: BUILTINS["int"](x), lambda x: False)
    int16 = TypeModel("int16", lambda x=0: BUILTINS["int"](x), lambda x: False)
    int32 = TypeModel("int32", lambda x=0: BUILTINS["int"](x), lambda x: False)
    int64 = TypeModel("int64", lambda x=0: BUILTINS["int"](x), lambda x: False)
    uint8 = TypeModel("uint8", lambda x=0: BUILTINS["int"](x), lambda x: False)
    int_ = TypeModel("int_", lambda x=0: BUILTINS["int"](x), lambda x: False)
    float64 = TypeModel("float64", lambda x=0: BUILTINS["float"](x), lambda x: False)
    float32 = TypeModel("float32", lambda x=0: BUILTINS["float"](x), lambda x: False)
    bool_ = TypeModel("bool_", lambda x=0: BUILTINS["bool"](x), lambda x: isinstance(x, V) and x.np and x.t.sort() == B)
    integer = TypeModel("integer", None, lambda x: False)
    floating = TypeModel("floating", None, lambda x: False)
    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        kd = A.kind_of_dtype(dtype) if dtype is not None else None
        if isinstance(x, SArr): return x.astype(dtype) if dtype is not None and kd != x.kind else x.copy()
        if isinstance(x, PList) and x.segs and kd is None:
            el = x.probe()
            if isinstance(el, PObj): raise Unsupported("object array")
        r = as_arr(x, kd)
        return r if kd is None or r.kind == kd else r.astype(dtype)
    @staticmethod
    def asarray(x, dtype=None):
        if isinstance(x, SArr) and (dtype is None or A.kind_of_dtype(dtype) == x.kind): return x
        return NP.array(x, dtype)
    ascontiguousarray = asarray
    @staticmethod
    def zeros(shape, dtype=None, **k):
        kd = A.kind_of_dtype(dtype); shape = _shape(shape)
        z = A.cast(z3.IntVal(0), kd)
        return A.alg_put(SArr(shape, lambda *i: z, kd), lambda: A.ALG.zero(*[A.dim(x) for x in shape]))
    @staticmethod
    def empty(shape, dtype=None): 
        return SArr(_shape(shape), (lambda f: (lambda *i: f(*i)))(fresh_fn("sk_empty", *([I] * len(_shape(shape))), A.DT[A.kind_of_dtype(dtype)])), A.kind_of_dtype(dtype)) if _shape(shape) else None
    @staticmethod
    def ones(shape, dtype=None):
        kd = A.kind_of_dtype(dtype); z = A.cast(z3.IntVal(1), kd)
        return SArr(_shape(shape), lambda *i: z, kd)
    @staticmethod
    def full(shape, fill_value, dtype=None):
        v = fill_value
        t = lift(v); kd = A.kind_of_dtype(dtype) if dtype is not None else A.kind_of_term(t)
        t = A.cast(t, kd)
        return SArr(_shape(shape), lambda *i: t, kd)
    @staticmethod
    def zeros_like(x, dtype=None):
        x = as_arr(x); return NP.zeros(x._shape, dtype if dtype is not None else A.DType(x.kind))
    @staticmethod
    def ones_like(x, dtype=None):
        x = as_arr(x); return NP.ones(x._shape, dtype if dtype is not None else A.DType(x.kind))
    @staticmethod
    def eye(n, m=None, k=0, dtype=None):
        kd = A.kind_of_dtype(dtype); m = n if m is None else m
        kt = lift(k)
        r = SArr((n, m), lambda i, j: A.from_bool(simp(j == i + kt), kd), kd)
        if A.ALG is not None and const_int(k) == 0 and A.ALG.same(A.dim(n), A.dim(m)): A.ALG.put(r, A.ALG.ident(A.dim(n)))
        return r
    @staticmethod
    def identity(n, dtype=None): return NP.eye(n, dtype=dtype)
    @staticmethod
    def arange(*a, **k):
        r = BUILTINS["range"](*a)
        if isinstance(r, range): return as_arr(list(r))
        return SArr((r.n,), lambda i: lift(r.item(V(i))), "i")
    vstack = staticmethod(A.vstack)
    hstack = staticmethod(A.hstack)
    @staticmethod
    def concatenate(parts, axis=0): return A.concat(A.list_items(parts), axis)
    @staticmethod
    def append(a, b, axis=None):
        if axis is None: return A.concat([as_arr(a).flatten(), as_arr(b).flatten() if as_arr(b).ndim else as_arr(PList.of([b]))], 0)
        return A.concat([a, b], axis)
    @staticmethod
    def stack(parts, axis=0):
        if axis != 0: raise Unsupported("stack axis")
        return as_arr(parts if isinstance(parts, PList) else PList.of(A.list_items(parts)))
    @staticmethod
    def array_equal(a, b): return A.array_equal(a, b)
    @staticmethod
    def any(a, axis=None): return A.reduce_any(a, axis)
    @staticmethod
    def all(a, axis=None): return A.reduce_all(a, axis)
    @staticmethod
    def sum(a, axis=None, **k): return A.reduce_sum(a, axis)
    @staticmethod
    def count_nonzero(a, axis=None):
        a = as_arr(a)
        return A.reduce_sum(a._map(lambda t: A.cast(to_bool(t), "i"), "i"), axis)
    @staticmethod
    def where(c, a=None, b=None):
        c = as_arr(c)
        if a is None:
            if c.ndim == 1:
                return (NP.flatnonzero(c),)
            raise Unsupported("np.where nd")
        a = as_arr(a); b = as_arr(b)
        shp = A.broadcast_shapes(c._shape, A.broadcast_shapes(a._shape, b._shape))
        cc, aa, bb = (A.broadcast_to(x.snapshot(), shp) for x in (c, a, b))
        kd = A.res_kind(a.kind, b.kind)
        return SArr(shp, lambda *i: z3.If(to_bool(cc.at(*i)), A.cast(aa.at(*i), kd), A.cast(bb.at(*i), kd)), kd).copy()
    @staticmethod
    def flatnonzero(c):
        c = as_arr(c).snapshot()
        l = PList([("f", c._shape[0], lambda i: mk(to_bool(c.at(lift(i)))), lambda i: i)])
        return NZ(l)
    @staticmethod
    def nonzero(c): return (NP.flatnonzero(c),) if as_arr(c).ndim == 1 else Opaque("np.nonzero nd")()
    @staticmethod
    def fill_diagonal(a, v):
        v = A.cast(lift(v), a.kind)
        if a.ndim != 2: raise Unsupported("fill_diagonal nd")
        a.update(lambda idx, old: z3.If(idx[0] == idx[1], v, old))
    @staticmethod
    def mod(a, b): return as_arr(a) % b if not isinstance(a, V) else a % b
    remainder = mod
    @staticmethod
    def add(a, b): return a + b
    @staticmethod
    def subtract(a, b): return a - b
    @staticmethod
    def multiply(a, b): return a * b
    @staticmethod
    def matmul(a, b): return A.matmul(as_arr(a), as_arr(b))
    @staticmethod
    def dot(a, b): return A.matmul(as_arr(a), as_arr(b))
    @staticmethod
    def transpose(a): return as_arr(a).T
    @staticmethod
    def bitwise_xor(a, b): return a ^ b
    @staticmethod
    def logical_xor(a, b):
        return A.bitop(as_arr(a), as_arr(b), xor)._map(to_bool, "b")
    @staticmethod
    def logical_not(a): return as_arr(a)._map(lambda t: z3.Not(to_bool(t)), "b")
    @staticmethod
    def logical_and(a, b): return A.binop(as_arr(a), as_arr(b), lambda x, y: z3.And(to_bool(x), to_bool(y)), "b")
    @staticmethod
    def logical_or(a, b): return A.binop(as_arr(a), as_arr(b), lambda x, y: z3.Or(to_bool(x), to_bool(y)), "b")
    @staticmethod
    def abs(a): return as_arr(a)._map(lambda t: z3.If(t >= 0, t, -t), as_arr(a).kind) if not isinstance(a, (V, int, float)) else abs(a)
    absolute = abs
    @staticmethod
    def copy(a): return as_arr(a).copy()
    @staticmethod
    def reshape(a, s): return as_arr(a).reshape(s)
    @staticmethod
    def ravel(a): return as_arr(a).ravel()
    @staticmethod
    def kron(a, b):
        a, b = as_arr(a).snapshot(), as_arr(b).snapshot()
        r1, c1 = a._shape; r2, c2 = b._shape
        R2, C2 = lift(r2), lift(c2)
        kd = A.res_kind(a.kind, b.kind)
        def f(i, j):
            x, y = unify(a.at(i / R2, j / C2), b.at(i % R2, j % C2))
            return x * y
        r = SArr((r1 * r2, c1 * c2), f, kd)
        return A.alg_put(r, lambda: A.ALG.kron(A.ALG.get(a), A.ALG.get(b)))
    @staticmethod
    def isinf(x):
        if isinstance(x, (V, int, float)): return mk(z3.Or(to_real(lift(x)) == INF, to_real(lift(x)) == -INF), True)
        return as_arr(x)._map(lambda t: z3.Or(to_real(t) == INF, to_real(t) == -INF), "b")
    @staticmethod
    def ceil(x):
        t = lift(x)
        return x if t.sort() == I else mk(z3.ToReal(-z3.ToInt(-t)))
    @staticmethod
    def floor(x):
        t = lift(x)
        return x if t.sort() == I else mk(z3.ToReal(z3.ToInt(t)))
    @staticmethod
    def sqrt(x):
        t = to_real(lift(x)); r = SQRT(t)
        E.assume(z3.Implies(t > 0, z3.And(r > 0, r * r == t))); E.assume(z3.Implies(t == 0, r == 0))
        return mk(r)
    @staticmethod
    def log(x): 
        if isinstance(x, SArr): return x._map(lambda t: LOG(to_real(t)), "f")
        return mk(LOG(to_real(lift(x))))
    @staticmethod
    def exp(x):
        if isinstance(x, SArr): return x._map(lambda t: EXP(to_real(t)), "f")
        return mk(EXP(to_real(lift(x))))
    @staticmethod
    def block(rows):
        rows = A.list_items(rows)
        if rows and isinstance(rows[0], SArr): return A.hstack(rows)
        return A.vstack([A.hstack(A.list_items(r)) for r in rows])
    @staticmethod
    def full_like(x, v, dtype=None):
        x = as_arr(x); return NP.full(x._shape, v, dtype if dtype is not None else A.DType(x.kind))
    @staticmethod
    def clip(x, a_min=None, a_max=None, **k):
        lo, hi = to_real(lift(a_min)), to_real(lift(a_max))
        f = lambda t: z3.If(to_real(t) < lo, lo, z3.If(to_real(t) > hi, hi, to_real(t)))
        if isinstance(x, SArr): return x._map(f, "f")
        return mk(f(lift(x)))
    @staticmethod
    def ndenumerate(x):
        x = as_arr(x).snapshot()
        if x.ndim != 1: raise Unsupported("ndenumerate nd")
        return PList([("s", x._shape[0], lambda i: ((i,), mk(x.at(lift(i)))))])
    @staticmethod
    def cumsum(x, axis=None):
        x = as_arr(x).snapshot()
        if x.ndim == 2:
            ax = const_int(axis)
            kd = "i" if x.kind == "b" else x.kind
            if ax in (1, -1): return SArr(x._shape, lambda i, j: ssum(0, j + 1, lambda k: to_arith(x.at(i, k))), kd)
            if ax in (0, -2): return SArr(x._shape, lambda i, j: ssum(0, i + 1, lambda k: to_arith(x.at(k, j))), kd)
            raise Unsupported("cumsum of flattened matrix")
        return SArr(x._shape, lambda i: ssum(0, i + 1, lambda k: to_arith(x.at(k))), "i" if x.kind == "b" else x.kind)
    _normal_log = []
    class _Rng:
        def random(self, size=None):
            if size is not None:
                shp = _shape(size)
                g = z3.Function(fresh("sk_rand").decl().name(), *[I] * len(shp), R)
                def at(*i):
                    x = g(*[lift(k) for k in i]); E.assume(z3.And(x >= 0, x < 1)); return x
                return SArr(shp, at, "f")
            x = E.skolem("rand", R); E.assume(z3.And(x >= 0, x < 1))
            return V(x)
        def normal(self, loc=0.0, scale=1.0, size=None):
            E.trust("numpy Generator.normal: any real value of the requested shape; equal to loc when scale is zero")
            loc = as_arr(loc)
            shp = loc._shape if size is None else _shape(size)
            f = skarr("normal", shp, "f", binary=False)
            l = A.broadcast_to(loc.snapshot(), shp)
            sc = to_real(lift(scale))
            NP._normal_log.append((l, sc, f))
            return SArr(shp, lambda *i: z3.If(sc == 0, to_real(l.at(*i)), f.at(*i)), "f")
    class random:
        @staticmethod
        def default_rng(seed=None):
            E.trust("numpy.random: every sequence of values in [0,1) is possible")
            return NP._Rng()
        @staticmethod
        def seed(x): return None
SQRT = z3.Function("SQRT", R, R); LOG = z3.Function("LOG", R, R); EXP = z3.Function("EXP", R, R)

class NZ(PList):
    """np.nonzero result: filtered index list"""
    def __init__(self, l): super().__init__(l.segs)
    @property
    def size(self): return self.vc_len()

np = NP()

# ------------------------------------------------------------------ GF(2) linear algebra (ldpc.mod2)
class GF2:
    """Assumed contract of ldpc.mod2 in terms of row spaces.
    Matrices are interned up to provable pointwise equality; INRS(H, v) says v is in the row space of H over GF(2)."""
    def __init__(self): self.reset()
    def reset(self):
        self.mats = []     # (id, SArr 2d)
        self.vecs = []     # (id, SArr 1d)
        self.inrs = {}     # (mid, vid) -> Bool
        self.rk = {}       # mid -> Int
        self.pairs = []
    def same(self, a, b):
        if a.ndim != b.ndim: return False
        for x, y in zip(a._shape, b._shape):
            if not E.entails(lift(x) == lift(y)): return False
        ii = [fresh("e") for _ in a._shape]
        rng = [z3.And(v >= 0, v < lift(d)) for v, d in zip(ii, a._shape)]
        return E.prove(z3.Implies(z3.And(*rng), bit(a.at(*ii)) == bit(b.at(*ii))), 3000)[0] == "proved"
    def mat(self, m):
        m = m.snapshot()
        for i, x in enumerate(self.mats):
            if self.same(x, m): return i
        self.mats.append(m); return len(self.mats) - 1
    def vec(self, v):
        v = v.snapshot()
        for i, x in enumerate(self.vecs):
            if self.same(x, v): return i
        self.vecs.append(v); return len(self.vecs) - 1
    def in_rs(self, H, v):
        """z3 Bool: v in rowspace(H)"""
        if v.ndim == 2: v = SArr((v._shape[1],), lambda j, s=v.snapshot(): s.at(z3.IntVal(0), j), v.kind)
        hp = H.parts
        if hp is not None:
            base, extra = split(H)
            if extra: return self.in_ext(base, extra, v)
        if const_int(H._shape[0]) == 0: return self.zero(v)
        h, w = self.mat(H), self.vec(v)
        key = (h, w)
        if key not in self.inrs:
            b = z3.Bool(f"INRS_{h}_{w}")
            # closure under addition with the vectors already known for this matrix
            old = [(w2, self.inrs[(h2, w2)]) for (h2, w2) in list(self.inrs) if h2 == h]
            self.inrs[key] = b
            rows = lift(H._shape[0])
            if not E.entails(rows >= 1): E.base.append(z3.Implies(rows <= 0, b == self.zero(v)))
            if E.prove(self.zero(v), 1000)[0] == "proved": E.base.append(b)
            for x in range(len(old)):
                for y in range(x + 1, len(old)):
                    a, c = self.vecs[old[x][0]], self.vecs[old[y][0]]
                    if self.same(vadd(a, c), self.vecs[w]):
                        E.base.append(z3.Implies(z3.And(old[x][1], old[y][1]), b))
                        E.base.append(z3.Implies(z3.And(old[x][1], b), old[y][1]))
                        E.base.append(z3.Implies(z3.And(b, old[y][1]), old[x][1]))
        return self.inrs[key]
    def zero(self, v):
        k = fresh("k")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lift(v._shape[0])), z3.Not(bit(v.at(k)))))
    def in_ext(self, base, extra, v):
        """v in span(base rows, extra vectors)"""
        if not extra: return self.in_rs(base, v)
        e, rest = extra[-1], extra[:-1]
        a = self.in_ext(base, rest, v)
        b = self.in_ext(base, rest, vadd(e, v))
        return z3.Or(a, b)
    def rank(self, M):
        E.trust("ldpc.mod2.rank: rank([H;v]) = rank(H) + [v not in rowspace(H)]; 0 <= rank <= rows, cols; fails on a matrix without rows")
        M = as_arr(M)
        if M.ndim == 2 and not E.entails(lift(M._shape[0]) >= 1): E.oblige_rt("mod2.rank is called with at least one row", lift(M._shape[0]) >= 1)
        return self.rank_(M)
    def rank_(self, M):
        if M.ndim == 1: M = SArr((1, M._shape[0]), lambda i, j, s=M.snapshot(): s.at(j), M.kind)
        base, extra = split(M)
        if extra:
            r = self.rank_(base)
            acc = []
            for e in extra:
                r = r + mk(z3.If(self.in_ext(base, acc, e), z3.IntVal(0), z3.IntVal(1)))
                acc.append(e)
            return r
        if const_int(M._shape[0]) == 0: return 0
        h = self.mat(M)
        if h not in self.rk:
            t = z3.Int(f"RANK_{h}")
            self.rk[h] = t
            E.base += [t >= 0, t <= lift(M._shape[0]), t <= lift(M._shape[1])]
        return V(self.rk[h])

def split(M):
    """peel single-row tail blocks of a vstack: (base, [row vectors])"""
    if M.parts is None or M.parts[0] != "vstack": return M, []
    ps = list(M.parts[1])
    # flatten nested stacks
    flat = []
    for p in ps:
        if p.parts is not None and p.parts[0] == "vstack": flat += list(p.parts[1])
        else: flat.append(p)
    ex = []
    while len(flat) > 1 and const_int(flat[-1]._shape[0]) == 1:
        p = flat.pop()
        ex.insert(0, SArr((p._shape[1],), lambda j, p=p: p.at(z3.IntVal(0), j), p.kind))
    if len(flat) == 1:
        return flat[0], ex
    base = A.vstack(flat)
    return base, ex

def vadd(a, b):
    return SArr(a._shape, lambda i: A.from_bool(xor(bit(a.at(i)), bit(b.at(i))), "i"), "i")

from .arrays import bit
gf2 = GF2()

class Mod2:
    def __init__(self): self.log = []
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Opaque(f"ldpc.mod2.{a}")
    def rank(self, M): return gf2.rank(M)
    def nullspace(self, M):
        E.trust("ldpc.mod2.nullspace(M): rows form a basis of {v : M v = 0}")
        M = as_arr(M).snapshot()
        n = M._shape[1]
        r = gf2.rank_(M)
        k = V(E.skolem("nulldim"))
        E.assume(k.t == lift(n) - lift(r))
        K = skarr("ker", (k, n))
        i, j = fresh("i"), fresh("j")
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < lift(M._shape[0]), j >= 0, j < k.t), z3.Not(par(0, n, lambda q: z3.And(bit(M.at(i, q)), bit(K.at(j, q))))))))
        K.role = ("kernel", M)
        self.log.append(("nullspace", M, K))
        return K
    def row_basis(self, M):
        E.trust("ldpc.mod2.row_basis(M): rows form a basis of the row space of M")
        M = as_arr(M).snapshot()
        r = gf2.rank_(M)
        Bm = skarr("rowbasis", (r, M._shape[1]))
        Bm.role = ("rowbasis", M)
        self.log.append(("row_basis", M, Bm))
        return Bm
    def row_echelon(self, M, full=False):
        E.trust("ldpc.mod2.row_echelon(A)[3]: exactly the columns of A that are not a combination of earlier columns")
        M = as_arr(M).snapshot()
        f = fresh_fn("PIVOT", I, B)
        piv = PSet([], lambda j: f(lift(j)))
        self.log.append(("row_echelon", M, f))
        return (Opaque("row_echelon[0]"), gf2.rank_raw(M) if hasattr(gf2, "rank_raw") else Opaque("row_echelon[1]"), Opaque("row_echelon[2]"), piv)

def skarr(name, shape, kind="i", binary=True):
    """fresh array depending on the enclosing generic iterations"""
    ctx = list(E.loop_ctx)
    nd = len(shape)
    if binary:
        f = fresh_fn("sk_" + name, *([I] * (len(ctx) + nd)), B)
        return SArr(shape, lambda *i: A.from_bool(f(*ctx, *i), kind), kind)
    f = fresh_fn("sk_" + name, *([I] * (len(ctx) + nd)), A.DT[kind])
    return SArr(shape, lambda *i: f(*ctx, *i), kind)

mod2 = Mod2()

# ------------------------------------------------------------------ small stdlib
class _Copy:
    @staticmethod
    def deepcopy(x, memo=None):
        import copy
        if isinstance(x, PObj):
            o = object.__new__(type(x)); o.__dict__.update({k: _Copy.deepcopy(v) for k, v in x.__dict__.items()}); o.__dict__["_vc_born"] = born(); return o
        if isinstance(x, PList): return PList([("c", _Copy.deepcopy(s[1])) if s[0] == "c" else s for s in x.segs])
        if isinstance(x, (SArr, PSet, PDict)): return x.copy()
        return x
    @staticmethod
    def copy(x):
        if isinstance(x, PObj):
            o = object.__new__(type(x)); o.__dict__.update(x.__dict__); o.__dict__["_vc_born"] = born(); return o
        return x.copy() if hasattr(x, "copy") else x

class _Itertools:
    @staticmethod
    def product(*a, repeat=1):
        import itertools
        its = [loops.to_iter(x) for x in a] * repeat
        if all(isinstance(i, list) for i in its): return [tuple(x) for x in itertools.product(*its)]
        raise Unsupported("itertools.product of symbolic")
    @staticmethod
    def combinations(x, r):
        import itertools
        it = loops.to_iter(x)
        if isinstance(it, list): return list(itertools.combinations(it, r))
        raise Unsupported("combinations of symbolic")
    @staticmethod
    def chain(*a):
        l = PList()
        for x in a: l = l + as_plist(x)
        return l
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Opaque(f"itertools.{a}")

def _reduce(f, xs, *init):
    it = loops.to_iter(xs)
    if isinstance(it, list):
        import functools
        return functools.reduce(f, it, *init)
    raise Unsupported("reduce")

class defaultdict(PDict):
    def __init__(self, factory=None, *a):
        super().__init__(); self.factory = factory
        if a: self.update(a[0])

import collections as _c, dataclasses as _d, abc as _abc, enum as _enum
class _Math:
    pi = 3.141592653589793
    def __getattr__(self, a):
        import math
        if a.startswith("__"): raise AttributeError(a)
        if a == "comb": return math.comb
        f = getattr(math, a)
        def g(*x):
            if any(isinstance(y, V) for y in x): raise Unsupported(f"math.{a} of symbolic")
            return f(*x)
        return g

from . import sparse as _sp
class _Special:
    @staticmethod
    def erfc(x):
        t = to_real(lift(x)); r = ERFC(t)
        E.assume(z3.And(r > 0, r < 2, ERFCINV(r) == t)); E.assume(z3.Implies(t > 0, r < 1))
        return mk(r)
    @staticmethod
    def erfcinv(x):
        t = to_real(lift(x)); r = ERFCINV(t)
        E.assume(z3.Implies(z3.And(t > 0, t < 2), ERFC(r) == t)); E.assume(z3.Implies(z3.And(t > 0, t < 1), r > 0))
        return mk(r)
ERFC = z3.Function("ERFC", R, R); ERFCINV = z3.Function("ERFCINV", R, R)
class _Logging:
    """log messages have no effect on the results"""
    DEBUG, INFO, WARNING, ERROR = 10, 20, 30, 40
    def _log(self, *a, **k): return None
    debug = info = warning = error = exception = log = basicConfig = _log
    def getLogger(self, *a): return self
    def setLevel(self, *a): return None
MODELS = {
    "scipy.special": _Special, "scipy.sparse": _sp.SPARSE, "scipy": types.SimpleNamespace(sparse=_sp.SPARSE, io=Opaque("scipy.io")),
    "numpy": np, "numpy.typing": Opaque("numpy.typing"), "ldpc.mod2": mod2, "ldpc": types.SimpleNamespace(mod2=mod2), "copy": _Copy, "itertools": _Itertools(),
    "functools.reduce": _reduce, "functools": types.SimpleNamespace(reduce=_reduce), "collections.defaultdict": defaultdict, "collections": types.SimpleNamespace(defaultdict=defaultdict),
    "dataclasses": _d, "abc": _abc, "enum": _enum, "sys": types.SimpleNamespace(version_info=(3, 12), byteorder="little"), "typing": Opaque("typing"),
    "math": _Math(), "pathlib": Opaque("pathlib"), "__future__": None, "warnings": Opaque("warnings"), "logging": _Logging(),
}
