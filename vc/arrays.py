"""Pointwise model of numpy arrays: shape + element function, views, and the numpy functions used by /repo."""
from __future__ import annotations
import z3
from .core import *
from .core import E, _conj
from . import seqs

def dim(x):
    c = const_int(x)
    return c if c is not None else (x if isinstance(x, V) else mk(lift(x)))

def dt(d, ): return lift(d)

def dims_eq(a, b):
    """decide a==b (branching when symbolic)"""
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None: return ca == cb
    return bool(mk(lift(a) == lift(b)))

DT = {"i": I, "b": B, "f": R}

class SArr:
    """kind: 'i' ints, 'b' bools, 'f' reals, 'o' engine objects (1-d only)"""
    __vc_array__ = True
    __array_ufunc__ = None
    def __init__(self, shape, fn, kind="i", base=None, vmap=None, ro=False, parts=None, name=None):
        self._shape = tuple(dim(s) for s in shape)
        self.fn = fn; self.kind = kind
        self.base = base; self.vmap = vmap   # vmap: list per base dim of ('fix',t) or ('sl',off,k,step)
        self.ro = ro
        self.parts = parts                   # provenance: ('vstack',[..])
        self.name = name
        self._mats = None
        self.alg = None
        self._vc_born = born()
    # journal
    def _vc_save(self): return (self.fn, self.parts)
    def _vc_load(self, st): self.fn, self.parts = st
    @property
    def shape(self): return tuple(self._shape)
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        r = 1
        for s in self._shape: r = r * s
        return r
    @property
    def dtype(self): return DType(self.kind)
    def __len__(self): raise Unsupported("host len of symbolic array")
    def vc_len(self):
        if self.ndim == 0: raise TypeError("len() of unsized object")
        return self._shape[0]
    def at(self, *idx):
        """element term at z3 index terms"""
        if self.base is not None:
            return self.base.at(*self._bidx(idx))
        return self.fn(*idx)
    def _bidx(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == "fix": out.append(m[1])
            else: out.append(simp(m[1] + idx[m[2]] * m[3]) if not (z3.is_int_value(m[1]) and m[1].as_long() == 0 and m[3] == 1) else idx[m[2]])
        return out
    def root(self): return self.base.root() if self.base is not None else self
    def update(self, upd):
        """upd(idx terms, old term)-> new term, applied to all elements"""
        if self.ro: raise Unsupported("write through a copied view")
        if self.base is not None:
            vm = self.vmap
            nd = self.ndim
            shp = [lift(s) for s in self._shape]
            def bup(bidx, old):
                conds = []; idx = [None] * nd
                for b, m in zip(bidx, vm):
                    if m[0] == "fix": conds.append(b == m[1])
                    else:
                        if m[3] == 1: e = simp(b - m[1])
                        elif m[3] == -1: e = simp(m[1] - b)
                        else:
                            e = simp((b - m[1]) / m[3]); conds.append((b - m[1]) % m[3] == 0)
                        idx[m[2]] = e
                        conds.append(z3.And(e >= 0, e < shp[m[2]]))
                if any(x is None for x in idx): raise Unsupported("broadcast view write")
                new = upd(idx, old)
                return simp(z3.If(z3.And(*conds), new, old))
            self.base.update(bup)
            return
        E.touch(self)
        old = self.fn
        srt = DT[self.kind]
        memo = {}
        def nf(*idx):
            key = tuple(x.get_id() for x in idx)
            if key in memo: return memo[key][0]
            o = old(*idx)
            r = upd(list(idx), o)
            r = cast(r, self.kind)
            memo[key] = (r, idx)
            return r
        self.fn = nf
        self.parts = None
    # -- indexing
    def _norm_index(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            n = self.ndim - (len([k for k in key if k is not None]) - 1)
            key[p:p + 1] = [slice(None)] * n
        while len([k for k in key if k is not None]) < self.ndim: key.append(slice(None))
        return key
    def _slice(self, s, n):
        """(off, len, step) with numpy clamping"""
        step = const_int(s.step) if s.step is not None else 1
        if step is None: raise Unsupported("symbolic step")
        nt = lift(n)
        def clampidx(v, default):
            if v is None: return default
            c = const_int(v)
            if c == 0: return z3.IntVal(0)
            t = lift(v)
            if c is not None and c < 0:
                r = simp(nt + t)
                return r if E.entails(r >= 0) else simp(z3.If(r < 0, z3.IntVal(0), r))
            if E.entails(z3.And(t >= 0, t <= nt)): return t
            if E.entails(t >= 0): return simp(z3.If(t > nt, nt, t))
            if E.entails(t < 0):
                r = simp(nt + t)
                return r if E.entails(r >= 0) else simp(z3.If(r < 0, z3.IntVal(0), r))
            r = z3.If(t < 0, nt + t, t)
            r = z3.If(r < 0, z3.IntVal(0), r)
            return simp(z3.If(r > nt, nt, r))
        if step > 0:
            lo = clampidx(s.start, z3.IntVal(0)); hi = clampidx(s.stop, nt)
            ln = simp(hi - lo)
            if step != 1: ln = simp((hi - lo + (step - 1)) / step)
            if not E.entails(ln >= 0): ln = simp(z3.If(ln > 0, ln, z3.IntVal(0)))
            return lo, mk(ln), step
        if step == -1 and s.start is None and s.stop is None:
            return simp(nt - 1), mk(nt), -1
        raise Unsupported("negative-step slice")
    def _idx1(self, k, n, what="index"):
        """integer index with python wraparound; raises IndexError path"""
        t = lift(k); nt = lift(n)
        t = to_int(t)
        c = const_int(k)
        if c is not None and c < 0:
            r = simp(nt + t)
            if not E.entails(r >= 0):
                if E.branch(r < 0): raise IndexError(what)
            return r
        if E.entails(z3.And(t >= 0, t < nt)): return t
        if E.entails(t >= 0):
            if E.branch(t < nt): return t
            raise IndexError(what)
        if E.branch(z3.And(t >= 0, t < nt)): return t
        if E.branch(z3.And(t < 0, t >= -nt)): return simp(nt + t)
        raise IndexError(what)
    def __getitem__(self, key):
        key = self._norm_index(key)
        if any(isinstance(k, (SArr, seqs.PList, list)) for k in key): return self._fancy(key)
        vm = []; shape = []; d = 0
        if self.kind == "o":
            if isinstance(key[0], slice):
                off, ln, step = self._slice(key[0], self._shape[0])
                f = self.fn
                return SArr((ln,), lambda i: f(simp(off + i * step)), "o")
            return self.at(self._idx1(key[0], self._shape[0]))
        newax = []
        for k in key:
            if k is None:
                newax.append(len(shape)); shape.append(1); continue
            if d >= self.ndim: raise IndexError("too many indices for array")
            if isinstance(k, slice):
                off, ln, step = self._slice(k, self._shape[d])
                vm.append(("sl", off, len(shape), step)); shape.append(ln)
            else:
                vm.append(("fix", self._idx1(k, self._shape[d])))
            d += 1
        if not shape:
            return mk(self.at(*[m[1] for m in vm]), np=True) if self.kind == "b" else mk(self.at(*[m[1] for m in vm]))
        return SArr(shape, None, self.kind, base=self, vmap=vm, ro=bool(newax))
    def _fancy(self, key):
        arrs = [(d, k) for d, k in enumerate(key) if isinstance(k, (SArr, seqs.PList, list))]
        if len(arrs) != 1: 
            raise Unsupported("multi-array fancy indexing")
        d, k = arrs[0]
        k = as_arr(k)
        if k.kind == "b": raise Unsupported("boolean mask indexing")
        if k.ndim != 1: raise Unsupported("fancy index ndim")
        n = self._shape[d]
        i = fresh("fi")
        kk = k
        # bounds
        E.oblige_rt("fancy index in bounds", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift(k._shape[0])), z3.And(kk.at(i) >= -lift(n), kk.at(i) < lift(n)))))
        others = tuple(slice(None) if x is k or dd == d else x for dd, x in enumerate(key))
        shape = list(self._shape); shape[d] = k._shape[0]
        f = self.at
        def g(*idx):
            idx = list(idx)
            j = kk.at(idx[d])
            if not E.entails(j >= 0): j = z3.If(j < 0, j + lift(n), j)
            idx[d] = simp(j)
            return f(*idx)
        r = SArr(shape, g, self.kind, ro=False)
        r = r.copy()
        if any(o != slice(None) for o in others): return r[others]
        return r
    def __setitem__(self, key, val):
        key = self._norm_index(key)
        if self.kind == "o": raise Unsupported("object array write")
        arrs = [(d, k) for d, k in enumerate(key) if isinstance(k, (SArr, seqs.PList, list))]
        if arrs:
            if len(arrs) == 1 and len(key) >= 1:
                d, k = arrs[0]; member = getattr(k, "vc_member", None)
                if member is None: k = as_arr(k)
                if member is None and k.kind == "b" and self.ndim == 1:
                    v = val
                    if isinstance(v, (SArr,)): raise Unsupported("mask assign array")
                    self.update(lambda idx, old: simp(z3.If(k.at(idx[0]), cast(lift(v), self.kind), old)))
                    return
                if (member is not None or k.ndim == 1) and not isinstance(val, (SArr, seqs.PList, list)):
                    fixed = []
                    for dd, kk in enumerate(key):
                        if dd == d: fixed.append(None)
                        elif isinstance(kk, slice) and kk == slice(None): fixed.append("all")
                        elif not isinstance(kk, slice): fixed.append(self._idx1(kk, self._shape[dd]))
                        else: raise Unsupported("fancy slice write")
                    n = lift(self._shape[d])
                    if member is not None:        # ghost list known by its set of (in-range) entries
                        def upm(idx, old):
                            c = [member(idx[d])] + [idx[dd] == f for dd, f in enumerate(fixed) if f is not None and not isinstance(f, str)]
                            return z3.If(z3.And(*c), cast(lift(val), self.kind), old)
                        self.update(upm); return
                    ln = lift(k._shape[0])
                    i = fresh("fi")
                    E.oblige_rt("fancy index in bounds", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), z3.And(k.at(i) >= 0, k.at(i) < n))))
                    def up(idx, old):
                        q = fresh("q")
                        c = [z3.Exists([q], z3.And(q >= 0, q < ln, k.at(q) == idx[d]))]
                        for dd, f in enumerate(fixed):
                            if f is not None and not isinstance(f, str): c.append(idx[dd] == f)
                        return z3.If(z3.And(*c), cast(lift(val), self.kind), old)
                    self.update(up)
                    return
            raise Unsupported("fancy write")
        if all(not isinstance(k, slice) for k in key):
            idx0 = [self._idx1(k, self._shape[d], "assignment index") for d, k in enumerate(key)]
            if isinstance(val, SArr):
                if all(const_int(s) == 1 for s in val._shape): val = mk(val.at(*[z3.IntVal(0)] * val.ndim))
                else: raise ValueError("setting an array element with a sequence.")
            v = cast(lift(val), self.kind)
            self.update(lambda idx, old: simp(z3.If(z3.And(*[a == b for a, b in zip(idx, idx0)]), v, old)))
            return
        view = self[tuple(key)]
        src = val
        if isinstance(src, (SArr, seqs.PList, list, tuple)):
            src = as_arr(src)
            b = broadcast_to(src.snapshot(), view._shape)
            k = self.kind
            view.update(lambda idx, old: cast(b.at(*idx), k))
        else:
            v = cast(lift(src), self.kind)
            view.update(lambda idx, old: v)
    def snapshot(self):
        if self.base is None:
            r = SArr(self._shape, self.fn, self.kind, parts=self.parts)
            r.alg = self.alg
            return r
        r = self.root().fn
        chain = self
        def f(*idx):
            c = chain
            while c.base is not None:
                idx = c._bidx(idx); c = c.base
            return r(*idx)
        return alg_same(SArr(self._shape, f, self.kind), self)
    def copy(self, *a, **k):
        s = self.snapshot()
        memo = {}
        f = s.fn
        if self.kind == "o": return s
        def g(*idx):
            key = tuple(x.get_id() for x in idx)
            if key not in memo: memo[key] = (simp(f(*idx)), idx)
            return memo[key][0]
        return alg_same(SArr(self._shape, g, self.kind, parts=s.parts), self)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()
    # -- arithmetic
    def _map(self, f, kind): 
        s = self.snapshot()
        return SArr(self._shape, lambda *i: f(s.at(*i)), kind).copy()
    def _bin(self, o, f, kind=None, rev=False):
        if isinstance(o, (seqs.PList, list, tuple)): o = as_arr(o)
        if o is None: return NotImplemented
        return binop(o, self, f, kind) if rev else binop(self, o, f, kind)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, rev=True)
    def __mod__(self, o): 
        from .core import smod
        if ALG is not None and self.ndim == 2 and const_int(o) == 2:
            a = ALG.get(self)
            if ALG.is_zero(a):
                E.trust("matrix algebra: block products of Kronecker products")
                return SArr(self._shape, lambda i, j: cast(z3.IntVal(0), self.kind), self.kind)
            r = self._bin(o, smod)
            if a is not None: ALG.put(r, a)      # the same matrix modulo two
            return r
        return self._bin(o, smod)
    def __floordiv__(self, o):
        from .core import sdiv
        return self._bin(o, sdiv)
    def __truediv__(self, o): return self._bin(o, lambda a, b: to_real(a) / to_real(b), "f")
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: to_real(a) / to_real(b), "f", rev=True)
    def __neg__(self): return self._map(lambda a: -to_arith(a), "i" if self.kind == "b" else self.kind)
    def __pow__(self, o):
        c = const_int(o)
        if c == 2: return self._bin(self, lambda a, b: a * b)
        raise Unsupported("array power")
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, "b")
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, "b")
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, "b")
    def __xor__(self, o): return bitop(self, o, xor)
    def __rxor__(self, o): return bitop(o, self, xor)
    def __and__(self, o): return bitop(self, o, lambda a, b: z3.And(a, b))
    def __rand__(self, o): return bitop(o, self, lambda a, b: z3.And(a, b))
    def __or__(self, o): return bitop(self, o, lambda a, b: z3.Or(a, b))
    def __ror__(self, o): return bitop(o, self, lambda a, b: z3.Or(a, b))
    def __invert__(self):
        if self.kind == "b": return self._map(lambda a: z3.Not(a), "b")
        raise Unsupported("~ on ints")
    __hash__ = None
    def _inplace(self, o, f):
        o2 = o.snapshot() if isinstance(o, SArr) else (as_arr(o) if isinstance(o, (seqs.PList, list, tuple)) else o)
        k = self.kind
        if isinstance(o2, SArr):
            b = broadcast_to(o2, self._shape)
            self.update(lambda idx, old: cast(f(*unify2(old, b.at(*idx))), k))
        else:
            v = lift(o2)
            self.update(lambda idx, old: cast(f(*unify2(old, v)), k))
        return self
    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __imod__(self, o):
        from .core import smod
        return self._inplace(o, smod)
    def __ixor__(self, o):
        o2 = o.snapshot() if isinstance(o, SArr) else o
        b = broadcast_to(as_arr(o2), self._shape) if not isinstance(o2, (V, int, bool)) else None
        k = self.kind
        def f(idx, old):
            y = b.at(*idx) if b is not None else lift(o2)
            return from_bool(xor(bit(old), bit(y)), k)
        self.update(f); return self
    def __matmul__(self, o): return matmul(self, as_arr(o))
    def __rmatmul__(self, o): return matmul(as_arr(o), self)
    def dot(self, o): return matmul(self, as_arr(o))
    @property
    def T(self):
        if self.ndim == 1: return self
        nd = self.ndim
        return SArr(self._shape[::-1], None, self.kind, base=self, vmap=[("sl", z3.IntVal(0), nd - 1 - d, 1) for d in range(nd)])
    def transpose(self, *a): return self.T
    def astype(self, t, **k):
        r = self._astype(t); r.dtn = str(getattr(t, "__name__", None) or getattr(t, "name", None) or t).replace("vc_", "")
        return r
    def _astype(self, t):
        kd = kind_of_dtype(t)
        if kd == self.kind: return self.copy()
        s = self.snapshot()
        r = SArr(self._shape, lambda *i: cast(s.at(*i), kd), kd, parts=None).copy()
        return r if kd == "b" else alg_same(r, self)
    def view(self, *a): return self
    def any(self, axis=None): return reduce_any(self, axis)
    def all(self, axis=None): return reduce_all(self, axis)
    def sum(self, axis=None, **k): return reduce_sum(self, axis)
    def flatten(self, order="C"):
        if self.ndim == 1: return self.copy()
        if self.ndim != 2: raise Unsupported("flatten nd")
        s = self.snapshot()
        r, c = self._shape
        rt, ct = lift(r), lift(c)
        from .core import mk
        if order == "F": f = lambda i: s.at(i % rt, i / rt)
        else: f = lambda i: s.at(i / ct, i % ct)
        return SArr((r * c,), f, self.kind)
    def ravel(self, *a): 
        x = self.flatten(*a); x.ro = True; return x
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, seqs.PList)): shape = tuple(shape[0])
        return reshape(self, shape)
    def tolist(self):
        return seqs.as_plist(self)
    dtn = None                           # element type after astype (lost by any other operation)
    def tobytes(self): return Bytes(self.snapshot(), self.dtn)
    def item(self): return mk(self.at(*[z3.IntVal(0)] * self.ndim))
    def nonzero(self): raise Unsupported("nonzero")
    def __bool__(self):
        if all(const_int(s) == 1 for s in self._shape): return E.branch(to_bool(self.at(*[z3.IntVal(0)] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")
    def __iter__(self):
        n = const_int(self._shape[0])
        if n is None: raise Unsupported("host iteration over symbolic array")
        return iter([self[i] for i in range(n)])
    def vc_seq(self):
        return seqs.Seq(self._shape[0], lambda i: self[V(i) if not isinstance(i, V) else i])
    def __repr__(self): return f"SArr{self._shape}{self.kind}"

ALG = None    # vc.matalg when a contract switches the matrix-algebra back end on
def alg_same(r, src):
    if ALG is not None and src.ndim == 2: ALG.put(r, ALG.get(src))
    return r
def alg_put(r, f):
    if ALG is not None and r.ndim == 2: ALG.put(r, f())
    return r

class DType:
    def __init__(self, k): self.k = k
    def __eq__(self, o):
        try: return kind_of_dtype(o) == self.k
        except Unsupported: return False
    def __hash__(self): return hash(self.k)

class Bytes:
    """the byte string of an array: equal for equal contents of one element type"""
    def __init__(self, arr, dtn): self.arr, self.dtn = arr, dtn

def kind_of_dtype(t):
    if t is None: return "f"
    if isinstance(t, DType): return t.k
    n = t if isinstance(t, str) else getattr(t, "__name__", None) or getattr(t, "name", None) or str(t)
    n = n.rsplit(".", 1)[-1]
    if n.startswith("vc_"): n = n[3:]
    if n.startswith(("int", "uint")): return "i"
    if n.startswith("bool"): return "b"
    if n.startswith("float"): return "f"
    if n == "object": return "o"
    raise Unsupported(f"dtype {n}")

def cast(t, kind):
    if kind == "o": return t
    if kind == "b": return to_bool(t)
    if kind == "i":
        if t.sort() == R:
            if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return t.arg(0)
            if z3.is_rational_value(t):
                fr = t.as_fraction(); import math
                return z3.IntVal(math.trunc(fr))
            if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), cast(t.arg(1), kind), cast(t.arg(2), kind))
            if z3.is_add(t): return z3.Sum(*[cast_exact(c) for c in t.children()])
            return cast_exact(t)
        return to_int(t)
    return to_real(t)

def cast_exact(t):
    """Int cast of a real that is syntactically integral, otherwise truncation"""
    if t.sort() != R: return to_int(t)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1: return z3.IntVal(t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), cast_exact(t.arg(1)), cast_exact(t.arg(2)))
    if z3.is_mul(t): 
        r = z3.IntVal(1)
        for c in t.children(): r = r * cast_exact(c)
        return r
    if z3.is_add(t): return z3.Sum(*[cast_exact(c) for c in t.children()])
    if is_acc(t):
        return ssum(t.arg(0), t.arg(1), lambda k: cast_exact(apply_lam(t.arg(2), k)))
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))

def bit(t):
    if t.sort() == B: return t
    return odd(t)

def from_bool(b, kind):
    if kind == "b": return b
    if kind == "i": return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return z3.If(b, z3.RealVal(1), z3.RealVal(0))

def unify2(a, b):
    if a.sort() == B and b.sort() == B: return a, b
    return unify(a, b)

def as_arr(x, kind=None):
    if isinstance(x, SArr): return x
    if isinstance(x, (list, tuple)): x = seqs.PList.of(list(x))
    if isinstance(x, seqs.PList):
        return arr_from_list(x, kind)
    if isinstance(x, seqs.Seq): return arr_from_list(seqs.PList.of_seq(x), kind)
    if isinstance(x, (V, int, float, bool)):
        t = lift(x); return SArr((), lambda: t, kind_of_term(t))
    if hasattr(x, "vc_array"): return x.vc_array()
    if type(x).__module__ == "numpy":
        return from_numpy(x)
    raise Unsupported(f"as_arr {type(x).__name__}")

def from_numpy(a):
    import numpy as np
    a = np.asarray(a)
    kind = {"i": "i", "u": "i", "b": "b", "f": "f"}.get(a.dtype.kind)
    if kind is None: raise Unsupported("numpy dtype")
    fl = a
    def f(*idx):
        if all(z3.is_int_value(i) for i in idx):
            return cast(lift(fl[tuple(i.as_long() for i in idx)]), kind)
        r = cast(lift(0), kind)
        for pos in np.ndindex(*fl.shape):
            r = z3.If(z3.And(*[i == p for i, p in zip(idx, pos)]), cast(lift(fl[pos]), kind), r)
        return r
    return SArr(a.shape, f, kind)

def kind_of_term(t):
    return "b" if t.sort() == B else "i" if t.sort() == I else "f"

def arr_from_list(x, kind=None):
    """np.array(list): list of scalars, or list of equal-length arrays/lists"""
    n = x.vc_len()
    if any(s[0] == "f" for s in x.segs): x = seqs.PList(seqs.defilter(x.segs))
    if not x.segs:
        return SArr((0,), lambda i: cast(z3.IntVal(0), kind or "f"), kind or "f")
    el = x.probe()
    if isinstance(el, (SArr, seqs.PList, list, tuple)):
        # stack rows
        rows = []
        shp = None
        def rowarr(e): return as_arr(e, kind)
        i0 = None
        first = rowarr(el)
        shp = first._shape
        # all rows must have equal shape
        segs = x.segs
        kd = kind or first.kind
        off = 0
        parts = []
        for s in segs:
            if s[0] == "c":
                r = rowarr(s[1]).snapshot()
                for a, b in zip(r._shape, shp):
                    if not dims_eq(a, b): raise ValueError("inhomogeneous shape")
                parts.append((1, lambda i, *idx, r=r: r.at(*idx)))
                if kind is None and "ibf".index(r.kind if r.kind != "b" else "i") > "ibf".index(kd if kd != "b" else "i"): kd = r.kind
            elif s[0] == "s":
                _, ln, fn = s
                iv = fresh("row")
                r = rowarr(fn(V(iv)))
                for a, b in zip(r._shape, shp):
                    if not E.entails(z3.Implies(z3.And(iv >= 0, iv < lift(ln)), lift(a) == lift(b))):
                        raise Unsupported("row shapes may differ")
                memo = {}
                def g(i, *idx, fn=fn):
                    key = (i.get_id(),)
                    if key not in memo: memo[key] = (rowarr(fn(V(i))).snapshot(), i)
                    return memo[key][0].at(*idx)
                parts.append((ln, g))
            else: raise Unsupported("array from filtered list")
        def f(i, *idx):
            return seg_select(parts, i, lambda p, j: cast(p(j, *idx), kd))
        return SArr((n,) + tuple(shp), f, kd).copy()
    kd = kind
    parts = []
    ks = []
    for s in x.segs:
        if s[0] == "c":
            t = lift(s[1]); ks.append(kind_of_term(t)); parts.append((1, lambda i, t=t: t))
        elif s[0] == "s":
            fn = s[2]
            t = lift(fn(V(fresh("probe")))); ks.append(kind_of_term(t))
            parts.append((s[1], lambda i, fn=fn: lift(fn(V(i)))))
        else: raise Unsupported("array from filtered list")
    if kd is None: kd = "f" if "f" in ks else "i" if "i" in ks else "b"
    return SArr((n,), lambda i: seg_select(parts, i, lambda p, j: cast(p(j), kd)), kd).copy()

def seg_select(parts, i, get):
    """parts: [(len, payload)]; ite over segment positions"""
    if len(parts) == 1: return get(parts[0][1], i)
    offs = []
    o = z3.IntVal(0)
    for ln, p in parts:
        offs.append(o); o = simp(o + lift(ln))
    r = None
    for (ln, p), off in reversed(list(zip(parts, offs))):
        j = simp(i - off)
        if r is None: r = get(p, j)
        else:
            end = simp(off + lift(ln))
            c = simp(i < end)
            if z3.is_true(c): r = get(p, j)
            elif z3.is_false(c): pass
            else: 
                a = get(p, j)
                a, b = unify2(a, r)
                r = z3.If(c, a, b)
    return simp(r)

def broadcast_shapes(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        cx, cy = const_int(x), const_int(y)
        if cx == 1 and cy == 1: out.append(1)
        elif cx == 1: out.append(y)
        elif cy == 1: out.append(x)
        else:
            if dims_eq(x, y): out.append(x if cx is None else x)
            else:
                if cx is None and E.entails(lift(x) == 1): out.append(y)
                elif cy is None and E.entails(lift(y) == 1): out.append(x)
                elif cx is None and E.feasible(lift(x) == 1) and bool(mk(lift(x) == 1)): out.append(y)
                elif cy is None and E.feasible(lift(y) == 1) and bool(mk(lift(y) == 1)): out.append(x)
                else: raise ValueError("operands could not be broadcast together")
    return tuple(out)

def broadcast_to(a, shape):
    if len(a._shape) > len(shape):
        extra = a._shape[:len(a._shape) - len(shape)]
        if all(const_int(s) == 1 for s in extra):
            s0 = a
            n = len(extra)
            a = SArr(a._shape[n:], lambda *i: s0.at(*([z3.IntVal(0)] * n), *i), a.kind)
        else: raise ValueError(f"could not broadcast input array {a._shape} {shape}")
    pad = len(shape) - len(a._shape)
    ones = []
    for k, s in enumerate(a._shape):
        t = shape[pad + k]
        if const_int(s) == 1 and const_int(t) != 1: ones.append(True)
        elif dims_eq(s, t): ones.append(False)
        elif bool(mk(lift(s) == 1)): ones.append(True)
        else: raise ValueError(f"could not broadcast input array {a._shape} {shape}")
    return SArr(shape, lambda *i: a.at(*[z3.IntVal(0) if o else x for x, o in zip(i[pad:], ones)]), a.kind)

def res_kind(a, b):
    if "f" in (a, b): return "f"
    if "i" in (a, b): return "i"
    return "b"

def binop(a, b, f, kind=None):
    if not isinstance(a, SArr): a = as_arr(a)
    if not isinstance(b, SArr): b = as_arr(b)
    sa, sb = a.snapshot(), b.snapshot()
    shp = broadcast_shapes(sa._shape, sb._shape)
    ba, bb = broadcast_to(sa, shp), broadcast_to(sb, shp)
    k = kind or res_kind(a.kind, b.kind)
    if kind is None and k == "b": 
        k = "b"
        g = lambda *i: to_bool(f(*unify(ba.at(*i), bb.at(*i))))
        # numpy: bool + bool = logical or ; bool * bool = and
    else:
        g = lambda *i: f(*unify(ba.at(*i), bb.at(*i))) if not (kind == "b" and ba.kind == "b" and bb.kind == "b") else f(ba.at(*i), bb.at(*i))
    return SArr(shp, lambda *i: cast(g(*i), k), k).copy()

def bitop(a, b, f):
    if not isinstance(a, SArr): a = as_arr(a)
    if not isinstance(b, SArr): b = as_arr(b)
    sa, sb = a.snapshot(), b.snapshot()
    shp = broadcast_shapes(sa._shape, sb._shape)
    ba, bb = broadcast_to(sa, shp), broadcast_to(sb, shp)
    k = res_kind(a.kind, b.kind)
    for x in (sa, sb):
        if x.kind != "b":
            ii = [fresh("x") for _ in x._shape]
            rng = [z3.And(v >= 0, v < lift(s)) for v, s in zip(ii, x._shape)]
            t = x.at(*ii)
            if not E.entails(z3.Implies(z3.And(*rng), z3.And(t >= 0, t <= 1))): raise Unsupported("bit op on non-binary array")
    return SArr(shp, lambda *i: from_bool(f(bit(ba.at(*i)), bit(bb.at(*i))), k), k).copy()

def matmul(a, b):
    alg = getattr(a, "vc_alg", None)
    sa, sb = a.snapshot(), b.snapshot()
    if sa.ndim == 0 or sb.ndim == 0: raise ValueError("matmul: scalar operand")
    k = res_kind(a.kind, b.kind)
    if sa.ndim == 1 and sb.ndim == 1: inner = (sa._shape[0], sb._shape[0])
    elif sa.ndim == 1: inner = (sa._shape[0], sb._shape[-2])
    elif sb.ndim == 1: inner = (sa._shape[-1], sb._shape[0])
    else: inner = (sa._shape[-1], sb._shape[-2])
    if not dims_eq(*inner): raise ValueError("matmul: Input operand has a mismatch in its core dimension")
    n = inner[0]
    def prod(x, y):
        if k == "b": return None
        return x * y
    if sa.ndim == 1 and sb.ndim == 1:
        def val():
            if k == "b": return exists(n, lambda q: z3.And(sa.at(q), sb.at(q)))
            return ssum(0, n, lambda q: prod(*map(to_arith, unify(sa.at(q), sb.at(q)))))
        return mk(val())
    if k == "b":
        if sb.ndim == 1: return SArr((sa._shape[0],), lambda i: exists(n, lambda q: z3.And(sa.at(i, q), sb.at(q))), k)
        if sa.ndim == 1: return SArr((sb._shape[1],), lambda j: exists(n, lambda q: z3.And(sa.at(q), sb.at(q, j))), k)
        return SArr((sa._shape[0], sb._shape[1]), lambda i, j: exists(n, lambda q: z3.And(sa.at(i, q), sb.at(q, j))), k)
    if sb.ndim == 1: r = SArr((sa._shape[0],), lambda i: ssum(0, n, lambda q: prod(*unify(sa.at(i, q), sb.at(q)))), k)
    elif sa.ndim == 1: r = SArr((sb._shape[1],), lambda j: ssum(0, n, lambda q: prod(*unify(sa.at(q), sb.at(q, j)))), k)
    elif sa.ndim == 2 and sb.ndim == 2: r = SArr((sa._shape[0], sb._shape[1]), lambda i, j: ssum(0, n, lambda q: prod(*unify(sa.at(i, q), sb.at(q, j)))), k)
    else: raise Unsupported("matmul nd")
    r = r.copy()
    if ALG is not None and r.ndim == 2: ALG.put(r, ALG.mul(ALG.get(a), ALG.get(b)))
    return r

def _elems(a, f):
    ii = [fresh("e") for _ in a._shape]
    s = a.snapshot()
    body = f(s.at(*ii))
    rng = z3.And(*[z3.And(v >= 0, v < lift(d)) for v, d in zip(ii, a._shape)]) if ii else z3.BoolVal(True)
    return ii, rng, body

def reduce_any(a, axis=None):
    a = as_arr(a)
    if axis is not None: return _axis(a, axis, lambda n, f: exists(n, lambda q: to_bool(f(q))), "b")
    ii, rng, body = _elems(a, to_bool)
    return mk(z3.Exists(ii, z3.And(rng, body)) if ii else body, True) if True else None

def reduce_all(a, axis=None):
    a = as_arr(a)
    if axis is not None: return _axis(a, axis, lambda n, f: forall(n, lambda q: to_bool(f(q))), "b")
    ii, rng, body = _elems(a, to_bool)
    return mk(z3.ForAll(ii, z3.Implies(rng, body)) if ii else body, True)

def reduce_sum(a, axis=None):
    a = as_arr(a)
    if axis is not None:
        return _axis(a, axis, lambda n, f: ssum(0, n, lambda q: to_arith(f(q))), "i" if a.kind == "b" else a.kind)
    s = a.snapshot()
    def go(d, idx):
        if d == a.ndim: return to_arith(s.at(*idx))
        return ssum(0, a._shape[d], lambda q: go(d + 1, idx + [q]))
    return mk(go(0, []))

def _axis(a, axis, red, kind):
    ax = const_int(axis)
    if ax < 0: ax += a.ndim
    s = a.snapshot()
    n = a._shape[ax]
    shp = a._shape[:ax] + a._shape[ax + 1:]
    f = lambda *i: red(n, lambda q: s.at(*i[:ax], q, *i[ax:]))
    if not shp: return mk(f())
    return SArr(shp, f, kind).copy()

def concat(parts, axis, ):
    parts = [as_arr(p) for p in parts]
    parts = [p.snapshot() for p in parts]
    nd = parts[0].ndim
    for p in parts:
        if p.ndim != nd: raise ValueError("all the input array dimensions must match")
    if axis < 0: axis += nd
    for p in parts[1:]:
        for d in range(nd):
            if d != axis and not dims_eq(p._shape[d], parts[0]._shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = parts[0].kind
    for p in parts[1:]: k = res_kind(k, p.kind)
    tot = parts[0]._shape[axis]
    for p in parts[1:]: tot = tot + p._shape[axis]
    shp = list(parts[0]._shape); shp[axis] = tot
    segs = [(p._shape[axis], p) for p in parts]
    def f(*idx):
        return seg_select(segs, idx[axis], lambda p, j: cast(p.at(*idx[:axis], j, *idx[axis + 1:]), k))
    r = SArr(shp, f, k).copy()
    if ALG is not None and nd == 2: ALG.put(r, (ALG.vstack if axis == 0 else ALG.hstack)([ALG.get(p) for p in parts]))
    return r

def vstack(parts, **kw):
    parts = list_items(parts)
    ps = []
    for p in parts:
        p = as_arr(p)
        if p.ndim == 1:
            q = p.snapshot(); p = SArr((1, q._shape[0]), lambda i, j, q=q: q.at(j), q.kind)
        elif p.ndim == 0: raise Unsupported("vstack scalar")
        ps.append(p)
    r = concat(ps, 0)
    r.parts = ("vstack", [p.snapshot() for p in ps])
    return r

def hstack(parts, **kw):
    ps = [as_arr(p) for p in list_items(parts)]
    ps = [p if p.ndim else SArr((1,), lambda i, p=p: p.at(), p.kind) for p in ps]
    return concat(ps, 0 if ps[0].ndim == 1 else 1)

def list_items(x):
    if isinstance(x, (list, tuple)): return list(x)
    if isinstance(x, seqs.PList): return x.concrete()
    if isinstance(x, SArr): return list(iter(x))
    return list(x)

def reshape(a, shape):
    s = a.snapshot()
    shape = list(shape)
    neg = [i for i, x in enumerate(shape) if const_int(x) == -1]
    if neg:
        known = 1
        for i, x in enumerate(shape):
            if i not in neg: known = known * x
        shape[neg[0]] = a.size if const_int(known) == 1 else a.size // known
    tot = 1
    for x in shape: tot = tot * x
    if not dims_eq(tot, a.size): raise ValueError("cannot reshape array")
    if a.ndim == 1 and len(shape) == 2:
        c = lift(shape[1])
        r = SArr(shape, lambda i, j: s.at(simp(i * c + j)), a.kind)
    elif a.ndim == 2 and len(shape) == 1:
        return a.flatten()
    elif a.ndim == 1 and len(shape) == 1: return a.copy()
    elif a.ndim == 2 and len(shape) == 2:
        c = lift(shape[1]); oc = lift(a._shape[1])
        if const_int(a._shape[0]) == 1: r = SArr(shape, lambda i, j: s.at(z3.IntVal(0), simp(i * c + j)), a.kind)
        elif const_int(a._shape[1]) == 1: r = SArr(shape, lambda i, j: s.at(simp(i * c + j), z3.IntVal(0)), a.kind)
        else: r = SArr(shape, lambda i, j: s.at((i * c + j) / oc, (i * c + j) % oc), a.kind)
    elif a.ndim == 0: r = SArr(shape, lambda *i: s.at(), a.kind)
    else: raise Unsupported("reshape")
    r.ro = True
    return r

def array_equal(a, b):
    if a is None or b is None: return False
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a._shape, b._shape):
        if not dims_eq(x, y): return False
    return mk(arr_eq_term(a, b))

def arr_eq_term(a, b):
    """pointwise equality (shapes assumed equal)"""
    ii = [fresh("e") for _ in a._shape]
    rng = z3.And(*[z3.And(v >= 0, v < lift(d)) for v, d in zip(ii, a._shape)]) if ii else z3.BoolVal(True)
    x, y = unify2(a.at(*ii), b.at(*ii))
    body = x == y
    return z3.ForAll(ii, z3.Implies(rng, body)) if ii else body

def sym_array(name, shape, kind="i", binary=False):
    """fresh symbolic input array; binary: entries 0/1"""
    nd = len(shape)
    if binary:
        f = z3.Function(f"{name}", *([I] * nd), B)
        if kind == "b": return SArr(shape, lambda *i: f(*i), "b", name=name)
        one, zero = (z3.IntVal(1), z3.IntVal(0)) if kind == "i" else (z3.RealVal(1), z3.RealVal(0))
        return SArr(shape, lambda *i: z3.If(f(*i), one, zero), kind, name=name)
    f = z3.Function(f"{name}", *([I] * nd), DT[kind])
    return SArr(shape, lambda *i: f(*i), kind, name=name)
