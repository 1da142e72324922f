"""Matrix-algebra back end: block matrices over GF(2) whose blocks are sums of Kronecker products of words in atomic
matrices.  Decides "this product is zero / these matrices are equal modulo two" from declared relations between atoms
using block multiplication and the mixed-product rule (assumed laws)."""
from __future__ import annotations
import z3
from .core import *
from .core import E

class Rel:
    def __init__(self): self.reset()
    def reset(self):
        self.zero = set()       # pairs (atom, atom) whose product vanishes mod 2
        self.fam = {}           # atom -> commuting family
        self.keep = []
        self.log = []
REL = Rel()

def same(a, b):
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    return E.entails(lift(a) == lift(b))

class Fac:
    """one Kronecker factor: word of atoms, from dimension r to dimension c (empty word: identity)"""
    __slots__ = ("r", "c", "w")
    def __init__(self, r, c, w): self.r, self.c, self.w = r, c, w

def norm_word(w):
    """None when the word vanishes; commuting letters sorted"""
    w = list(w)
    changed = True
    while changed:
        changed = False
        for i in range(len(w) - 1):
            fa, fb = REL.fam.get(w[i][0]), REL.fam.get(w[i + 1][0])
            if fa is not None and fa == fb and w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]; changed = True
    for i in range(len(w) - 1):
        (a, ta), (b, tb) = w[i], w[i + 1]
        if not ta and not tb and (a, b) in REL.zero: return None
        if ta and tb and (b, a) in REL.zero: return None
    return tuple(w)

def key(mono): return tuple(f.w for f in mono)

class Blk:
    def __init__(self, rows, cols, e): self.rows, self.cols, self.e = list(rows), list(cols), e   # e[(i,j)] = list of monomials (mod 2)
    def shape(self):
        r = self.rows[0]
        for x in self.rows[1:]: r = r + x
        c = self.cols[0]
        for x in self.cols[1:]: c = c + x
        return r, c

def reduce_(ms):
    out = {}
    for m in ms:
        m2 = []
        z = False
        for f in m:
            w = norm_word(f.w)
            if w is None: z = True; break
            m2.append(Fac(f.r, f.c, w))
        if z: continue
        k = (len(m2),) + key(m2)
        if k in out: del out[k]
        else: out[k] = tuple(m2)
    return list(out.values())

def atom(arr):
    ident = id(arr.fn)
    REL.keep.append(arr.fn)
    r, c = arr._shape
    return Blk([r], [c], {(0, 0): [(Fac(r, c, ((ident, False),)),)]})
def ident(n): return Blk([n], [n], {(0, 0): [(Fac(n, n, ()),)]})
def zero(r, c): return Blk([r], [c], {(0, 0): []})
def get(arr):
    """normal form of a 2-d array (an atom unless the array was built from others)"""
    a = getattr(arr, "alg", None)
    if a is not None and a[1] is arr.fn: return a[0]
    if arr.base is not None:
        b = arr.base
        if b.base is None and b.ndim == 2 and arr.ndim == 2 and arr.vmap is not None:
            m = arr.vmap
            if all(x[0] == "sl" and x[3] == 1 and const_int(mk(lift(x[1]))) == 0 for x in m):
                if [x[2] for x in m] == [1, 0] and same(arr._shape[0], b._shape[1]) and same(arr._shape[1], b._shape[0]): return transpose(get(b))
                if [x[2] for x in m] == [0, 1] and same(arr._shape[0], b._shape[0]) and same(arr._shape[1], b._shape[1]): return get(b)
        return None
    if arr.ndim != 2: return None
    return atom(arr)
def put(arr, blk):
    if blk is not None: arr.alg = (blk, arr.fn)
    return arr
def transpose(b):
    if b is None: return None
    return Blk(b.cols, b.rows, {(j, i): [tuple(Fac(f.c, f.r, tuple((a, not t) for a, t in reversed(f.w))) for f in m) for m in ms] for (i, j), ms in b.e.items()})
def kron(a, b):
    """only for single-block factors on the right or identity-free structure: (block matrix) (x) (single block)"""
    if a is None or b is None: return None
    if len(b.rows) == 1 and len(b.cols) == 1:
        br, bc = b.rows[0], b.cols[0]
        e = {}
        for (i, j), ms in a.e.items():
            e[i, j] = reduce_([m + n for m in ms for n in b.e[0, 0]])
        return Blk([r * br for r in a.rows], [c * bc for c in a.cols], e)
    return None
def hstack(bs):
    if any(b is None for b in bs): return None
    rows = bs[0].rows
    for b in bs[1:]:
        if len(b.rows) != len(rows):
            # a zero or single-block part next to a blocked part is split by the other's rows only if it is zero
            return None
        if not all(same(x, y) for x, y in zip(rows, b.rows)): return None
    cols, e = [], {}
    for b in bs:
        o = len(cols)
        for (i, j), ms in b.e.items(): e[i, j + o] = ms
        cols += b.cols
    return Blk(rows, cols, e)
def vstack(bs):
    if any(b is None for b in bs): return None
    # refine a zero block-column structure: zero blocks may be split to match
    ncol = max(len(b.cols) for b in bs)
    ref = next(b for b in bs if len(b.cols) == ncol)
    out = []
    for b in bs:
        if len(b.cols) != ncol:
            b = split_zero_cols(b, ref.cols)
            if b is None: return None
        if not all(same(x, y) for x, y in zip(ref.cols, b.cols)): return None
        out.append(b)
    return transpose(hstack([transpose(b) for b in out]))
def split_zero_cols(b, cols):
    if len(b.rows) == 1 and len(b.cols) == 1 and not b.e[0, 0]:
        return Blk(b.rows, cols, {(0, j): [] for j in range(len(cols))})
    return None
def is_id(m): return all(not f.w for f in m)
def mulmono(a, b):
    if len(a) == len(b) and all(same(x.c, y.r) for x, y in zip(a, b)):
        return tuple(Fac(x.r, y.c, x.w + y.w) for x, y in zip(a, b))
    if is_id(a): return b
    if is_id(b): return a
    return None
def mul(a, b):
    if a is None or b is None: return None
    if len(a.cols) != len(b.rows) or not all(same(x, y) for x, y in zip(a.cols, b.rows)): return None
    e = {}
    for i in range(len(a.rows)):
        for j in range(len(b.cols)):
            ms = []
            for k in range(len(a.cols)):
                for m in a.e[i, k]:
                    for n in b.e[k, j]:
                        p = mulmono(m, n)
                        if p is None: return None
                        ms.append(p)
            e[i, j] = reduce_(ms)
    return Blk(a.rows, b.cols, e)
def add(a, b):
    if a is None or b is None: return None
    if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols): return None
    if not all(same(x, y) for x, y in zip(a.rows + a.cols, b.rows + b.cols)): return None
    return Blk(a.rows, a.cols, {k: reduce_(a.e[k] + b.e[k]) for k in a.e})
def is_zero(b): return b is not None and all(not ms for ms in b.e.values())
def equal(a, b):
    s = add(a, b)
    return is_zero(s)
def show(b, names):
    if b is None: return "?"
    def w(f): return "I" if not f.w else ".".join(names.get(a, "?") + ("'" if t else "") for a, t in f.w)
    return [[" + ".join("(x)".join(w(f) for f in m) for m in b.e[i, j]) or "0" for j in range(len(b.cols))] for i in range(len(b.rows))]
