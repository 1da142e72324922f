"""pyvc core: symbolic scalars, path exploration, obligations, GF(2)/integer sums, solver front end.

The engine executes the *real* source (mechanically transformed, see pyfront.py / cxx.py) on symbolic
values.  Branching on a symbolic Bool forks the path (re-execution); loops over symbolic ranges are
discharged by the loop rules in loops.py.  Every claim becomes a named obligation decided by z3.
Python/C++ integers are treated as mathematical integers.
"""
from __future__ import annotations
import itertools, os, time, fractions, re
import z3

class Unsupported(BaseException):
    """The engine cannot represent this construct: the obligation stays undischarged."""

class PathEnd(BaseException):
    """Current path is infeasible or deliberately cut."""

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SUMI = z3.Function("SUM", I, I, z3.ArraySort(I, I), I)
SUMR = z3.Function("SUMR", I, I, z3.ArraySort(I, R), R)
PAR = z3.Function("PAR", I, I, z3.ArraySort(I, B), B)
ACC = {SUMI.get_id() if hasattr(SUMI, "get_id") else None}

_fresh = itertools.count()
_epoch = itertools.count()
def born(): return next(_epoch)

def fresh(name, sort=I):
    return z3.Const(f"{name}!{next(_fresh)}", sort)

def fresh_fn(name, *sorts):
    return z3.Function(f"{name}!{next(_fresh)}", *sorts)

_simp_cache = {}
def simp(t):
    return z3.simplify(t)

def is_acc(t):
    return z3.is_app(t) and t.decl().name() in ("SUM", "SUMR", "PAR") and t.num_args() == 3

# ---------------------------------------------------------------- lifting
INF = z3.Real("INF!")

def lift(x):
    if isinstance(x, V): return x.t
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x == float("inf"): return INF
        if x == float("-inf"): return -INF
        f = fractions.Fraction(repr(x)) if x == x else None
        if f is None: raise Unsupported("nan")
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, fractions.Fraction): return z3.RealVal(f"{x.numerator}/{x.denominator}")
    tn = type(x).__module__
    if tn == "numpy":
        return lift(x.item())
    if hasattr(x, "__vc_scalar__"): return x.__vc_scalar__()
    raise Unsupported(f"cannot lift {type(x).__name__}")

def to_int(t):
    s = t.sort()
    if s == B:
        if z3.is_true(t): return z3.IntVal(1)
        if z3.is_false(t): return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if s == I: return t
    if s == R:
        return z3.ToInt(t)
    raise Unsupported("to_int")

def to_real(t):
    if t.sort() == R: return t
    t = to_int(t)
    if z3.is_int_value(t): return z3.RealVal(t.as_long())
    return z3.ToReal(t)

def to_bool(t):
    s = t.sort()
    if s == B: return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = t.arg(1), t.arg(2)
        if (z3.is_int_value(a) or z3.is_rational_value(a)) and (z3.is_int_value(b) or z3.is_rational_value(b)):
            az, bz = is_zero(a), is_zero(b)
            if az and bz: return z3.BoolVal(False)
            if not az and not bz: return z3.BoolVal(True)
            return t.arg(0) if bz else z3.Not(t.arg(0))
    return t != 0

def is_zero(a):
    return a.as_fraction() == 0 if z3.is_rational_value(a) else a.as_long() == 0

def unify(a, b):
    if a.sort() == b.sort() and a.sort() != B: return a, b
    if a.sort() == R or b.sort() == R: return to_real(a), to_real(b)
    return to_int(a), to_int(b)

def const_int(x):
    """host int if x is a concrete (or simplifies to a concrete) integer else None"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, V):
        t = x.t
        if t.sort() == B:
            t = to_int(t)
        t = simp(t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_rational_value(t) and t.denominator_as_long() == 1: return t.numerator_as_long()
    return None

def mk(t, np=False):
    """V, or host constant when it simplifies to one"""
    if isinstance(t, (int, bool, float)): return t
    t = simp(t)
    if not np:
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    if z3.is_int_value(t): return t.as_long()
    return V(t, np)

# ---------------------------------------------------------------- parity / sums
def depends(t, v):
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i == vid: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def depends_any(t, ids):
    seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_app(x) and x.num_args() > 0 and x.decl().get_id() in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def lam_depth(t):
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if z3.is_quantifier(x): r = 1 + go(x.body())
        else: r = max((go(c) for c in x.children()), default=0)
        memo[i] = r
        return r
    return go(t)

def mklam(k, body):
    d = lam_depth(body)
    c = z3.Int(f"k~{d}")
    return z3.Lambda([c], z3.simplify(z3.substitute(body, (k, c)), sort_sums=True))

def apply_lam(lam, x):
    if z3.is_quantifier(lam) and lam.is_lambda():
        return z3.substitute_vars(lam.body(), x)
    return z3.Select(lam, x)

def odd(t):
    """Bool term: t is odd (t an Int term)."""
    if t.sort() == B: return t
    if t.sort() == R:
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return odd(t.arg(0))
        if z3.is_rational_value(t) and t.denominator_as_long() == 1: return z3.BoolVal(t.numerator_as_long() % 2 == 1)
        if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), odd(t.arg(1)), odd(t.arg(2)))
        if z3.is_add(t) or z3.is_sub(t):
            r = odd(t.arg(0))
            for c in t.children()[1:]: r = xor(r, odd(c))
            return r
        if z3.is_mul(t): return z3.And(*[odd(c) for c in t.children()])
        raise Unsupported("parity of a real term")
    if z3.is_int_value(t): return z3.BoolVal(t.as_long() % 2 == 1)
    if z3.is_add(t) or z3.is_sub(t):
        r = odd(t.arg(0))
        for c in t.children()[1:]: r = xor(r, odd(c))
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS): return odd(t.arg(0))
    if z3.is_mul(t):
        return simp(z3.And(*[odd(c) for c in t.children()]))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return simp(z3.If(t.arg(0), odd(t.arg(1)), odd(t.arg(2))))
    if z3.is_mod(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() % 2 == 0:
        return odd(t.arg(0))
    if is_acc(t):
        k = fresh("k")
        return par(t.arg(0), t.arg(1), lambda kk: odd(apply_lam(t.arg(2), kk)))
    return (t % 2) == 1

def xor(a, b):
    """exclusive or in a cancelled normal form"""
    if z3.is_false(a): return b
    if z3.is_false(b): return a
    if z3.is_true(a): return simp(z3.Not(b))
    if z3.is_true(b): return simp(z3.Not(a))
    if a.eq(b): return z3.BoolVal(False)
    terms, flip = {}, False
    st = [b, a]
    while st:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_XOR): st.extend(reversed(x.children()))
        elif z3.is_eq(x) and x.arg(0).sort() == B: flip = not flip; st.extend([x.arg(1), x.arg(0)])
        elif z3.is_not(x): flip = not flip; st.append(x.arg(0))
        elif z3.is_true(x): flip = not flip
        elif z3.is_false(x): pass
        else:
            i = x.get_id()
            if i in terms: del terms[i]
            else: terms[i] = x
    ts = list(terms.values())
    if not ts: return z3.BoolVal(flip)
    r = ts[0]
    for t in ts[1:]: r = z3.Xor(r, t)
    return z3.Not(r) if flip else r

def mod2(t):
    return z3.If(odd(t), z3.IntVal(1), z3.IntVal(0))

def _conj(t):
    if z3.is_and(t):
        r = []
        for c in t.children(): r += _conj(c)
        return r
    if z3.is_not(t) and z3.is_or(t.arg(0)):
        r = []
        for c in t.arg(0).children(): r += _conj(simp(z3.Not(c)))
        return r
    return [t]

def _kbound(c, k):
    """recognise c as  k<e  ->('ub',e)   k>=e -> ('lb',e)   k==e -> ('eq',e) ; e free of k"""
    neg = False
    while z3.is_not(c):
        c = c.arg(0); neg = not neg
    if not z3.is_app(c) or c.num_args() != 2: return None
    kd = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    if a.sort() != I: return None
    OPS = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}
    if kd not in OPS: return None
    op = OPS[kd]
    d = simp(a - b)                       # d op 0
    dk = simp(z3.substitute(d, (k, k + 1)) - d)
    dk = simp(dk)
    if not z3.is_int_value(dk) or abs(dk.as_long()) != 1: return None
    s = dk.as_long()
    rest = simp(d - s * k)
    if depends(rest, k): 
        rest = simp(z3.substitute(d, (k, z3.IntVal(0))))
        if depends(rest, k): return None
    # s*k + rest op 0
    if op == "eq":
        if neg: return ("ne", simp(-s * rest))
        return ("eq", simp(-s * rest))
    if neg: op = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le"}[op]
    if s == -1: # -k + rest op 0  ->  k flip-op rest
        op = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}[op]; e = rest
    else: e = simp(-rest)
    # k op e
    if op == "le": return ("ub", simp(e + 1))
    if op == "lt": return ("ub", e)
    if op == "ge": return ("lb", e)
    return ("lb", simp(e + 1))

def tmin(a, b):
    if a.eq(b): return a
    if E.entails(a <= b): return a
    if E.entails(b <= a): return b
    return z3.If(a <= b, a, b)

def tmax(a, b):
    if a.eq(b): return a
    if E.entails(a <= b): return b
    if E.entails(b <= a): return a
    return z3.If(a <= b, b, a)

def par(lo, hi, fn):
    """parity of the number of k in [lo,hi) with fn(k)"""
    lo, hi = lift(lo), lift(hi)
    k = fresh("k")
    body = fn(k)
    return _par(simp(lo), simp(hi), k, simp(body))

def _par(lo, hi, k, body):
    if z3.is_false(body): return z3.BoolVal(False)
    n = simp(hi - lo)
    if z3.is_int_value(n):
        if n.as_long() <= 0: return z3.BoolVal(False)
        if n.as_long() <= 8:
            r = z3.BoolVal(False)
            for j in range(n.as_long()):
                r = xor(r, simp(z3.substitute(body, (k, simp(lo + j)))))
            return r
    if z3.is_app_of(body, z3.Z3_OP_XOR):
        r = _par(lo, hi, k, body.arg(0))
        for c in body.children()[1:]: r = xor(r, _par(lo, hi, k, c))
        return r
    if z3.is_not(body) and not _kbound(body, k):
        a = body.arg(0)
        return simp(xor(_par(lo, hi, k, a), _len_par(lo, hi)))
    if z3.is_eq(body) and body.arg(0).sort() == B:
        return simp(xor(xor(_par(lo, hi, k, body.arg(0)), _par(lo, hi, k, body.arg(1))), _len_par(lo, hi)))
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        c, a, b = body.arg(0), body.arg(1), body.arg(2)
        if not depends(c, k): return simp(z3.If(c, _par(lo, hi, k, a), _par(lo, hi, k, b)))
        return xor(_par(lo, hi, k, simp(z3.And(c, a))), _par(lo, hi, k, simp(z3.And(z3.Not(c), b))))
    cs = _conj(body)
    ind = [c for c in cs if not depends(c, k)]
    dep = [c for c in cs if depends(c, k)]
    if ind:
        inner = _par(lo, hi, k, simp(z3.And(*dep))) if dep else _len_par(lo, hi)
        return simp(z3.And(*ind, inner))
    for j, c in enumerate(dep):
        kb = _kbound(c, k)
        if not kb: continue
        rest = dep[:j] + dep[j + 1:]
        if kb[0] == "eq":
            e = kb[1]
            return simp(z3.And(lo <= e, e < hi, *[z3.substitute(r, (k, e)) for r in rest]))
        if kb[0] == "ub":
            return _par(lo, simp(tmin(hi, kb[1])), k, simp(z3.And(*rest)) if rest else z3.BoolVal(True))
        if kb[0] == "lb":
            return _par(simp(tmax(lo, kb[1])), hi, k, simp(z3.And(*rest)) if rest else z3.BoolVal(True))
    # Shannon expansion over nested conditions that do not depend on k, and range splits at nested bounds
    ats = _atoms(body)
    if len(ats) > len(dep) and len(ats) <= 24:
        for c in sorted((c for c in ats if not depends(c, k)), key=lambda c: c.sexpr()):
            t = simp(z3.substitute(body, (c, z3.BoolVal(True)))); f = simp(z3.substitute(body, (c, z3.BoolVal(False))))
            return simp(z3.If(c, _par(lo, hi, k, t), _par(lo, hi, k, f)))
        for c in sorted((c for c in ats if depends(c, k)), key=lambda c: c.sexpr()):
            kb = _kbound(c, k)
            if not kb or kb[0] in ("eq", "ne"): continue
            e = kb[1]; T, F = z3.BoolVal(True), z3.BoolVal(False)
            below, above = (T, F) if kb[0] == "ub" else (F, T)
            b = simp(z3.substitute(body, (c, below))); a = simp(z3.substitute(body, (c, above)))
            dl, dh = simp(e - lo), simp(e - hi)
            if z3.is_int_value(dl) and dl.as_long() <= 0: return _par(lo, hi, k, a)
            if z3.is_int_value(dh) and dh.as_long() >= 0: return _par(lo, hi, k, b)
            if E.entails(e <= lo): return _par(lo, hi, k, a)
            if E.entails(e >= hi): return _par(lo, hi, k, b)
            return xor(_par(lo, simp(tmin(hi, e)), k, b), _par(simp(tmax(lo, e)), hi, k, a))
    for j, c in enumerate(dep):     # distribute over ite / xor inside a conjunction
        rest = dep[:j] + dep[j + 1:]
        if z3.is_app_of(c, z3.Z3_OP_ITE):
            return xor(_par(lo, hi, k, simp(z3.And(c.arg(0), c.arg(1), *rest))), _par(lo, hi, k, simp(z3.And(z3.Not(c.arg(0)), c.arg(2), *rest))))
        if z3.is_app_of(c, z3.Z3_OP_XOR):
            r = z3.BoolVal(False)
            for a in c.children(): r = xor(r, _par(lo, hi, k, simp(z3.And(a, *rest))))
            return r
        if z3.is_eq(c) and c.arg(0).sort() == B:
            rb = simp(z3.And(*rest)) if rest else z3.BoolVal(True)
            return xor(_par(lo, hi, k, rb), xor(_par(lo, hi, k, simp(z3.And(c.arg(0), *rest))), _par(lo, hi, k, simp(z3.And(c.arg(1), *rest)))))
        if z3.is_not(c) and z3.is_app_of(c.arg(0), z3.Z3_OP_XOR):
            return xor(_par(lo, hi, k, simp(z3.And(*rest)) if rest else z3.BoolVal(True)), _par(lo, hi, k, simp(z3.And(c.arg(0), *rest))))
    if not z3.is_int_value(lo) or lo.as_long() != 0:
        body = simp(z3.substitute(body, (k, k + lo)))
        hi = simp(hi - lo); lo = z3.IntVal(0)
    body = canon_and(body)
    return PAR(lo, hi, mklam(k, body))

def _atoms(t):
    """maximal Boolean subterms of t that are not connectives"""
    out = {}; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_app_of(x, z3.Z3_OP_XOR) or z3.is_implies(x)
                             or (z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() == B) or (z3.is_eq(x) and x.arg(0).sort() == B)): st.extend(x.children())
        elif z3.is_true(x) or z3.is_false(x): pass
        else: out[x.get_id()] = x
    return list(out.values())

def canon_and(body):
    if z3.is_and(body):
        cs = sorted(_conj(body), key=lambda c: c.sexpr())
        out = []
        for c in cs:
            if not out or not out[-1].eq(c): out.append(c)
        return z3.And(*out) if len(out) > 1 else out[0]
    return body

def _len_par(lo, hi):
    n = simp(hi - lo)
    if z3.is_int_value(n): return z3.BoolVal(n.as_long() > 0 and n.as_long() % 2 == 1)
    if E.entails(n >= 0): return odd(n)
    return z3.And(n > 0, odd(n))

def ssum(lo, hi, fn):
    lo, hi = simp(lift(lo)), simp(lift(hi))
    k = fresh("k")
    body = simp(to_arith(fn(k)))
    return _sum(lo, hi, k, body)

def to_arith(t):
    return to_int(t) if t.sort() == B else t

def _sum(lo, hi, k, body):
    zero = z3.RealVal(0) if body.sort() == R else z3.IntVal(0)
    if (z3.is_int_value(body) or z3.is_rational_value(body)) and is_zero(body): return zero
    n = simp(hi - lo)
    if z3.is_int_value(n):
        if n.as_long() <= 0: return zero
        if n.as_long() <= 8:
            return simp(z3.Sum(*[z3.substitute(body, (k, simp(lo + j))) for j in range(n.as_long())]))
    if not depends(body, k):
        if E.entails(n >= 0): return simp(n * body)
        return simp(z3.If(n > 0, n * body, zero))
    if z3.is_add(body) or z3.is_sub(body):
        r = _sum(lo, hi, k, body.arg(0))
        for c in body.children()[1:]:
            x = _sum(lo, hi, k, c)
            r = r + x if z3.is_add(body) else r - x
        return simp(r)
    if z3.is_app_of(body, z3.Z3_OP_UMINUS): return simp(-_sum(lo, hi, k, body.arg(0)))
    if z3.is_mul(body):
        ind = [c for c in body.children() if not depends(c, k)]
        dep = [c for c in body.children() if depends(c, k)]
        if ind and dep:
            return simp(z3.Product(*ind) * _sum(lo, hi, k, simp(z3.Product(*dep)) if len(dep) > 1 else dep[0]))
        for j, c in enumerate(dep):
            if z3.is_app_of(c, z3.Z3_OP_ITE):
                rest = dep[:j] + dep[j + 1:]
                rp = rest[0] if len(rest) == 1 else z3.Product(*rest)
                return _sum(lo, hi, k, simp(z3.If(c.arg(0), c.arg(1) * rp, c.arg(2) * rp)))
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        c, a, b = body.arg(0), body.arg(1), body.arg(2)
        if not depends(c, k): return simp(z3.If(c, _sum(lo, hi, k, a), _sum(lo, hi, k, b)))
        az = (z3.is_int_value(a) or z3.is_rational_value(a)) and is_zero(a)
        bz = (z3.is_int_value(b) or z3.is_rational_value(b)) and is_zero(b)
        if az: c, a, b, az, bz = simp(z3.Not(c)), b, a, bz, True
        if bz:
            cs = _conj(c)
            ind = [x for x in cs if not depends(x, k)]
            dep = [x for x in cs if depends(x, k)]
            if ind:
                return simp(z3.If(z3.And(*ind), _sum(lo, hi, k, simp(z3.If(z3.And(*dep), a, zero))), zero))
            for j, x in enumerate(dep):
                kb = _kbound(x, k)
                if not kb: continue
                rest = dep[:j] + dep[j + 1:]
                rb = simp(z3.If(z3.And(*rest), a, zero)) if rest else a
                if kb[0] == "eq":
                    e = kb[1]
                    return simp(z3.If(z3.And(lo <= e, e < hi), z3.substitute(rb, (k, e)), zero))
                if kb[0] == "ub": return _sum(lo, simp(tmin(hi, kb[1])), k, rb)
                if kb[0] == "lb": return _sum(simp(tmax(lo, kb[1])), hi, k, rb)
            if z3.is_add(a) :
                r = zero
                for x in a.children(): r = r + _sum(lo, hi, k, simp(z3.If(c, x, zero)))
                return simp(r)
        else:
            return simp(_sum(lo, hi, k, simp(z3.If(c, a, zero))) + _sum(lo, hi, k, simp(z3.If(c, zero, b))))
    if not z3.is_int_value(lo) or lo.as_long() != 0:
        body = simp(z3.substitute(body, (k, k + lo)))
        hi = simp(hi - lo); lo = z3.IntVal(0)
    return (SUMR if body.sort() == R else SUMI)(lo, hi, mklam(k, body))

def _match(p, g, ids, sub):
    """first-order match of pattern p against ground g; variables given by ids (term id -> index)"""
    i = ids.get(p.get_id())
    if i is not None:
        if i in sub: return sub[i].eq(g)
        if _has_var(g): return False
        sub[i] = g; return True
    if p.eq(g): return True
    if z3.is_quantifier(p):
        return z3.is_quantifier(g) and p.is_lambda() == g.is_lambda() and p.num_vars() == g.num_vars() and _match(p.body(), g.body(), ids, sub)
    if z3.is_var(p) or z3.is_var(g) or z3.is_quantifier(g): return False
    if p.num_args() != g.num_args() or not p.decl().eq(g.decl()): 
        return False
    if p.num_args() == 0: return False
    if z3.is_add(p) and p.num_args() == 2:
        # a + x : try both orders, and x := g - a
        s0 = dict(sub)
        if _match(p.arg(0), g.arg(0), ids, sub) and _match(p.arg(1), g.arg(1), ids, sub): return True
        sub.clear(); sub.update(s0)
        if _match(p.arg(0), g.arg(1), ids, sub) and _match(p.arg(1), g.arg(0), ids, sub): return True
        sub.clear(); sub.update(s0); return False
    if z3.is_and(p):
        return _match_ac(list(p.children()), list(g.children()), ids, sub)
    return all(_match(a, b, ids, sub) for a, b in zip(p.children(), g.children()))

def _match_ac(ps, gs, ids, sub):
    if not ps: return True
    for j, g in enumerate(gs):
        s0 = dict(sub)
        if _match(ps[0], g, ids, sub) and _match_ac(ps[1:], gs[:j] + gs[j + 1:], ids, sub): return True
        sub.clear(); sub.update(s0)
    return False

_qmemo = {}
def _quant(t):
    """contains a quantifier (lambdas included)"""
    i = t.get_id()
    if i in _qmemo: return _qmemo[i][0]
    st = [t]; seen = set(); r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st.extend(x.children())
    _qmemo[i] = (r, t)
    return r

def _has_var(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x): return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

# ---------------------------------------------------------------- V
class V:
    __slots__ = ("t", "np")
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, t, np=False):
        self.t = t; self.np = np
    def _bin(self, o, f, cmp=False):
        if isinstance(o, (V, bool, int, float, z3.ExprRef)) or type(o).__module__ == "numpy" or hasattr(o, "__vc_scalar__"):
            a, b = unify(self.t, lift(o))
            r = f(a, b)
            return mk(r, (self.np or getattr(o, "np", False)) and cmp)
        return NotImplemented
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mk(-to_arith(self.t))
    def __pos__(self): return self
    def __abs__(self): 
        t = to_arith(self.t)
        return mk(z3.If(t >= 0, t, -t))
    def __mod__(self, o): return self._bin(o, smod)
    def __rmod__(self, o): return self._bin(o, lambda a, b: smod(b, a))
    def __floordiv__(self, o): return self._bin(o, sdiv)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: sdiv(b, a))
    def __truediv__(self, o): return self._bin(o, rdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: rdiv(b, a))
    def __pow__(self, o):
        c = const_int(o)
        if c is not None and 0 <= c <= 4:
            r = z3.IntVal(1) if self.t.sort() != R else z3.RealVal(1)
            for _ in range(c): r = r * to_arith(self.t)
            return mk(r)
        return mk(POW(to_real(self.t), to_real(lift(o))))
    def __rpow__(self, o):
        ob = const_int(o)
        if ob is not None and ob >= 1 and self.t.sort() == I and E.entails(self.t >= 0):   # integer power of a positive base
            r = IPOW(z3.IntVal(ob), self.t); E.assume(r >= 1)
            return mk(r)
        return mk(POW(to_real(lift(o)), to_real(self.t)))
    def __xor__(self, o): return self._bin2(o, xor, lambda a, b: z3.If(xor(odd(a), odd(b)), z3.IntVal(1), z3.IntVal(0)))
    __rxor__ = __xor__
    def __and__(self, o): return self._bin2(o, lambda a, b: z3.And(a, b), lambda a, b: z3.If(z3.And(odd(a), odd(b)), z3.IntVal(1), z3.IntVal(0)))
    __rand__ = __and__
    def __or__(self, o): return self._bin2(o, lambda a, b: z3.Or(a, b), lambda a, b: z3.If(z3.Or(odd(a), odd(b)), z3.IntVal(1), z3.IntVal(0)))
    __ror__ = __or__
    def _bin2(self, o, fb, fi):
        if isinstance(o, (V, bool, int)) or type(o).__module__ == "numpy":
            a, b = self.t, lift(o)
            if a.sort() == B and b.sort() == B: return mk(fb(a, b), self.np)
            a, b = to_int(a), to_int(b)
            for x in (a, b):
                if not E.entails(z3.And(x >= 0, x <= 1)): raise Unsupported("bitwise op on non-binary integers")
            return mk(fi(a, b))
        return NotImplemented
    def __invert__(self):
        if self.t.sort() == B and self.np: return mk(z3.Not(self.t), True)
        return mk(-to_int(self.t) - 1)
    def __eq__(self, o): 
        if o is None: return False
        if isinstance(o, str): return False
        r = self._bin(o, lambda a, b: a == b, True)
        return r
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._bin(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)
    def __hash__(self): return hash(self.t)
    def __bool__(self): return E.branch(to_bool(self.t))
    def __index__(self):
        c = const_int(self)
        if c is not None: return c
        c = E.unique_int(to_int(self.t))
        if c is not None: return c
        raise Unsupported("symbolic value used as a concrete index")
    def __int__(self): return self.__index__()
    def __float__(self): raise Unsupported("float() of symbolic value outside model")
    def __repr__(self): return f"V({self.t})"
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    # numpy-scalar-like
    def any(self): return mk(to_bool(self.t), True)
    def all(self): return mk(to_bool(self.t), True)
    def item(self): return V(self.t)
    def astype(self, *_): return self
    def copy(self): return self

POW = z3.Function("POW", R, R, R)
IPOW = z3.Function("IPOW", I, I, I)

def smod(a, b):
    if a.sort() == R or b.sort() == R:
        if z3.is_rational_value(b) and b.as_fraction() == 2:
            return z3.If(odd(a), z3.RealVal(1), z3.RealVal(0))
        raise Unsupported("real modulo")
    if z3.is_int_value(b):
        if b.as_long() == 2: return mod2(a)
        if b.as_long() > 0: return a % b
        raise Unsupported("modulo non-positive constant")
    E.oblige_rt("modulus is positive", b > 0)
    return a % b

def sdiv(a, b):
    if a.sort() == R or b.sort() == R: raise Unsupported("real floor division")
    if z3.is_int_value(b) and b.as_long() > 0: return a / b
    E.oblige_rt("divisor is positive", b > 0)
    return a / b

def rdiv(a, b):
    a, b = to_real(a), to_real(b)
    if not z3.is_rational_value(b):
        E.side_div(b)
    elif b.as_fraction() == 0:
        raise ZeroDivisionError("division by zero")
    return a / b

# ---------------------------------------------------------------- exploration
class Ctx:
    def __init__(self, prefix):
        self.prefix = prefix; self.taken = []; self.pc = []; self.alts = []; self.journal = {}; self.facts = 0; self.eid = None; self.nsk = 0; self.nex = 0

class Path:
    __slots__ = ("pc", "result", "exc", "info", "facts")
    def __init__(self, pc, result, exc, info=None):
        self.pc, self.result, self.exc, self.info = pc, result, exc, info
    @property
    def guard(self): return z3.And(*self.pc) if self.pc else z3.BoolVal(True)

class Obl:
    def __init__(self, name, status, detail="", secs=0.0, fn=""):
        self.name, self.status, self.detail, self.secs, self.fn = name, status, detail, secs, fn

class Engine:
    def __init__(self):
        self.reset()
    def reset(self):
        self.base = []          # global assumptions
        self.ctxs = []
        self.obls = []
        self.trusted = {}
        self.solver_time = 0.0
        self.queries = 0
        self.cur = ""
        self.timeout = 10000
        self.max_paths = 4000
        self.sel_memo = {}
        self.functions = {}     # functions under contract -> source digest
        self._cache = {}
        self._skm = {}; self._nexp = 0
        self.raise_div = False
        self.loops = {}
        self.loop_ctx = []      # indices of the loops whose generic iteration is being executed
    def skolem(self, name, sort=I, args=()):
        """free symbol chosen by the environment/contract; depends on the enclosing generic iterations"""
        a = list(self.loop_ctx) + list(args)
        f = None
        if self.ctxs and self.ctxs[-1].eid is not None:
            # paths of one exploration that agree up to this point share the symbol (it denotes the same value)
            ctx = self.ctxs[-1]; ctx.nsk += 1
            key = (ctx.eid, tuple(bool(d[0]) if isinstance(d[0], bool) else d[0] for d in ctx.taken), ctx.nsk, name, sort.name(), len(a))
            f = self._skm.get(key)
            if f is None: f = self._skm[key] = fresh("sk_" + name, sort) if not a else fresh_fn("sk_" + name, *[x.sort() for x in a], sort)
        if not a: return f if f is not None else fresh("sk_" + name, sort)
        return (f if f is not None else fresh_fn("sk_" + name, *[x.sort() for x in a], sort))(*a)
    def _eid(self):
        if self.ctxs and self.ctxs[-1].eid is not None:
            c = self.ctxs[-1]; c.nex += 1
            return (c.eid, tuple(d[0] for d in c.taken), c.nex)
        self._nexp += 1
        return (self._nexp,)
    # -- assumptions
    def hyps(self):
        r = list(self.base)
        for c in self.ctxs: r += c.pc
        return r
    def assume(self, t):
        t = lift(t)
        t = simp(t)
        if z3.is_true(t): return
        if z3.is_false(t): raise PathEnd()
        if self.ctxs: self.ctxs[-1].facts += 1
        (self.ctxs[-1].pc if self.ctxs else self.base).append(t)
    def trust(self, what):
        self.trusted[what] = self.trusted.get(what, 0) + 1
    # -- solver
    def _check(self, fs, timeout, want_model=False):
        key = (frozenset(f.get_id() for f in fs))
        if not want_model and key in self._cache: 
            r, keep = self._cache[key]
            if r != z3.unknown: return r, None
        s = z3.Solver()
        s.set("timeout", timeout * 8); s.set("rlimit", timeout * 1200)   # rlimit: same verdict on a loaded machine
        s.add(*fs)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.solver_time += time.time() - t0
        self.queries += 1
        m = s.model() if (want_model and r == z3.sat) else None
        self._cache[key] = (r, fs)
        return r, m
    def entails(self, t, timeout=1500):
        t = simp(t)
        if z3.is_true(t): return True
        if z3.is_false(t): 
            return False
        hy = self.hyps()
        qf = [h for h in hy if not _quant(h)]
        if len(qf) < len(hy):
            if _quant(t): timeout = min(timeout, 250)
            r, _ = self._check(qf + [z3.Not(t)], timeout)
            if r == z3.unsat: return True
            timeout = min(timeout, 250)
        elif _quant(t): timeout = min(timeout, 250)
        r, _ = self._check(hy + [z3.Not(t)], timeout)
        return r == z3.unsat
    def feasible(self, t=None, timeout=500):
        fs = self.hyps() + ([t] if t is not None else [])
        r, _ = self._check(fs, timeout)
        return r != z3.unsat
    def unique_int(self, t):
        s = z3.Solver(); s.set("timeout", 2000); s.add(*self.hyps())
        if s.check() != z3.sat: return None
        v = s.model().eval(t, model_completion=True)
        if not z3.is_int_value(v): return None
        s.add(t != v)
        return v.as_long() if s.check() == z3.unsat else None
    # -- branching
    def branch(self, c):
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.ctxs:
            if self.entails(c): return True
            if self.entails(z3.Not(c)): return False
            raise Unsupported("branch on symbolic condition outside exploration")
        ctx = self.ctxs[-1]
        n = len(ctx.taken)
        if n < len(ctx.prefix):
            d = ctx.prefix[n]
            ctx.taken.append(d)
            if d[1]: ctx.pc.append(c if d[0] else simp(z3.Not(c)))
            return d[0]
        if self.entails(c):
            ctx.taken.append((True, False)); return True
        if self.entails(z3.Not(c)):
            ctx.taken.append((False, False)); return False
        ctx.alts.append(list(ctx.taken) + [(False, True)])
        ctx.taken.append((True, True)); ctx.pc.append(c)
        return True
    def choose(self, n):
        """nondeterministic choice 0..n-1 (path fork)"""
        ctx = self.ctxs[-1]
        k = len(ctx.taken)
        if k < len(ctx.prefix):
            d = ctx.prefix[k]; ctx.taken.append(d); return d[0]
        for j in range(1, n): ctx.alts.append(list(ctx.taken) + [(j, False)])
        ctx.taken.append((0, False))
        return 0
    def explore(self, fn, on_path=None, setup=None):
        """run fn under all paths; returns list of Path. on_path(path) runs inside the path context."""
        work = [[]]
        out = []
        eid = self._eid()
        while work:
            if len(out) > self.max_paths: raise Unsupported("too many paths")
            prefix = work.pop()
            ctx = Ctx(prefix); ctx.eid = eid
            self.ctxs.append(ctx)
            try:
                exc = None; res = None; ended = False
                try:
                    if setup: setup()
                    res = fn()
                except PathEnd:
                    ended = True
                except (Unsupported, z3.Z3Exception, RecursionError):
                    raise
                except Exception as e:  # exception raised by the code under verification
                    tb = e.__traceback__
                    while tb is not None and tb.tb_next is not None: tb = tb.tb_next
                    own = isinstance(e, NotImplementedError) and tb is not None and tb.tb_frame.f_code.co_filename.startswith("<vc:")
                    if own: pass                                                # raised by a raise statement of the code itself
                    elif isinstance(e, (AttributeError, NameError, NotImplementedError)) or \
                       (isinstance(e, TypeError)) or getattr(e, "__vc_internal__", False):
                        import traceback
                        raise Unsupported(f"{type(e).__name__}: {e} @ {traceback.format_exc().strip().splitlines()[-3:]}") from e
                    exc = e
                    if os.environ.get("VC_TB"): import traceback; traceback.print_exc()
                if not ended and not self.feasible(timeout=60): ended = True
                if not ended:
                    p = Path(list(ctx.pc), res, exc)
                    if on_path: 
                        p.info = on_path(p)
                    p.pc = list(ctx.pc); p.facts = ctx.facts
                    out.append(p)
                work += ctx.alts
            finally:
                self.rollback(ctx)
                self.ctxs.pop()
        return out
    # -- journal
    def touch(self, obj):
        for ctx in reversed(self.ctxs):
            k = id(obj)
            if k not in ctx.journal: ctx.journal[k] = (obj, obj._vc_save())
            break
    def rollback(self, ctx):
        for obj, st in ctx.journal.values():
            # propagate knowledge of the mutation is unnecessary: outer journal keeps its own copy
            obj._vc_load(st)
        ctx.journal = {}
    # -- obligations
    def prove(self, goal, timeout=None):
        """returns (status, detail): proved / refuted / unknown"""
        timeout = timeout or self.timeout
        goal = lift(goal)
        return self._prove(self.hyps(), goal, timeout, 0)
    def _prove(self, hyps, goal, timeout, depth):
        goal = simp(goal)
        if z3.is_true(goal): return "proved", ""
        if z3.is_and(goal):
            for c in goal.children():
                st, d = self._prove(hyps, c, timeout, depth)
                if st != "proved": return st, d
            return "proved", ""
        if z3.is_implies(goal):
            return self._prove(hyps + [goal.arg(0)], goal.arg(1), timeout, depth)
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [fresh("sk", goal.var_sort(i)) for i in range(goal.num_vars())]
            return self._prove(hyps, z3.substitute_vars(goal.body(), *reversed(vs)), timeout, depth)
        if z3.is_or(goal):
            # turn  not a or forall.. into hypotheses form
            qs = [c for c in goal.children() if z3.is_quantifier(c) and c.is_forall()]
            if qs:
                q = qs[0]
                rest = [c for c in goal.children() if not c.eq(q)]
                vs = [fresh("sk", q.var_sort(i)) for i in range(q.num_vars())]
                return self._prove(hyps + [simp(z3.Not(c)) for c in rest], z3.substitute_vars(q.body(), *reversed(vs)), timeout, depth)
        neg = simp(z3.Not(goal))
        r, m = self._check(hyps + [neg], min(timeout, 300))
        if r == z3.unsat: return "proved", "z3"
        hyps = self._skolemized(hyps + [neg]); neg = hyps.pop()
        inst = self._instances(hyps + [neg])
        if inst:
            qf = [f for f in hyps + inst + [neg] if not z3.is_quantifier(f)]
            r, m = self._check(qf, min(timeout, 1500))
            if r == z3.unsat: return "proved", "z3+instances"
            lem = self._acc_lemmas(qf, depth)
            if lem is not None:
                r, m = self._check(lem, min(timeout, 3000))
                if r == z3.unsat: return "proved", "z3+instances+sum-congruence"
            hyps = hyps + inst
        elif r == z3.unknown:
            r, m = self._check(hyps + [neg], min(timeout, 1500))
            if r == z3.unsat: return "proved", "z3"
        if inst:
            r, m = self._check(hyps + [neg], min(timeout, 3000))
            if r == z3.unsat: return "proved", "z3+instances"
        # congruence lemmas for sums / parities
        lem = self._acc_lemmas(hyps + [neg], depth)
        if lem is not None:
            fs = lem
            r, m = self._check(fs, timeout, True)
            if r == z3.unsat: return "proved", "z3+sum-congruence"
        else:
            r, m = self._check(hyps + [neg], timeout, True)
            if r == z3.unsat: return "proved", "z3"
        if r == z3.unknown:
            # one more try: case split on ITE / Or is left to the solver; try different seed
            s = z3.Solver(); s.set("timeout", timeout); s.set("random_seed", 7); s.set("smt.mbqi", False) if False else None
            s.add(*(lem or (hyps + [neg])))
            t0 = time.time(); r = s.check(); self.solver_time += time.time() - t0
            if r == z3.unsat: return "proved", "z3(seed7)"
            if r == z3.sat: m = s.model()
            else:
                c5 = self._cvc5(lem or (hyps + [neg]), timeout)
                if c5: return "proved", "cvc5"
        if r == z3.sat:
            return "refuted", str(m)[:1500] if m is not None else "sat"
        return "unknown", s.reason_unknown() if r == z3.unknown else str(r)
    def _skolemized(self, fs):
        """top-level existentials (negated universals) replaced by fresh constants; conjunctions flattened"""
        out = []
        def go(f):
            if z3.is_and(f):
                for c in f.children(): go(c)
            elif z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
                q = f.arg(0); vs = [fresh("sk", q.var_sort(i)) for i in range(q.num_vars())]
                go(simp(z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))))
            elif z3.is_quantifier(f) and f.is_exists():
                vs = [fresh("sk", f.var_sort(i)) for i in range(f.num_vars())]
                go(simp(z3.substitute_vars(f.body(), *reversed(vs))))
            elif z3.is_not(f) and z3.is_or(f.arg(0)):
                for c in f.arg(0).children(): go(simp(z3.Not(c)))
            else: out.append(f)
        for f in fs: go(f)
        # keep the last formula last
        return out
    def _instances(self, fs, rounds=2, cap=60):
        """instances of the universal hypotheses at the ground sums/parities (higher-order terms z3 does not match)"""
        got, seen = [], set()
        for _ in range(rounds):
            ground = self._acc_terms(fs + got)
            if not ground: break
            new = []
            for f in fs + got:
                if not (z3.is_quantifier(f) and f.is_forall()): continue
                nv = f.num_vars()
                vs = [fresh("mv", f.var_sort(i)) for i in range(nv)]
                body = z3.substitute_vars(f.body(), *reversed(vs))
                ids = {v.get_id(): i for i, v in enumerate(vs)}
                for pt in self._acc_terms([body]):
                    if not depends_any(pt, set(ids)): continue
                    for g in ground:
                        if g.decl().name() != pt.decl().name(): continue
                        sub = {}
                        if _match(pt, g, ids, sub) and len(sub) == nv:
                            inst = simp(z3.substitute(body, *[(vs[i], t) for i, t in sub.items()]))
                            if inst.get_id() not in seen:
                                seen.add(inst.get_id()); new.append(inst)
                    if len(new) + len(got) > cap: break
            if not new: break
            got += new
        return got
    def _cvc5(self, fs, timeout):
        try:
            import cvc5
        except Exception:
            return False
        s = z3.Solver(); s.add(*fs)
        txt = s.to_smt2()
        if "lambda" in txt: return False
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", str(timeout))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = None
            t0 = time.time()
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                o = c.invoke(slv, sm)
                if "unsat" in str(o): res = True
            self.solver_time += time.time() - t0
            return bool(res)
        except Exception:
            return False
    def _acc_terms(self, fs):
        seen = set(); accs = []
        def go(x, bound):
            st = [x]
            while st:
                y = st.pop()
                i = y.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_quantifier(y): continue   # only ground occurrences
                if is_acc(y): accs.append(y)
                st.extend(y.children())
        for f in fs: go(f, False)
        return accs
    def _acc_lemmas(self, fs, depth):
        accs = self._acc_terms(fs)
        if not accs or depth > 2: return None
        fs = list(fs)
        base = [f for f in fs]
        # congruence
        groups = []
        eqs = []
        ab = []
        for a in accs:
            placed = False
            for g in groups:
                r = g[0]
                if r.decl().name() != a.decl().name(): continue
                if r.eq(a): placed = True; break
                if self._acc_eq(base, r, a, depth):
                    g.append(a); eqs.append(r == a); placed = True
                    break
            if not placed: groups.append([a])
        # abstract ground accumulators by constants
        sub = []
        for g in groups:
            c = fresh("acc", g[0].sort())
            for a in g: sub.append((a, c))
        # substitute larger terms first
        sub.sort(key=lambda p: -len(p[0].sexpr()))
        extra = []
        for g in groups:
            a = g[0]
            # facts: empty range
            z = z3.BoolVal(False) if a.sort() == B else (z3.IntVal(0) if a.sort() == I else z3.RealVal(0))
            extra.append(z3.Implies(a.arg(1) <= a.arg(0), a == z))
            if a.sort() != B:
                k = fresh("k")
                body = simp(apply_lam(a.arg(2), k))
                r, _ = self._check(base + [a.arg(0) <= k, k < a.arg(1), body < 0], 1500)
                if r == z3.unsat: extra.append(a >= 0)
        # last term of a range: SUM(lo, k+1) = SUM(lo, k) + body(k)
        for g in groups:
            for h in groups:
                a, b = g[0], h[0]
                if g is h or a.decl().name() != b.decl().name() or not a.arg(0).eq(b.arg(0)): continue
                dlt = simp(a.arg(1) - b.arg(1))
                if not (z3.is_int_value(dlt) and dlt.as_long() == 1): continue
                k = fresh("k")
                x, y = simp(apply_lam(a.arg(2), k)), simp(apply_lam(b.arg(2), k))
                if not self._valid(base + [a.arg(0) <= k, k < b.arg(1)], x == y, 2000, depth): continue
                last = simp(apply_lam(a.arg(2), b.arg(1)))
                extra.append(z3.Implies(b.arg(1) >= b.arg(0), a == (z3.Xor(b, last) if a.sort() == B else b + last)))
        out = []
        for f in fs + extra:
            out.append(z3.substitute(f, *sub) if sub else f)
        return out
    def _acc_eq(self, base, a, b, depth):
        if not self._valid(base, z3.And(a.arg(0) == b.arg(0), a.arg(1) == b.arg(1)), 2000, depth): return False
        k = fresh("k")
        x, y = simp(apply_lam(a.arg(2), k)), simp(apply_lam(b.arg(2), k))
        return self._valid(base + [a.arg(0) <= k, k < a.arg(1)], x == y, 3000, depth)
    def _valid(self, hyps, goal, timeout, depth):
        goal = simp(goal)
        if z3.is_true(goal): return True
        if z3.is_false(goal): return False
        r, _ = self._check(hyps + [z3.Not(goal)], timeout)
        if r == z3.unsat: return True
        if depth < 2:
            lem = self._acc_lemmas(hyps + [z3.Not(goal)], depth + 1)
            if lem is not None:
                r, _ = self._check(lem, timeout)
                return r == z3.unsat
        return False
    def oblige(self, name, goal, timeout=None):
        t0 = time.time()
        try:
            st, d = self.prove(goal, timeout)
        except Unsupported as e:
            st, d = "unknown", f"unsupported: {e}"
        self.obls.append(Obl(name, st, d, time.time() - t0, self.cur))
        return st == "proved"
    def fail(self, name, detail):
        self.obls.append(Obl(name, "unknown", detail, 0.0, self.cur))
    def oblige_rt(self, name, goal):
        """runtime-safety side condition"""
        self.oblige(f"{self.cur}: safety: {name}", goal)
    def side_div(self, b):
        if self.entails(b != 0): return
        if self.branch(b == 0): raise ZeroDivisionError("division by zero")
    def fact(self, t):
        self.assume(t)

E = Engine()

def Int(name): return V(z3.Int(name))
def Nat(name, lo=0):
    v = V(z3.Int(name)); E.assume(v.t >= lo); return v
def Real(name): return V(z3.Real(name))
def Bool(name): return V(z3.Bool(name))

def forall(n, fn, lo=0):
    """ForAll lo<=i<n. fn(i) (fn: z3 term -> bool-like)"""
    i = fresh("q")
    return z3.ForAll([i], z3.Implies(z3.And(lift(lo) <= i, i < lift(n)), to_bool(lift(fn(i)))))

def exists(n, fn, lo=0):
    i = fresh("q")
    return z3.Exists([i], z3.And(lift(lo) <= i, i < lift(n), to_bool(lift(fn(i)))))

def imp(a, b): return z3.Implies(to_bool(lift(a)), to_bool(lift(b)))
def andb(*a): return z3.And(*[to_bool(lift(x)) for x in a])
def orb(*a): return z3.Or(*[to_bool(lift(x)) for x in a])
def notb(a): return z3.Not(to_bool(lift(a)))
def eqb(a, b):
    a, b = lift(a), lift(b)
    if a.sort() == B and b.sort() == B: return a == b
    a, b = unify(a, b)
    return a == b
