"""Lists, sets, dictionaries and strings with symbolic contents/lengths."""
from __future__ import annotations
import z3
from .core import *
from .core import E
from . import core
from . import arrays as A  # circular, resolved lazily

class Seq:
    """read-only symbolic sequence: length n, item(i:V)->value"""
    def __init__(self, n, item): self.n, self.item = n, item

def subst_val(x, pairs):
    """substitute z3 terms inside an engine value"""
    if isinstance(x, V): return mk(z3.substitute(x.t, *pairs), x.np)
    if isinstance(x, (int, bool, float, str, type(None))): return x
    if isinstance(x, tuple): return tuple(subst_val(y, pairs) for y in x)
    if isinstance(x, list): return [subst_val(y, pairs) for y in x]
    if isinstance(x, A.SArr):
        s = x.snapshot()
        f = s.fn
        def g(*idx):
            # protect index terms from substitution by using placeholders
            ph = [fresh("ph") for _ in idx]
            t = f(*ph)
            if x.kind == "o": return subst_val(t, list(pairs) + list(zip(ph, idx)))
            return z3.substitute(z3.substitute(t, *pairs), *zip(ph, idx))
        shp = tuple(subst_val(d if isinstance(d, V) else d, pairs) for d in x._shape)
        return A.SArr(shp, g, x.kind)
    if isinstance(x, PList):
        return PList([subst_seg(s, pairs) for s in x.segs])
    if isinstance(x, SStr):
        f = x.fn
        def g(i):
            ph = fresh("ph"); return z3.substitute(z3.substitute(f(ph), *pairs), (ph, i))
        return SStr(subst_val(x.n, pairs), g)
    if isinstance(x, SChar): return SChar(z3.substitute(x.t, *pairs))
    if isinstance(x, PSet):
        return PSet.make([subst_val(e, pairs) for e in x.elems], None if x.pred is None else (lambda e, p=x.pred: _sub_pred(p, e, pairs)))
    if isinstance(x, PDict):
        df = None
        if x.default is not None:
            h0, g0 = x.default
            def sb(fn, k):
                if isinstance(k, str): return subst_val(fn(k), pairs)
                ph = fresh("ph"); return subst_val(subst_val(fn(V(ph)), pairs), [(ph, lift(k))])
            df = (lambda k: sb(h0, k), lambda k: sb(g0, k))
        d = PDict([(subst_val(k, pairs), subst_val(v, pairs)) for k, v in x.items_], df); d.factory = x.factory
        return d
    if isinstance(x, z3.ExprRef): return z3.substitute(x, *pairs)
    if isinstance(x, frozenset): return frozenset(subst_val(y, pairs) for y in x)
    if hasattr(x, "vc_subst"): return x.vc_subst(pairs)
    if isinstance(x, dict): return {subst_val(k, pairs): subst_val(v, pairs) for k, v in x.items()}
    if callable(x) or isinstance(x, type): return x
    raise Unsupported(f"subst {type(x).__name__}")

def _sub_pred(p, e, pairs):
    ph = fresh("ph")
    return z3.substitute(z3.substitute(lift(p(V(ph))), *pairs), (ph, lift(e)))

def subst_seg(s, pairs):
    if s[0] == "c": return ("c", subst_val(s[1], pairs))
    if s[0] == "s":
        fn = s[2]
        def g(i):
            ph = fresh("ph")
            return subst_val(subst_val(fn(V(ph)), pairs), [(ph, lift(i))])
        return ("s", subst_val(s[1], pairs), g)
    if s[0] == "f":
        g0, f0 = s[2], s[3]
        def gg(i):
            ph = fresh("ph"); return subst_val(subst_val(mk(lift(g0(V(ph)))), pairs), [(ph, lift(i))])
        def ff(i):
            ph = fresh("ph"); return subst_val(subst_val(f0(V(ph)), pairs), [(ph, lift(i))])
        return ("f", subst_val(s[1], pairs), gg, ff)
    raise Unsupported("subst seg")

def merge_vals(alts):
    """alts: [(guard z3, value)] exhaustive; combine into one engine value"""
    v0 = alts[0][1]
    if len(alts) == 1: return v0
    if all(v is v0 for _, v in alts): return v0
    if all(isinstance(v, (V, int, bool, float)) or hasattr(v, "__vc_scalar__") for _, v in alts):
        ts = [lift(v) for _, v in alts]
        srt = {t.sort().name() for t in ts}
        if len(srt) > 1:
            if "Real" in srt: ts = [to_real(t) for t in ts]
            else: ts = [to_int(t) for t in ts]
        r = ts[-1]
        for (g, _), t in reversed(list(zip(alts[:-1], ts[:-1]))): r = z3.If(g, t, r)
        return mk(r, any(getattr(v, "np", False) for _, v in alts))
    if all(isinstance(v, (str, SChar)) for _, v in alts):
        if all(isinstance(v, str) for _, v in alts) and len({v for _, v in alts}) == 1: return v0
        if all(isinstance(v, SChar) or len(v) == 1 for _, v in alts):
            ts = [v.t if isinstance(v, SChar) else z3.IntVal(ord(v)) for _, v in alts]
            r = ts[-1]
            for (g, _), t in reversed(list(zip(alts[:-1], ts[:-1]))): r = z3.If(g, t, r)
            return SChar(simp(r))
        return as_sstr_merge(alts)
    if all(isinstance(v, (str, SStr)) for _, v in alts): return as_sstr_merge(alts)
    if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in alts):
        return tuple(merge_vals([(g, v[k]) for g, v in alts]) for k in range(len(v0)))
    if all(isinstance(v, PList) for _, v in alts):
        if all(all(s[0] == "c" for s in v.segs) and len(v.segs) == len(v0.segs) for _, v in alts):
            return PList([("c", merge_vals([(g, v.segs[k][1]) for g, v in alts])) for k in range(len(v0.segs))])
    if all(isinstance(v, A.SArr) for _, v in alts):
        if all(v.ndim == v0.ndim and v.kind == v0.kind for _, v in alts):
            shp = tuple(merge_vals([(g, v._shape[d]) for g, v in alts]) for d in range(v0.ndim))
            snaps = [(g, v.snapshot()) for g, v in alts]
            def f(*idx):
                r = snaps[-1][1].at(*idx)
                for g, s in reversed(snaps[:-1]): r = z3.If(g, s.at(*idx), r)
                return r
            return A.SArr(shp, f, v0.kind)
    if all(v is None for _, v in alts): return None
    if all(isinstance(v, PDict) for _, v in alts):
        ks = [[k for k, _ in v.items_] for _, v in alts]
        if all(v._concrete() for _, v in alts) and all(k == ks[0] for k in ks):
            return PDict([(k, merge_vals([(g, v._get(k)) for g, v in alts])) for k in ks[0]])
        def hs(k): return z3.Or(*[z3.And(g, to_bool(lift(v.has(k)))) for g, v in alts])
        def gt(k):
            live = [(g, v) for g, v in alts if v.has(k) is not False]
            if not live: raise KeyError(k)
            return merge_vals([(g, v._get(k)) for g, v in live])
        return PDict([], (hs, gt))
    if hasattr(v0, "vc_merge"): return v0.vc_merge(alts)
    try:
        if all(v == v0 for _, v in alts): return v0
    except Exception: pass
    if all(isinstance(v, (str, V, int, float, bool, Alt)) or v is None for _, v in alts):
        return Alt([(simp(z3.And(g, h)), w) for g, v in alts for h, w in (v.alts if isinstance(v, Alt) else [(z3.BoolVal(True), v)])])
    raise Unsupported(f"cannot merge values of types {sorted({type(v).__name__ for _, v in alts})}")

class Alt:
    """one of several values of different kinds, by guard; only stored and inspected by contracts, any operation is unsupported"""
    def __init__(self, alts): self.alts = alts
    def vc_subst(self, pairs): return Alt([(z3.substitute(g, *pairs), subst_val(v, pairs)) for g, v in self.alts])
    def __eq__(self, o): raise Unsupported("comparison of a mixed value")
    __hash__ = object.__hash__
    def __bool__(self): raise Unsupported("truth of a mixed value")
class SChar:
    """one symbolic character"""
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if isinstance(o, str): return mk(self.t == ord(o)) if len(o) == 1 else False
        if isinstance(o, SChar): return mk(self.t == o.t)
        if isinstance(o, SStr): return o == self
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else mk(z3.Not(lift(r)))
    def __hash__(self): return hash(self.t)
    def vc_len(self): return 1
    def lower(self): 
        t = self.t
        return SChar(simp(z3.If(z3.And(t >= 65, t <= 90), t + 32, t)))
    def upper(self):
        t = self.t
        return SChar(simp(z3.If(z3.And(t >= 97, t <= 122), t - 32, t)))
    def vc_subst(self, pairs): return SChar(z3.substitute(self.t, *pairs))
    def __repr__(self): return f"SChar({self.t})"

def as_sstr(x):
    if isinstance(x, SStr): return x
    if isinstance(x, SChar): return SStr(1, lambda i, t=x.t: t)
    if isinstance(x, str):
        if len(x) == 0: return SStr(0, lambda i: z3.IntVal(0))
        return SStr(len(x), lambda i: A.seg_select([(1, ord(c)) for c in x], i, lambda p, j: z3.IntVal(p)))
    raise Unsupported("as_sstr")

def as_sstr_merge(alts):
    ss = [(g, as_sstr(v)) for g, v in alts]
    n = merge_vals([(g, s.n) for g, s in ss])
    def f(i):
        r = ss[-1][1].fn(i)
        for g, s in reversed(ss[:-1]): r = z3.If(g, s.fn(i), r)
        return r
    return SStr(n, f)

class SStr:
    """symbolic string: length n, char code fn(i)"""
    def __init__(self, n, fn): self.n = A.dim(n); self.fn = fn
    def vc_len(self): return self.n
    def vc_seq(self): return Seq(self.n, lambda i: SChar(simp(self.fn(lift(i)))))
    def __getitem__(self, k):
        h = A.SArr((self.n,), self.fn, "i")
        if isinstance(k, slice):
            r = h[k]
            return SStr(r._shape[0], lambda i: r.at(i))
        r = h[k]
        return SChar(lift(r))
    def __add__(self, o):
        o = as_sstr(o)
        segs = [(self.n, self.fn), (o.n, o.fn)]
        return SStr(self.n + o.n, lambda i: A.seg_select(segs, i, lambda p, j: p(j)))
    def __radd__(self, o): return as_sstr(o) + self
    def __eq__(self, o):
        if not isinstance(o, (str, SStr, SChar)): return False
        o = as_sstr(o)
        return mk(z3.And(lift(self.n) == lift(o.n), forall(self.n, lambda i: self.fn(i) == o.fn(i))))
    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else mk(z3.Not(lift(r)))
    __hash__ = None
    def startswith(self, p):
        if isinstance(p, tuple): return mk(orb(*[self.startswith(q) for q in p]))
        if bool(mk(lift(self.n) >= len(p))):
            return mk(z3.And(*[self.fn(z3.IntVal(i)) == ord(c) for i, c in enumerate(p)]))
        return False
    def __bool__(self): return bool(mk(lift(self.n) > 0))
    def __repr__(self): return f"SStr({self.n})"
    def join(self, x): raise Unsupported("join on symbolic separator")
    def count(self, c):
        return mk(ssum(0, self.n, lambda i: z3.If(self.fn(i) == ord(c), z3.IntVal(1), z3.IntVal(0))))
    def replace(self, a, b):
        if len(a) == 1 and len(b) == 1: return SStr(self.n, lambda i: z3.If(self.fn(i) == ord(a), z3.IntVal(ord(b)), self.fn(i)))
        raise Unsupported("replace")

def sel_fn(n, guard):
    """enumeration of the positions x in [0,n) with guard(x): (count, sel) with the defining facts assumed"""
    x = fresh("x")
    g = simp(to_bool(lift(guard(V(x)))))
    lam, nt = core.mklam(x, g), simp(lift(n))
    key = (nt.get_id(), lam.get_id(), tuple(c.get_id() for c in E.loop_ctx))
    memo = E.__dict__.setdefault("sel_memo", {})
    if key not in memo:
        ctx = list(E.loop_ctx)
        f = core.fresh_fn("SEL", *([I] * (len(ctx) + 1)), I); inv = core.fresh_fn("INV", *([I] * (len(ctx) + 1)), I)
        cnt = ssum(0, nt, lambda i: z3.If(z3.substitute(g, (x, i)), z3.IntVal(1), z3.IntVal(0)))
        memo[key] = (cnt, (lambda i, f=f: f(*ctx, i)), (lambda i, inv=inv: inv(*ctx, i)), g, x, (nt, lam, ctx))
    cnt, f, inv, g0, x0, _ = memo[key]
    i, j, y = fresh("i"), fresh("j"), fresh("y")
    G = lambda t: z3.substitute(g0, (x0, t))
    facts = [cnt >= 0, cnt <= z3.If(nt > 0, nt, z3.IntVal(0)),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt), z3.And(f(i) >= 0, f(i) < nt, G(f(i)), inv(f(i)) == i)), patterns=[f(i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cnt), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]),
        z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < nt, G(y)), z3.And(inv(y) >= 0, inv(y) < cnt, f(inv(y)) == y)), patterns=[inv(y)])]
    if not any(key in c.__dict__.get("sel", ()) for c in E.ctxs):
        if E.ctxs: E.ctxs[-1].__dict__.setdefault("sel", set()).add(key)
        for t in facts: E.assume(t)
    return mk(cnt), memo[key][1], memo[key][2]

def defilter(segs):
    out = []
    for s in segs:
        if s[0] != "f": out.append(s); continue
        _, n, guard, fn = s
        cnt, f, _ = sel_fn(n, guard)
        out.append(("s", cnt, lambda i, f=f, fn=fn: fn(mk(f(lift(i))))))
    return out

class PList:
    """list as a sequence of segments: ('c',value) | ('s',n,fn) | ('f',n,guard,fn) | ('pre',token)"""
    __array_ufunc__ = None
    def __init__(self, segs=None): self.segs = list(segs or []); self._vc_born = born()
    @staticmethod
    def of(xs): return PList([("c", x) for x in xs])
    @staticmethod
    def of_seq(s): return PList([("s", s.n, s.item)])
    def _vc_save(self): return list(self.segs)
    def _vc_load(self, st): self.segs = list(st)
    def is_concrete(self): return all(s[0] == "c" for s in self.segs)
    def concrete(self):
        if not self.is_concrete():
            # segments with a host-constant length can be expanded
            out = []
            for s in self.segs:
                if s[0] == "c": out.append(s[1])
                elif s[0] == "s" and const_int(s[1]) is not None: out += [s[2](i) for i in range(const_int(s[1]))]
                else: raise Unsupported("concrete list needed")
            return out
        return [s[1] for s in self.segs]
    def vc_len(self):
        n = 0
        for s in self.segs:
            if s[0] == "c": n = n + 1
            elif s[0] == "s": n = n + s[1]
            elif s[0] == "f":
                n = n + mk(ssum(0, s[1], lambda i: z3.If(to_bool(lift(s[2](V(i)))), z3.IntVal(1), z3.IntVal(0))))
            else: raise Unsupported("length of havoced list")
        return n
    def __len__(self):
        if self.is_concrete(): return len(self.segs)
        raise Unsupported("host len of symbolic list")
    def probe(self):
        s = self.segs[0]
        if s[0] == "c": return s[1]
        return s[-1](V(fresh("probe")))
    def get(self, i):
        c = const_int(i)
        if c is not None and c >= 0:
            k = 0
            for s in self.segs:
                if s[0] == "c":
                    if k == c: return s[1]
                    k += 1
                elif s[0] == "s":
                    n = const_int(s[1])
                    if n is not None:
                        if c < k + n: return s[2](c - k)
                        k += n
                    else:
                        if E.entails(lift(s[1]) > c - k): return s[2](c - k)
                        break
                else: break
            else: raise IndexError("list index out of range")
        if any(s[0] == "pre" for s in self.segs): raise Unsupported("index into havoced list")
        if any(s[0] == "f" for s in self.segs): return PList(defilter(self.segs)).get(i)
        it = lift(i)
        parts = []
        off = z3.IntVal(0)
        alts = []
        for s in self.segs:
            n = z3.IntVal(1) if s[0] == "c" else lift(s[1])
            end = simp(off + n)
            alts.append((simp(z3.And(it >= off, it < end)), s, off)); off = end
        live = [(g, s, o) for g, s, o in alts if not z3.is_false(g) and E.feasible(g)]
        vals = []
        for g, s, o in live:
            vals.append((g, s[1] if s[0] == "c" else s[2](mk(simp(it - o)))))
        if not vals:      # out of range: the bounds obligation is raised by __getitem__; get is total
            if not alts: raise IndexError("list index out of range")
            g, s, o = alts[-1]
            return s[1] if s[0] == "c" else s[2](mk(simp(it - o)))
        return merge_vals(vals)
    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        n = self.vc_len()
        c = const_int(k)
        if c is not None and c < 0: k = n + c
        t = lift(k)
        nt = lift(n)
        if not E.entails(z3.And(t >= 0, t < nt)):
            if E.branch(z3.And(t >= 0, t < nt)): pass
            elif E.branch(z3.And(t < 0, t >= -nt)): k = mk(t + nt)
            else: raise IndexError("list index out of range")
        return self.get(k)
    def _slice(self, s):
        if self.is_concrete() and all(x is None or const_int(x) is not None for x in (s.start, s.stop, s.step)):
            f = lambda x: None if x is None else const_int(x)
            return PList(self.segs[slice(f(s.start), f(s.stop), f(s.step))])
        n = self.vc_len()
        h = A.SArr((n,), lambda i: i, "i")
        off, ln, step = h._slice(s, n)
        return PList([("s", ln, lambda i: self.get(mk(simp(off + lift(i) * step))))])
    def __setitem__(self, k, v):
        E.touch(self)
        if isinstance(k, slice): raise Unsupported("slice assign list")
        c = const_int(k)
        if self.is_concrete() and c is not None:
            self.segs[c] = ("c", v); self.segs = list(self.segs); return
        n = self.vc_len()
        if c is not None and c < 0: k = n + c
        t = lift(k)
        if not E.entails(z3.And(t >= 0, t < lift(n))):
            if not E.branch(z3.And(t >= 0, t < lift(n))): raise IndexError("list assignment index out of range")
        old = PList(self.segs)
        def g(i):
            it = lift(i)
            cnd = simp(it == t)
            if z3.is_true(cnd): return v
            if z3.is_false(cnd): return old.get(i)
            return merge_vals([(cnd, v), (z3.Not(cnd), old.get(i))])
        self.segs = [("s", n, g)]
    def append(self, x):
        E.touch(self); self.segs = self.segs + [("c", x)]
    def extend(self, xs):
        E.touch(self); self.segs = self.segs + list(as_plist(xs).segs)
    def insert(self, i, x):
        c = const_int(i)
        if c == 0:
            E.touch(self); self.segs = [("c", x)] + self.segs; return
        if self.is_concrete() and c is not None:
            E.touch(self); l = list(self.segs); l.insert(c, ("c", x)); self.segs = l; return
        raise Unsupported("list insert")
    def pop(self, i=-1):
        c = const_int(i)
        if c is not None and self.is_concrete():
            if not self.segs: raise IndexError("pop from empty list")
            E.touch(self); l = list(self.segs); r = l.pop(c); self.segs = l; return r[1]
        if c == -1 and self.segs and self.segs[-1][0] == "c":
            E.touch(self); r = self.segs[-1]; self.segs = self.segs[:-1]; return r[1]
        if c == 0 and self.segs and self.segs[0][0] == "c":
            E.touch(self); r = self.segs[0]; self.segs = self.segs[1:]; return r[1]
        if c in (0, -1) and not any(s[0] == "pre" for s in self.segs):
            if any(s[0] == "f" for s in self.segs): E.touch(self); self.segs = defilter(self.segs)
            n = self.vc_len()
            if not bool(mk(lift(n) > 0)): raise IndexError("pop from empty list")
            E.touch(self)
            old = PList(self.segs)
            if c == 0:
                r = old.get(0); self.segs = [("s", n - 1, lambda i: old.get(mk(lift(i) + 1)))]
            else:
                r = old.get(n - 1); self.segs = [("s", n - 1, lambda i: old.get(i))]
            return r
        raise Unsupported("list pop")
    def remove(self, x): raise Unsupported("list remove")
    def clear(self): E.touch(self); self.segs = []
    def copy(self): return PList(self.segs)
    __copy__ = copy
    def __deepcopy__(self, m): return PList(self.segs)
    def reverse(self):
        r = self._rev(); E.touch(self); self.segs = r.segs
    def _rev(self):
        if self.is_concrete(): return PList(self.segs[::-1])
        out = []
        for s in reversed(self.segs):
            if s[0] == "c": out.append(s)
            elif s[0] == "s":
                n, f = s[1], s[2]; out.append(("s", n, lambda i, n=n, f=f: f(mk(lift(n) - 1 - lift(i)))))
            else: raise Unsupported("reverse filtered")
        return PList(out)
    def sort(self, **k): raise Unsupported("sort")
    def index(self, x): 
        if self.is_concrete():
            for i, s in enumerate(self.segs):
                if bool(eq_vals(s[1], x)): return i
            raise ValueError("not in list")
        raise Unsupported("index")
    def count(self, x):
        n = 0
        for s in self.segs:
            if s[0] == "c": n = n + mk(z3.If(to_bool(lift(eq_vals(s[1], x))), z3.IntVal(1), z3.IntVal(0)))
            elif s[0] == "s": n = n + mk(ssum(0, s[1], lambda i: z3.If(to_bool(lift(eq_vals(s[2](V(i)), x))), z3.IntVal(1), z3.IntVal(0))))
            else: raise Unsupported("count")
        return n
    def __add__(self, o): return PList(self.segs + list(as_plist(o).segs))
    def __radd__(self, o): return PList(list(as_plist(o).segs) + self.segs)
    def __iadd__(self, o): self.extend(o); return self
    def __mul__(self, k):
        c = const_int(k)
        if c is not None: return PList(self.segs * c)
        if len(self.segs) == 1 and self.segs[0][0] == "c":
            v = self.segs[0][1]; return PList([("s", tmaxv(k, 0), lambda i: v)])
        if len(self.segs) == 1 and self.segs[0][0] == "s":
            n, f = self.segs[0][1], self.segs[0][2]
            if E.entails(lift(n) >= 1):
                return PList([("s", tmaxv(k, 0) * n, lambda i: f(mk(simp(lift(i) % lift(n)))))])
        raise Unsupported("list repetition")
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, (PList, list)): return False
        o = as_plist(o)
        n, m = self.vc_len(), o.vc_len()
        if self.is_concrete() and o.is_concrete():
            if len(self.segs) != len(o.segs): return False
            return mk(andb(True, *[eq_vals(a[1], b[1]) for a, b in zip(self.segs, o.segs)]))
        return mk(z3.And(lift(n) == lift(m), forall(n, lambda i: lift(eq_vals(self.get(V(i)), o.get(V(i)))))))
    def __ne__(self, o): return mk(z3.Not(to_bool(lift(self == o))))
    __hash__ = None
    def __bool__(self): return bool(mk(lift(self.vc_len()) > 0))
    def __iter__(self): return iter(self.concrete())
    def vc_seq(self):
        return Seq(self.vc_len(), self.get)
    def contains(self, x):
        cs = []
        for s in self.segs:
            if s[0] == "c": cs.append(to_bool(lift(eq_vals(s[1], x))))
            elif s[0] == "s": cs.append(exists(s[1], lambda i, s=s: lift(eq_vals(s[2](V(i)), x))))
            elif s[0] == "f": cs.append(exists(s[1], lambda i, s=s: z3.And(to_bool(lift(s[2](V(i)))), to_bool(lift(eq_vals(s[3](V(i)), x))))))
            else: raise Unsupported("contains havoced")
        return mk(z3.Or(*cs)) if cs else False
    def __repr__(self): return f"PList({[(s[0],) + tuple(s[1:2]) for s in self.segs]})"

def tmaxv(a, b): 
    a_, b_ = lift(a), lift(b)
    if E.entails(a_ >= b_): return a
    return mk(z3.If(a_ >= b_, a_, b_))

def as_plist(x):
    if isinstance(x, PList): return PList(x.segs)
    if isinstance(x, (list, tuple)): return PList.of(x)
    if isinstance(x, A.SArr):
        if const_int(x._shape[0]) is not None: return PList.of(list(iter(x)))
        s = x.snapshot(); return PList([("s", s._shape[0], lambda i: s[i])])
    if isinstance(x, Seq): return PList.of_seq(x)
    if isinstance(x, str): return PList.of(list(x))
    if isinstance(x, SStr): return PList.of_seq(x.vc_seq())
    if isinstance(x, PSet): return x.as_plist()
    if isinstance(x, PDict): return PList.of(x.keys())
    if isinstance(x, range): return PList.of(list(x))
    if hasattr(x, "vc_seq"): return PList.of_seq(x.vc_seq())
    if isinstance(x, (set, frozenset, dict)): return PList.of(list(x))
    if hasattr(x, "__iter__"): return PList.of(list(x))
    raise Unsupported(f"as_plist {type(x).__name__}")

def eq_vals(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return mk(andb(True, *[eq_vals(x, y) for x, y in zip(a, b)]))
    if isinstance(a, tuple) != isinstance(b, tuple): return False
    if isinstance(a, A.SArr) and isinstance(b, A.SArr):
        return mk(z3.And(*[lift(x) == lift(y) for x, y in zip(a._shape, b._shape)], A.arr_eq_term(a, b)))
    r = (a == b)
    return r

class PSet:
    """set: explicit elements plus an optional symbolic membership predicate"""
    def __init__(self, elems=(), pred=None):
        self.elems = list(elems); self.pred = pred; self.src = None; self._vc_born = born()
    @staticmethod
    def make(elems, pred=None): return PSet(elems, pred)
    def _vc_save(self): return (list(self.elems), self.pred, self.src)
    def _vc_load(self, st): self.elems, self.pred, self.src = list(st[0]), st[1], st[2]
    def contains(self, x):
        cs = []
        for e in self.elems:
            r = eq_vals(e, x)
            if r is True: return True
            if r is not False: cs.append(to_bool(lift(r)))
        if self.pred is not None: cs.append(to_bool(lift(self.pred(x))))
        return mk(z3.Or(*cs)) if cs else False
    def add(self, x):
        E.touch(self)
        if self.pred is None and all(not isinstance(e, V) for e in self.elems) and not isinstance(x, V):
            try:
                if x in self.elems: return
            except Exception: pass
        self.elems = self.elems + [x]
    def update(self, *os):
        E.touch(self)
        for o in os:
            if isinstance(o, PSet):
                self.elems = self.elems + o.elems
                if o.pred is not None:
                    p, q = self.pred, o.pred
                    self.pred = q if p is None else (lambda x: z3.Or(to_bool(lift(p(x))), to_bool(lift(q(x)))))
            else:
                l = as_plist(o)
                if l.is_concrete(): self.elems = self.elems + l.concrete()
                else:
                    p = self.pred
                    self.pred = (lambda x: l.contains(x)) if p is None else (lambda x: orb(p(x), l.contains(x)))
    def union(self, *os):
        r = PSet(self.elems, self.pred)
        for o in os: r.update(o)
        return r
    __or__ = union
    def __ior__(self, o): self.update(o); return self
    def __and__(self, o):
        a, b = self, as_pset(o)
        return PSet([], lambda x: andb(a.contains(x), b.contains(x)))
    intersection = __and__
    def __sub__(self, o):
        a, b = self, as_pset(o)
        if a.pred is None and b.pred is None and all(not isinstance(e, V) for e in a.elems + b.elems):
            return PSet([e for e in a.elems if e not in b.elems])
        return PSet([], lambda x: andb(a.contains(x), notb(b.contains(x))))
    difference = __sub__
    def __xor__(self, o):
        a, b = PSet(self.elems, self.pred), as_pset(o)
        return PSet([], lambda x: z3.Xor(to_bool(lift(a.contains(x))), to_bool(lift(b.contains(x)))))
    symmetric_difference = __xor__
    def remove(self, x):
        if not bool(mk(lift(self.contains(x)))): raise KeyError(x)
        self.discard(x)
    def discard(self, x):
        E.touch(self)
        old = PSet(self.elems, self.pred)
        if old.pred is None and all(not isinstance(e, (V, tuple)) for e in old.elems) and not isinstance(x, V):
            self.elems = [e for e in old.elems if e != x]; return
        self.elems = []; self.pred = lambda y: andb(old.contains(y), notb(eq_vals(y, x)))
    def copy(self): return PSet(self.elems, self.pred)
    def vc_len(self):
        if self.pred is None and all(not isinstance(e, V) for e in self.elems): return len(set(self.elems))
        raise Unsupported("len of symbolic set")
    def is_concrete(self): return self.pred is None and all(not isinstance(e, V) for e in self.elems)
    def as_plist(self):
        if not self.is_concrete(): raise Unsupported("iteration over symbolic set")
        return PList.of(sorted(set(self.elems), key=repr))
    def vc_seq(self):
        raise Unsupported("iteration over symbolic set")
    def __iter__(self): return iter(self.as_plist().concrete())
    def __bool__(self):
        if self.elems: return True
        if self.pred is None: return False
        raise Unsupported("emptiness of symbolic set")
    def __eq__(self, o):
        o = as_pset(o)
        if self.is_concrete() and o.is_concrete(): return set(self.elems) == set(o.elems)
        x = fresh("el")
        return mk(z3.ForAll([x], to_bool(lift(self.contains(V(x)))) == to_bool(lift(o.contains(V(x))))))
    __hash__ = None
    def issubset(self, o):
        o = as_pset(o); x = fresh("el")
        return mk(z3.ForAll([x], z3.Implies(to_bool(lift(self.contains(V(x)))), to_bool(lift(o.contains(V(x)))))))
    def __repr__(self): return f"PSet({self.elems},{'pred' if self.pred else ''})"

def as_pset(x):
    if isinstance(x, PSet): return x
    if isinstance(x, (set, frozenset)): return PSet(list(x))
    l = as_plist(x)
    if l.is_concrete(): return PSet(l.concrete())
    return PSet([], lambda e: l.contains(e))

class PDict:
    """dict with concrete or scalar-symbolic keys: ordered writes, last write wins; optional default map"""
    def __init__(self, items=(), default=None):
        self.items_ = list(items)    # (key, value) , keys host-hashable or V
        self.default = default       # (has(key)->bool term, get(key)->value)
        self.factory = None; self._vc_born = born()
    def _vc_save(self): return (list(self.items_), self.default)
    def _vc_load(self, st): self.items_, self.default = list(st[0]), st[1]
    def _concrete(self): return self.default is None and all(not has_v(k) for k, _ in self.items_)
    def has(self, k):
        if self._concrete() and not has_v(k):
            return any(kk == k for kk, _ in self.items_)
        cs = []
        for kk, _ in self.items_:
            r = eq_vals(kk, k)
            if r is True: return True
            if r is not False: cs.append(to_bool(lift(r)))
        if self.default is not None: cs.append(to_bool(lift(self.default[0](k))))
        return mk(z3.Or(*cs)) if cs else False
    contains = has
    def __getitem__(self, k):
        h = self.has(k)
        if not (h is True or bool(h)):
            if self.factory is not None:
                v = self.factory(); self[k] = v; return v
            raise KeyError(k)
        return self._get(k)
    def _get(self, k):
        if self._concrete() and not has_v(k):
            for kk, v in reversed(self.items_):
                if kk == k: return v
            raise KeyError(k)
        alts = []
        none = z3.BoolVal(True)
        for kk, v in reversed(self.items_):
            r = to_bool(lift(eq_vals(kk, k)))
            r = simp(r)
            if z3.is_false(r): continue
            if E.entails(z3.Not(r)): continue
            alts.append((simp(z3.And(none, r)), v))
            if E.entails(z3.Implies(none, r)): none = None; break
            none = simp(z3.And(none, z3.Not(r)))
        if none is not None and self.default is not None: alts.append((none, self.default[1](k)))
        if not alts: raise KeyError(k)
        return merge_vals(alts)
    def __setitem__(self, k, v):
        E.touch(self)
        if self._concrete() and not has_v(k):
            for j, (kk, _) in enumerate(self.items_):
                if kk == k:
                    l = list(self.items_); l[j] = (k, v); self.items_ = l; return
        self.items_ = self.items_ + [(k, v)]
    def __delitem__(self, k):
        if self._concrete() and not has_v(k):
            E.touch(self); self.items_ = [(a, b) for a, b in self.items_ if a != k]; return
        raise Unsupported("dict del")
    def get(self, k, d=None):
        h = self.has(k)
        if h is True or (h is not False and bool(h)): return self._get(k)
        return d
    def pop(self, k, *d):
        if self.has(k) is True: 
            v = self._get(k); del self[k]; return v
        if d: return d[0]
        raise KeyError(k)
    def setdefault(self, k, d=None):
        if bool(self.has(k)): return self._get(k)
        self[k] = d; return d
    def keys(self):
        self._conc(); return PList.of([k for k, _ in self.items_])
    def values(self):
        self._conc(); return PList.of([v for _, v in self.items_])
    def items(self):
        self._conc(); return PList.of([(k, v) for k, v in self.items_])
    def _conc(self):
        if not self._concrete(): raise Unsupported("iteration over symbolic dict")
    def update(self, o=(), **kw):
        it = o.items_ if isinstance(o, PDict) else list(o.items() if hasattr(o, "items") else o)
        if isinstance(o, PDict) and o.default is not None:
            if self.items_ or self.default is not None: raise Unsupported("dict update symbolic")
            E.touch(self); self.items_, self.default = list(o.items_), o.default
            for k, v in kw.items(): self[k] = v
            return
        for k, v in it: self[k] = v
        for k, v in kw.items(): self[k] = v
    def copy(self): 
        d = PDict(self.items_, self.default); d.factory = self.factory; return d
    __copy__ = copy
    def vc_len(self): self._conc(); return len(self.items_)
    def __iter__(self): return iter(self.keys().concrete())
    def vc_seq(self): return self.keys().vc_seq()
    def __bool__(self):
        if self.items_: return True
        if self.default is None: return False
        raise Unsupported("emptiness of symbolic dict")
    def __eq__(self, o): raise Unsupported("dict equality")
    __hash__ = None
    def __or__(self, o):
        d = self.copy(); d.update(o); return d
    def __repr__(self): return f"PDict({self.items_})"

def has_v(k):
    if isinstance(k, V): return const_int(k) is None
    if isinstance(k, tuple): return any(has_v(x) for x in k)
    return isinstance(k, (SChar, SStr))
