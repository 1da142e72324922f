"""names available to contract files"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vc import core, arrays as A, seqs, loops, models
from vc.core import *
from vc.core import E, xor, odd, par, ssum, simp, lift, fresh, to_bool, to_int, mk, V, born
from vc.arrays import SArr, sym_array, bit
from vc.seqs import PList, PSet, PDict, Seq, SStr, SChar
from vc.loops import RT, PObj
from vc.models import gf2, mod2, np, skarr
from vc.driver import contract, C, arr_is, REG

def rng(x, n, lo=0): return z3.And(lift(x) >= lift(lo), lift(x) < lift(n))
def binvec(name, n): return sym_array(name, (n,), binary=True)
def binmat(name, r, c): return sym_array(name, (r, c), binary=True)
def b01(t): return z3.If(t, z3.IntVal(1), z3.IntVal(0))
def symstr(name, n):
    f = z3.Function(name, I, I)
    return SStr(n, lambda i: f(i))
def matalg_on():
    from vc import matalg
    matalg.REL.reset(); A.ALG = matalg
    return matalg
def skip_exc(types_, then=None):
    """raises-clause: the exception is one of the declared ones"""
    def f(e): return None
    return f
def lemma(c, name, goal):
    """a fact that is proved first and may then be used"""
    if c.ob("lemma: " + name, goal): E.assume(goal)
def forget(v):
    """a variable that the loop assigns and the invariant does not mention, at the start of an arbitrary iteration"""
    if v is loops.UNBOUND or isinstance(v, loops.Poison): return v
    if isinstance(v, (V, int, bool, float)): return mk(fresh("carried", lift(v).sort()))
    if v is None and E.choose(2) == 0: return None
    return loops.Poison("carried over from an earlier iteration, not covered by the loop invariant")
def listed():
    """what the invariant has replaced: objects, and for instances of repository classes the attributes"""
    return {k: {a for a in {**old, **o.__dict__} if old.get(a, loops) is not o.__dict__.get(a, loops)} if isinstance(o, loops.PObj) else True for k, (o, old) in E.ctxs[-1].journal.items()}
def unlisted(declared, start):
    """objects of the engine that the body changed and the invariant did not replace"""
    bad = []
    for k, (o, old) in E.ctxs[-1].journal.items():
        if not isinstance(o, (SArr, PList, seqs.PSet, seqs.PDict, loops.PObj)) or getattr(o, "_vc_born", 0) > start: continue
        if isinstance(o, loops.PObj):
            if k in declared and not declared[k]: continue      # kept up by the rule itself
            if any(old.get(a, loops) is not o.__dict__.get(a, loops) and a not in declared.get(k, ()) for a in {**old, **o.__dict__}): bad.append(type(o).__name__)
        elif k not in declared and not unchanged(old, o._vc_save()): bad.append(type(o).__name__)
    return bad
def watch(): return {k: o._vc_save() for k, (o, old) in E.ctxs[-1].journal.items()}
def strays(c, w, start, known=()):
    """rules that follow the body in place: nothing but the known objects may carry state from one pass to the next"""
    bad = [type(o).__name__ for k, (o, old) in E.ctxs[-1].journal.items() if isinstance(o, (SArr, PList, seqs.PSet, seqs.PDict, loops.PObj)) and getattr(o, "_vc_born", 0) <= start and not any(o is x for x in known) and not unchanged(w.get(k, old), o._vc_save())]
    if bad: c.ob(f"loop body: state outside the loop invariant changes ({', '.join(bad)})", False)
def unchanged(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, dict): return a.keys() == b.keys() and all(a[k] is b[k] for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return False
class LoopHook:
    """E.loops entry: havoc-and-check rule for one symbolic loop of the target function.
    init(vals): obligations on the entry state; havoc(vals, k): fresh state satisfying the invariant at iteration k
    (None keeps a value); step(old, new, k, how): obligations after one generic iteration (how: 'next'/'break'/'return')"""
    def __init__(self, c, fn, init, havoc, step, nth=None, brk=None, inner=None):
        """brk: condition(vals, k) under which the loop may be left early after its k-th iteration (None: never)"""
        self.c, self.fn, self.init, self.havoc, self.step, self.nth, self.brk = c, fn, init, havoc, step, nth, brk
        self.hit, self.inner = 0, inner               # inner: hook for the loops inside the body
        E.loops = self
    def get(self, lid, d=None):
        if self.fn not in lid or lid.endswith("comp"): return None
        return self.rule
    def rule(self, rt, it, body, get, set_, names):
        c = self.c; E.loops = self.inner or {}        # otherwise automatic summaries
        try:
            self.hit += 1; self.n = it.n; self.free = freevars(body)
            names = list(names)
            self.init(dict(zip(names, get())), lift(it.n))
            k = fresh("k")
            i0 = get(); start = born()
            def enter(at):
                old = dict(zip(names, i0)); new = self.havoc(dict(old), at); old = {x: new[x] if x in new else forget(v) for x, v in old.items()}; old.update(new)
                set_(tuple(old[x] for x in names)); return old
            def run():
                E.assume(z3.And(k >= 0, k < lift(it.n)))
                old = enter(k); run.known = listed()
                run.old = {x: (v.snapshot() if isinstance(v, SArr) else v) for x, v in old.items()}
                return body(it.item(V(k)))
            def on(p):
                if p.exc is not None: c.ob("loop body: no exception", False); return
                how = "next" if p.result is loops.CONT else "break" if p.result is loops.BRK else "return"
                bad = unlisted(run.known, start)
                if bad: c.ob(f"loop body: state outside the loop invariant changes ({', '.join(bad)})", False)
                self.step(run.old, dict(zip(names, get())), k, how)
            E.explore(run, on)
            at, res = lift(it.n), loops.CONT
            if self.brk is not None and E.choose(2):
                at, res = fresh("kb"), loops.BRK; E.assume(z3.And(at >= 1, at <= lift(it.n)))
            old = enter(at)
            if res is loops.BRK: E.assume(self.brk(old, at))
            return res
        finally: E.loops = self

def freevars(fn):
    """variables of the enclosing function that a loop body refers to"""
    out = {}
    for n, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
        try: out[n] = cell.cell_contents
        except ValueError: pass
    return out
class WhileHook:
    """E.loops entry for one while loop of the target: init(vals) obligations on entry, havoc(vals) -> fresh state satisfying
    the invariant, step(old, new) obligations after a generic iteration"""
    def __init__(self, c, fn, init, havoc, step, leave=None):
        """leave = (check(old, new), havoc(old) -> state): states in which the loop is left by break"""
        self.c, self.fn, self.init, self.havoc, self.step, self.hit, self.leave = c, fn, init, havoc, step, 0, leave
        E.loops = self
    def get(self, lid, d=None): return self.rule if self.fn in lid and not lid.endswith("comp") else None
    def rule(self, rt, cond, body, get, set_, names):
        c = self.c; E.loops = {}
        try:
            self.hit += 1; names = list(names); i0 = get(); self.free = freevars(body)
            self.init(dict(zip(names, i0)))
            start = born()
            def enter(hav=None):
                old = dict(zip(names, i0)); new = (hav or self.havoc)(dict(old)); old = {x: new[x] if x in new else forget(v) for x, v in old.items()}; old.update(new); set_(tuple(old[x] for x in names)); return old
            def run():
                run.old = enter(); run.known = listed()
                if not bool(cond()): raise PathEnd()
                return body()
            def on(p):
                bad = unlisted(run.known, start) if p.exc is None else []
                if bad: c.ob(f"loop body: state outside the loop invariant changes ({', '.join(bad)})", False)
                if self.leave is not None and p.exc is None and p.result is loops.BRK:
                    self.leave[0](run.old, dict(zip(names, get()))); return
                if p.exc is not None or p.result is not loops.CONT: c.ob("loop body runs through", False); return
                self.step(run.old, dict(zip(names, get())))
            E.explore(run, on)
            if self.leave is not None and E.choose(2):
                enter(self.leave[1])
                return loops.CONT
            enter()
            if bool(cond()): raise PathEnd()
            return loops.CONT
        finally: E.loops = self
def text(x):
    """normal form of a (formatted) string: constants merged, plain string formatting removed"""
    out = []
    def add(p):
        if isinstance(p, loops.FStr):
            for q in p.parts: add(q)
        elif isinstance(p, loops.FPart):
            if isinstance(p.v, loops.FStr) or (isinstance(p.v, str) and p.spec in (None, "", "s", "f's'")): add(p.v)
            else: out.append((p.v, None if p.spec in (None, "", "f's'", "s") else p.spec))
        elif isinstance(p, str):
            if p == "": return
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else: out.append((p, None))
    add(x); return out
def text_eq(a, b):
    a, b = text(a), text(b)
    def same(x, y):
        if isinstance(x, str) or isinstance(y, str): return x == y
        u, v = x[0], y[0]
        if x[1] != y[1]: return False
        if u is v: return True
        if isinstance(u, (V, int, float)) and isinstance(v, (V, int, float)): return E.entails(lift(u) == lift(v))
        return False
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
class Tok:
    """an uninterpreted string argument"""
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
def same_term(c, name, a, b):
    """obligation a == b, proved by descending through equal heads (sums and parities entry by entry, quantifiers pointwise)"""
    a, b = simp(lift(a)), simp(lift(b))
    if a.eq(b): return c.ob(name, True)
    if z3.is_quantifier(a) and z3.is_quantifier(b) and a.is_exists() == b.is_exists() and a.num_vars() == b.num_vars() == 1:
        x = fresh("wx", a.var_sort(0)); return same_term(c, name, z3.substitute_vars(a.body(), x), z3.substitute_vars(b.body(), x))
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()):
        if a.decl().name() in ("SUM", "SUMR", "PAR") and a.num_args() == 3:
            ok = c.ob(name + " (range)", z3.And(a.arg(0) == b.arg(0), a.arg(1) == b.arg(1))); k = fresh("wk"); E.ctxs.append(core.Ctx([]))
            try:
                E.assume(z3.And(k >= a.arg(0), k < a.arg(1)))
                return same_term(c, name, simp(z3.Select(a.arg(2), k)), simp(z3.Select(b.arg(2), k))) and ok
            finally: E.ctxs.pop()
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(1).eq(b.arg(1)) and a.arg(2).eq(b.arg(2)): return same_term(c, name, a.arg(0), b.arg(0))
        if z3.is_not(a): return same_term(c, name, a.arg(0), b.arg(0))
    return c.ob(name, a == b)
