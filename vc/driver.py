"""Contract runner: each contract is one function of /repo, verified against its spec in its own process."""
from __future__ import annotations
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback, ast
import z3
from . import core
from .core import *
from .core import E
from . import arrays as A, seqs, loops, models
from .arrays import SArr, sym_array
from .seqs import PList, PSet, PDict, Seq, SStr, SChar
from .pyfront import Loader, SRC, REPO

REG = []   # (prop, target, name, fn)

def contract(prop, target, name=None):
    def deco(f):
        REG.append((prop, target, name or f.__name__, f)); return f
    return deco

class C:
    """verification context of one contract"""
    def __init__(self, target):
        self.loader = Loader(models.MODELS); self.target = target; self.npaths = 0
        self.covers = 0
    def mod(self, name): return self.loader.load("mqt.qecc." + name)
    def fn(self, target=None):
        t = target or self.target
        m, q = t.split(":")
        o = self.mod(m)
        if "." in q:
            c, f = q.split("."); return getattr(getattr(o, c), f)
        return getattr(o, q)
    def cls(self, m, q): return getattr(self.mod(m), q)
    def obj(self, m, q, **attrs):
        cl = self.cls(m, q)
        o = object.__new__(cl); o.__dict__["_vc_born"] = born(); o.__dict__.update(attrs); return o
    def run(self, thunk, post=None, raises=None, name="", modifies=(), pre=None, frame=True):
        """explore all paths of thunk(); on each path discharge post(result) or raises(exc)"""
        start = born()
        tag = name or self.target.split(":")[1]
        def on_path(p):
            self.npaths += 1
            if p.exc is not None:
                if raises is None:
                    E.obls.append(Obl(f"{tag}: no exception", "refuted" if E.feasible() else "proved", f"raises {type(p.exc).__name__}: {p.exc} when {simp(z3.And(*p.pc)) if p.pc else True}"[:1500], 0, E.cur))
                else: raises(p.exc)
            else:
                if post is not None: post(p.result)
            if frame:
                for obj, old in list(E.ctxs[-1].journal.values()):
                    if getattr(obj, "_vc_born", 1 << 60) < start and not any(obj is m for m in modifies):
                        self.frame_obl(tag, obj, old)
        paths = E.explore(thunk, on_path, pre)
        if not paths: E.fail(f"{tag}: reachable", "no feasible path (vacuous precondition)")
        return paths
    def frame_obl(self, tag, obj, old):
        if isinstance(obj, SArr):
            xs = [fresh("fr") for _ in obj._shape]
            E.oblige(f"{tag}: frame: {obj.name or 'array'} unchanged", z3.Implies(z3.And(*[z3.And(x >= 0, x < lift(d)) for x, d in zip(xs, obj._shape)]), obj.fn(*xs) == old[0](*xs)))
        elif isinstance(obj, PList):
            same = len(obj.segs) == len(old) and all(a is b or (a[0] == b[0] and a[1] is b[1]) for a, b in zip(obj.segs, old))
            if not same: E.oblige(f"{tag}: frame: list unchanged", z3.BoolVal(False))
        elif isinstance(obj, loops.PObj):
            for k, v in obj.__dict__.items():
                if k not in old or old[k] is not v:
                    try: same = seqs.eq_vals(v, old.get(k))
                    except BaseException: same = False
                    E.oblige(f"{tag}: frame: attribute {k} unchanged", to_bool(lift(same)) if not isinstance(same, bool) else z3.BoolVal(same))
        else:
            E.oblige(f"{tag}: frame: {type(obj).__name__} unchanged", z3.BoolVal(False))
    def ob(self, name, goal, timeout=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, V): goal = to_bool(goal.t)
        r = E.oblige(f"{self.target.split(':')[1]}: {name}", goal, timeout)
        if not r and sum(o.status != "proved" for o in E.obls) >= 8: raise TooMany("eight obligations failed, the remaining ones of this contract are skipped")
        return r
class TooMany(BaseException): pass

def arr_is(c, name, got, shape, spec, kind=None):
    """obligation: got is an array of the given shape with got[i..] == spec(i..)"""
    if not isinstance(got, SArr): return c.ob(f"{name} is an array", False)
    if got.ndim != len(shape): return c.ob(f"{name}: rank", False)
    ok = c.ob(f"{name}: shape", z3.And(*[lift(a) == lift(b) for a, b in zip(got._shape, shape)]))
    xs = [fresh("ix") for _ in shape]
    rng = z3.And(*[z3.And(x >= 0, x < lift(d)) for x, d in zip(xs, shape)])
    E.ctxs.append(core.Ctx([]))
    try:
        E.assume(rng)
        g, s = got.at(*xs), spec(*xs)
        g, s = A.unify2(lift(g), lift(s)) if lift(g).sort() != lift(s).sort() else (lift(g), lift(s))
        return c.ob(f"{name}: entries", z3.Implies(rng, g == s)) and ok
    finally: E.ctxs.pop()

def source_digest(target):
    m, q = target.split(":")
    try:
        p = os.path.join(SRC, "mqt", "qecc", *m.split("."))
        p = p + ".py" if os.path.isfile(p + ".py") else os.path.join(p, "__init__.py")
        src = open(p).read(); tree = ast.parse(src)
        body = tree.body
        parts = q.split(".")
        node = None
        for nm in parts:
            node = next((n for n in body if getattr(n, "name", None) == nm), None)
            if node is None: return None
            body = node.body
        return hashlib.sha256(ast.get_source_segment(src, node).encode()).hexdigest()[:16]
    except Exception: return None

def _run_one(args):
    idx, = args
    prop, target, name, f = REG[idx]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    E.reset(); models.gf2.reset(); models.mod2.log = []; A.ALG = None
    E.cur = name
    err = None
    dig = None
    try:
        dig = f.digest(target) if hasattr(f, "digest") else source_digest(target)
        c = f.ctx(target) if hasattr(f, "ctx") else C(target)
        f(c)
    except Unsupported as e:
        err = f"unsupported: {e}"
    except PathEnd:
        err = "contradictory assumption at top level"
    except BaseException as e:
        err = f"{type(e).__name__}: {e} @ " + " | ".join(traceback.format_exc().strip().splitlines()[-6:])
    if err: E.fail(f"{target.split(':')[1]}: contract evaluated", err)
    # vacuity: the assumptions of the contract are satisfiable
    try:
        if E.base:
            s = z3.Solver(); s.set("timeout", 3000); s.add(*E.base)
            if s.check() == z3.unsat: E.fail(f"{target.split(':')[1]}: precondition satisfiable", "contradictory precondition")
    except z3.Z3Exception: pass
    return dict(prop=prop, target=target, name=name, digest=dig, secs=time.time() - t0, solver=E.solver_time, queries=E.queries,
                trusted=dict(E.trusted), obls=[(o.name, o.status, str(o.detail)[:2000], round(o.secs, 3)) for o in E.obls])

def _worker(idx, q):
    try: q.put((idx, _run_one((idx,))))
    except BaseException as e:
        q.put((idx, dict(prop=REG[idx][0], target=REG[idx][1], name=REG[idx][2], digest=None, secs=0, solver=0, queries=0, trusted={}, obls=[("contract evaluated", "unknown", repr(e)[:500], 0)])))

def run_all(idxs, jobs=8, limit=240, soft=None):
    """run the contracts with the given registry indices in forked processes; soft: once this many seconds have passed and
    obligations have failed, the contracts still running are given up"""
    import threading
    ctx = mp.get_context("fork")
    pend = list(idxs); run = {}; out = {}
    q = ctx.SimpleQueue(); start = time.time()
    while pend or run:
        if soft and time.time() - start > soft and any(o[1] != "proved" for r in out.values() for o in r["obls"]):
            for i, (p, r, t0) in run.items(): p.kill(); p.join(); out[i] = _dead(i, "given up: other obligations have failed")
            for i in pend: out[i] = _dead(i, "given up: other obligations have failed")
            break
        while pend and len(run) < jobs:
            i = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_pipe_worker, args=(i, w)); p.start(); w.close()
            run[i] = (p, r, time.time())
        time.sleep(0.01)
        for i, (p, r, t0) in list(run.items()):
            if r.poll():
                try: out[i] = r.recv()
                except EOFError: out[i] = _dead(i, "worker died")
                p.join(); del run[i]
            elif not p.is_alive() and not r.poll():
                out[i] = _dead(i, f"worker exited with {p.exitcode}"); del run[i]
            elif time.time() - t0 > limit:
                p.kill(); p.join(); out[i] = _dead(i, f"no answer within {limit} s"); del run[i]
    return [out[i] for i in idxs]

def _dead(i, why):
    return dict(prop=REG[i][0], target=REG[i][1], name=REG[i][2], digest=None, secs=0, solver=0, queries=0, trusted={}, obls=[(f"{REG[i][1]}: contract evaluated", "unknown", why, 0)])

def _pipe_worker(i, w):
    w.send(_run_one((i,)))
    w.close()
    os._exit(0)
