from contracts.lib import *
from vc import cxx
NOTES = dict(assumptions=["every node has its own vertex index; parents, children and cluster members are live nodes", "integers are mathematical"],
             trusted=["std::vector (append, clear, element order), std::move over iterators copies the elements in order"],
             explanation="representation invariant: the parent pointers form a forest (ghost: the root and the depth of every node); merging is obliged to establish it again for the changed parents with the ghost maps updated, for every heap and every pair of nodes")
NULL = -1
def fun(name, *s):
    f = z3.Function(f"{name}!{fun.k}", *s); fun.k += 1
    return f
fun.k = 0
class Heap:
    """ghost heap of tree nodes: one total function per field, sequences as length and element"""
    SC = ("vertexIdx", "isCheck", "parent", "clusterSize", "marked", "deleted")
    SQ = ("children", "checkVertices")
    def __init__(self):
        self._vc_born = born()
        self.f = {}
        for n in self.SC: self.f[n] = fun(n, I, B if n in ("isCheck", "marked", "deleted") else I)
        for n in self.SQ: self.f[n] = (fun(n + ".size", I, I), fun(n, I, I, I))
        self.root, self.depth, self.inv = fun("root", I, I), fun("depth", I, I), fun("byIndex", I, I)
        self.log = []; self.old = dict(self.f); self.dirty = set()
    def _vc_save(self): return (dict(self.f), set(self.dirty))
    def _vc_load(self, s): self.f, self.dirty = dict(s[0]), set(s[1])
    def facts(self, x):
        """the forest invariant (of the heap as it was on entry) at one node"""
        p = self.old["parent"](x)
        E.assume(z3.Implies(x >= 0, z3.And(p >= NULL, self.depth(x) >= 0, self.root(x) >= 0, self.old["parent"](self.root(x)) == NULL, self.root(self.root(x)) == self.root(x), self.old["clusterSize"](x) >= 1, self.old["vertexIdx"](x) >= 0,
            self.inv(self.old["vertexIdx"](x)) == x, z3.Implies(p == NULL, z3.And(self.root(x) == x, self.depth(x) == 0)),
            z3.Implies(p >= 0, z3.And(self.root(x) == self.root(p), self.depth(x) == self.depth(p) + 1)), *[self.old[q][0](x) >= 0 for q in self.SQ])))
    def node(self, t):
        t = simp(t); self.facts(t); return Node(self, t)
    def put(self, field, x, v):
        self.log.append(None); E.touch(self); o = self.f[field]; self.dirty = self.dirty | {field}
        self.f[field] = lambda y, o=o, x=x, v=v: z3.If(y == x, v, o(y))
class Node:
    """pointer or reference to a node"""
    def __init__(self, h, t): self.__dict__.update(h=h, t=t)
    def vc_null(self): return mk(simp(self.t == NULL))
    def vc_deref(self): return self
    def vc_eq(self, o): return mk(simp(self.t == o.t))
    def vc_cp(self): return self
    def __getattr__(self, n):
        h = self.h
        if n == "parent": return h.node(h.f["parent"](self.t))
        if n in h.SC: return mk(simp(h.f[n](self.t)))
        if n in h.SQ: return SeqRef(h, n, self.t)
        if n.startswith("__") or n.startswith("vc_") or n.startswith("_vc"): raise AttributeError(n)
        raise Unsupported("node field " + n)
    def __setattr__(self, n, v):
        if n not in self.h.SC: raise Unsupported("write of node field " + n)
        if n == "parent": v = NULL if v is None else v.t
        v = lift(v)
        if n in ("isCheck", "marked", "deleted"): v = to_bool(v)
        self.h.put(n, self.t, v)
    def __eq__(self, o): return isinstance(o, Node) and bool(mk(self.t == o.t))
    __hash__ = object.__hash__
class SeqRef:
    def __init__(self, h, f, t): self.h, self.f, self.t = h, f, t
    def vc_size(self): return mk(simp(self.h.f[self.f][0](self.t)))
    def raw(self, i): return self.h.f[self.f][1](self.t, i)
    def vc_get(self, i):
        v = self.raw(lift(i)); return self.h.node(v) if self.f == "children" else mk(simp(v))
    def set(self, n, fn, log=None):
        h = self.h; h.log.append(log); E.touch(h); on, of = h.f[self.f]; t = self.t; h.dirty = h.dirty | {self.f}
        h.f[self.f] = (lambda y: z3.If(y == t, n, on(y)), lambda y, i: z3.If(y == t, fn(i), of(y, i)))
    def append(self, n, fn):
        l = lift(self.vc_size()); of = self.h.f[self.f][1]
        self.set(simp(l + n), log=(self.f, self.t, n, fn), fn=lambda i: z3.If(i < l, of(self.t, i), fn(i - l)))
    def extend(self, segs): raise Unsupported("append of a list to a node")
    def val(self, v): return v.t if isinstance(v, Node) else lift(v)
    def vc_elems(self, mutable):
        s = seqs.Seq(lift(self.vc_size()), lambda i: self.vc_get(mk(i) if z3.is_expr(i) else i)); s.ref = self; return s
    def rng(self, b, e):
        """the elements between two iterators, as they are now"""
        s = b.o; lo, hi = lift(b.i), lift(e.i); E.oblige("iterator range inside the vector", z3.And(lo >= 0, lo <= hi, hi <= lift(s.vc_size())))
        f = s.h.f[s.f][1]; return s.t, simp(hi - lo), (lambda i: f(s.t, lo + i))
    def vc_m(self, name, *a):
        if name == "size": return self.vc_size()
        if name == "empty": return mk(simp(lift(self.vc_size()) == 0))
        if name in ("begin", "cbegin"): return cxx.It(self, 0)
        if name in ("end", "cend"): return cxx.It(self, self.vc_size())
        if name in ("emplace_back", "push_back"): v = self.val(a[0]); self.append(1, lambda i: v); return None
        if name == "clear": self.set(z3.IntVal(0), self.h.f[self.f][1] and (lambda i: z3.IntVal(0))); return None
        if name == "reserve": return None
        if name == "insert" and len(a) == 3 and isinstance(a[0], cxx.It):
            E.oblige("insertion at the end", z3.And(lift(a[0].i) == lift(self.vc_size()), z3.BoolVal(a[0].o.f == self.f), a[0].o.t == self.t)); self.take(a[1], a[2]); return None
        return NotImplemented
    def vc_assign(self, v):
        if not isinstance(v, PList): raise Unsupported("assignment of a vector of a node")
        xs = [s[1] if s[0] != "s" else None for s in v.segs]
        if None in xs: raise Unsupported("assignment of a vector of a node")
        ts = [self.val(x) for x in xs]
        def fn(i):
            r = z3.IntVal(0)
            for k, x in enumerate(ts): r = z3.If(i == k, x, r)
            return r
        self.set(z3.IntVal(len(ts)), fn)
    def take(self, b, e):
        src, n, fn = self.rng(b, e); E.oblige("source and target are different vectors", z3.Or(z3.BoolVal(b.o.f != self.f), src != self.t)); self.append(n, fn)
def move(*a):
    if len(a) == 1: return a[0]
    b, e, out = a; out.o.take(b, e)
def unit(c, own=()):
    env, rt, dig = cxx.load("include/TreeNode.hpp", ["TreeNode"], "TreeNode", hooks={"std": {"move": move, "copy": move}}, only={("TreeNode", n) for n in ("Find", "Union", "addFirstToSecondTree")})
    h = Heap(); return env["TreeNode"], rt, h
def live(h, name):
    x = fresh(name); E.assume(x >= 0); return h.node(x)
def same(c, h, fields, at=None):
    """everything else is as before (for every node)"""
    y = fresh("y"); E.assume(y >= 0); i = fresh("i")
    for f in fields:
        if f not in h.dirty: c.ob(f"{f} of every node is unchanged", True); continue
        out = [y != x for x in (at or {}).get(f, ())]
        if f in h.SC: c.ob(f"{f} of every other node is unchanged", z3.Implies(z3.And(out), h.f[f](y) == h.old[f](y)))
        else: c.ob(f"{f} of every other node is unchanged", z3.Implies(z3.And(out), z3.And(h.f[f][0](y) == h.old[f][0](y), z3.Implies(z3.And(i >= 0, i < h.old[f][0](y)), h.f[f][1](y, i) == h.old[f][1](y, i)))))
def pre_find(h, less=None):
    def Find(x):
        x = C_rt.rt.deref(x)
        if less is not None: E.oblige("recursive call on a node nearer to the root", h.depth(x.t) < h.depth(less.t))
        return h.node(h.root(x.t))
    return Find
class C_rt: rt = None
class Moves:
    """loop rule: every pass appends one element, determined by the position, to one vector of a node"""
    def __init__(self, h): self.h = h; setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        h, names = self.h, list(names); k = fresh("k"); out = []
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); set_(tuple(forget(v) for v in i0)); h.log.clear(); return body(it.item(V(k)))
        i0 = get(); start = born(); src = getattr(it, "ref", None)
        def on(p):
            bad = [o for o in unlisted({}, start)] or any(o is not h and not isinstance(o, (SArr, PList)) for o, _ in E.ctxs[-1].journal.values())
            ok = p.exc is None and p.result is loops.CONT and len(h.log) == 1 and h.log[0] is not None and not bad
            if not ok or out: raise Unsupported("loop in a merge that is not a plain append")
            f, t, n, fn = h.log[0]
            if src is not None and src.f == f: E.oblige("the vector that is iterated does not grow", src.t != t)
            out.append((f, t, simp(fn(z3.IntVal(0)))))
        E.explore(run, on)
        if out:
            f, t, v = out[0]; n = lift(it.n)
            SeqRef(h, f, t).append(n, lambda i: z3.substitute(v, (k, lift(i))))
        set_(tuple(forget(v) if v is not w else v for v, w in zip(i0, i0)))
        return loops.CONT
class Climb:
    """loop rule for walks towards the root: of the candidate invariants those that hold on entry and are kept by the body"""
    def __init__(self, c, h, x0): self.c, self.h, self.x0 = c, h, x0; setattr(E, "loops", self)
    def get(self, lid, d=None): return self.rule
    def rule(self, rt, cond, body, get, set_, names):
        c, h, names = self.c, self.h, list(names); i0 = get(); R = h.root(self.x0.t)
        vs = [j for j, v in enumerate(i0) if isinstance(v, Node) or v is None]
        if hasattr(cond, "n") or not callable(cond): raise Unsupported("for loop in Find")
        tm = lambda v: z3.IntVal(NULL) if v is None else v.t
        par = lambda t: h.old["parent"](t)
        cands = {("live", j): (lambda s, j=j: tm(s[j]) >= 0) for j in vs}
        cands.update({("root", j): (lambda s, j=j: z3.Or(tm(s[j]) == NULL, h.root(tm(s[j])) == R)) for j in vs})
        for j in vs:
            for k in vs:
                if j != k: cands["parent", j, k] = lambda s, j=j, k=k: z3.Implies(tm(s[j]) >= 0, tm(s[k]) == par(tm(s[j])))
        keep = {n: f for n, f in cands.items() if E.entails(f(i0))}
        dep = lambda s, j: z3.If(tm(s[j]) == NULL, z3.IntVal(-1), h.depth(tm(s[j])))
        start = born()
        def enter(ks):
            s = list(forget(v) if j not in vs else None for j, v in enumerate(i0))
            for j in vs: t = fresh("at"); E.assume(t >= NULL); s[j] = h.node(t)
            for f in ks.values(): E.assume(f(s))
            set_(tuple(s)); return s
        while True:
            lost, dec, fails = set(), set(vs), []
            def run():
                run.old = enter(keep); run.known = listed()
                if not bool(cond()): raise PathEnd()
                return body()
            def on(p):
                if p.exc is not None or p.result is not loops.CONT: fails.append(1); return
                s = get()
                for n, f in keep.items():
                    if not E.entails(f(s)): lost.add(n)
                for j in list(dec):
                    if not E.entails(dep(s, j) < dep(run.old, j)): dec.discard(j)
                if h.dirty: fails.append(2)
            mark = len(E.obls); E.explore(run, on)
            if not lost: break
            del E.obls[mark:]
            keep = {n: f for n, f in keep.items() if n not in lost}
        c.ob("loop: the body runs through and leaves the forest alone", not fails)
        c.ob("loop: every pass climbs (termination)", bool(dec))
        enter(keep)
        if bool(cond()): raise PathEnd()
        return loops.CONT

@contract("C04", "include/TreeNode.hpp:TreeNode.Find")
def find(c):
    T, rt, h = unit(c); C_rt.rt = rt; x = live(h, "x")
    rt.hooks["TreeNode", "Find"] = pre_find(h, x)
    def go(): Climb(c, h, x); h._vc_load((dict(h.old), set())); return T.Find(x)
    def post(r):
        c.ob("a node is returned", isinstance(r, Node) and r.t >= 0)
        c.ob("the root of the node's tree is returned", r.t == h.root(x.t))
        c.ob("the returned node has no parent", h.old["parent"](r.t) == NULL)
        same(c, h, h.SC + h.SQ)
    c.run(go, post, frame=False)

def attach(h, a, b, c, cv, cvn):
    """post state of attaching root a below root b, at the fields of both"""
    o = h.old; i = fresh("i")
    c.ob("the root that is attached points to the other root", h.f["parent"](a) == b)
    c.ob("the other root keeps no parent", h.f["parent"](b) == NULL)
    c.ob("sizes add up", h.f["clusterSize"](b) == o["clusterSize"](a) + o["clusterSize"](b))
    n = o["children"][0](b)
    c.ob("exactly one child is added", h.f["children"][0](b) == n + 1)
    c.ob("the child that is added is the attached root", h.f["children"][1](b, n) == a)
    c.ob("earlier children stay", z3.Implies(z3.And(i >= 0, i < n), h.f["children"][1](b, i) == o["children"][1](b, i)))
    k, l = o["checkVertices"][0](b), o["checkVertices"][0](a); g = h.f["checkVertices"]
    c.ob("syndrome vertices: none lost, none duplicated", g[0](b) == k + l)
    c.ob("syndrome vertices of the larger cluster stay", z3.Implies(z3.And(i >= 0, i < k), g[1](b, i) == o["checkVertices"][1](b, i)))
    c.ob("syndrome vertices of the smaller cluster are moved", z3.Implies(z3.And(i >= 0, i < l), g[1](b, k + i) == o["checkVertices"][1](a, i)))
    c.ob("the attached root keeps its own syndrome vertex only", g[0](a) == z3.If(o["isCheck"](a), z3.IntVal(1), z3.IntVal(0)))
    c.ob("the attached root keeps its own index", z3.Implies(o["isCheck"](a), g[1](a, 0) == o["vertexIdx"](a)))
    same(c, h, h.SC + h.SQ, {"parent": [a], "clusterSize": [b], "children": [b], "checkVertices": [a, b]})
    # the forest invariant for the new parents: members of a's tree now belong to b's tree
    y = fresh("y"); E.assume(y >= 0); h.facts(y); p = h.f["parent"](y); h.facts(simp(p)); h.facts(o["parent"](y))
    root = lambda z: z3.If(h.root(z) == a, b, h.root(z)); dep = lambda z: z3.If(h.root(z) == a, h.depth(z) + 1, h.depth(z))
    c.ob("forest: a node without parent is its own root", z3.Implies(p == NULL, z3.And(root(y) == y, dep(y) == 0)))
    c.ob("forest: the root is inherited from the parent", z3.Implies(p >= 0, root(y) == root(p)))
    c.ob("forest: the depth grows by one (no cycle)", z3.Implies(p >= 0, dep(y) == dep(p) + 1))
    c.ob("forest: members of both trees and no others belong to the merged tree", (root(y) == b) == z3.Or(h.root(y) == a, h.root(y) == b))
@contract("C04", "include/TreeNode.hpp:TreeNode.addFirstToSecondTree")
def add(c):
    T, rt, h = unit(c); a, b = live(h, "a"), live(h, "b")
    E.assume(z3.And(h.old["parent"](a.t) == NULL, h.old["parent"](b.t) == NULL, a.t != b.t))
    def go(): Moves(h); h._vc_load((dict(h.old), set())); return T.addFirstToSecondTree(a, b)
    c.run(go, lambda r: attach(h, a.t, b.t, c, None, None), frame=False)
@contract("C04", "include/TreeNode.hpp:TreeNode.Union")
def union(c):
    T, rt, h = unit(c); C_rt.rt = rt; x, y = live(h, "x"), live(h, "y"); rt.hooks["TreeNode", "Find"] = pre_find(h)
    def go(): Moves(h); h._vc_load((dict(h.old), set())); return T.Union(x, y)
    def post(r):
        a, b = h.root(x.t), h.root(y.t)
        h.facts(a); h.facts(b)
        if E.entails(a == b): same(c, h, h.SC + h.SQ); return
        c.ob("no merge happens within one tree", a != b)
        sa, sb = h.old["clusterSize"](a), h.old["clusterSize"](b)
        # ties may be broken either way
        if not h.dirty: c.ob("different trees are merged", False); return
        if E.entails(h.f["parent"](a) == b): c.ob("the smaller tree goes below the larger", sa <= sb); attach(h, a, b, c, None, None)
        else: c.ob("the smaller tree goes below the larger", sb <= sa); attach(h, b, a, c, None, None)
    c.run(go, post, frame=False)
class Bset:
    def __init__(self): self.xs = []; self._vc_born = born()
    def vc_m(self, name, *a):
        if name in ("emplace", "insert"): self.xs.append(a[0]); return None
        if name == "size": return len(self.xs)
        return NotImplemented
@contract("C04", "include/TreeNode.hpp:TreeNode.TreeNode")
def ctor(c):
    env, rt, dig = cxx.load("include/TreeNode.hpp", ["TreeNode"], "TreeNode", hooks={"new": lambda s, t, a: Bset() if "unordered_set" in t else NotImplemented}, only={("TreeNode", "__ctor__")})
    i = Nat("i")
    def post(n):
        c.ob("index", lift(n.vertexIdx) == i.t); c.ob("a new node is a root of its own", n.parent is None); c.ob("cluster of size one", lift(n.clusterSize) == 1)
        c.ob("no children", lift(loops.b_len(n.children)) == 0); c.ob("no syndrome vertices", lift(loops.b_len(n.checkVertices)) == 0); c.ob("not a check", not n.isCheck)
        c.ob("boundary: the node itself", len(n.boundaryVertices.xs) == 1 and E.entails(lift(n.boundaryVertices.xs[0]) == i.t))
    c.run(lambda: env["TreeNode"](i), post)
