import itertools
from contracts.lib import *
from vc import cxx
NOTES = dict(assumptions=["check matrices are rectangular and not empty, the code's length is their number of columns, and the number of nodes fits a machine word", "integers are mathematical; allocation does not fail"],
             trusted=["std::set, std::queue, std::vector, std::includes, std::any_of, std::find_if by their mathematical meaning; a set that holds c and is closed under neighbours contains the connected component of c (definition of a component); random choices return an index inside the requested range"],
             outside=["termination of the union-find heuristic is checked by bounded replay only; its growth and fusion are proved to touch nodes of the graph only"],
             explanation="sets of Tanner-graph nodes are predicates; the search for components carries an invariant (found by filtering candidates) that ties the visited set, the current component and the work list to the ghost component of every node, the growth functions are obliged to add a node whenever some component can grow (which ends the growth loop), and the assembly is obliged to set exactly the listed bits of a vector with one entry per qubit")
def fun(name, *s): return z3.Function(f"{name}!{next(core._fresh)}", *s)
# ------------------------------------------------------------------ facts that are instantiated where they are needed
class W: facts, terms, gen, ops, derive = [], [], [], None, None
def fact(ar, fn, everywhere=False):
    """everywhere: holds on all paths (choice of witnesses), also for every value of the enclosing loop items"""
    if W.gen:
        gen = list(W.gen); xs = [fresh("x") for _ in range(ar)]; t = fn(*xs); old = [*gen, *xs]
        W.facts.append((ar + len(gen), (lambda *a: z3.substitute(t, *zip(old, a))), None if everywhere else (E.ctxs[-1] if E.ctxs else None)))
    else: W.facts.append((ar, fn, None if everywhere else (E.ctxs[-1] if E.ctxs else None)))
def obl(name, goal, *ts):
    if E.entails(goal): E.oblige(name, goal); return
    E.ctxs.append(core.Ctx([]))
    try:
        for f in instances(dedup([*ts, *W.terms])): E.assume(f)
        E.oblige(name, goal)
    finally: E.ctxs.pop()
def dedup(ts):
    out = []
    for t in ts:
        t = simp(t)
        if not any(t.eq(x) for x in out): out.append(t)
    return out
def term(*ts):
    for t in ts:
        t = simp(t)
        if not any(t.eq(x) for x in W.terms):
            W.terms.append(t)
            for u in (W.derive(t) if W.derive else ()): W.terms.append(simp(u))
def instances(ts):
    out = []
    for ar, fn, where in W.facts:
        if where is not None and not any(where is x for x in E.ctxs): continue
        for key in itertools.product(ts, repeat=ar):
            k = (id(fn), *[t.get_id() for t in key]); f = INST.get(k)
            if f is None: f = INST[k] = (simp(fn(*key)), fn, key)
            if not z3.is_true(f[0]): out.append(f[0])
    return out
INST = {}
KNOWN = set()
def know(t):
    """a fact (not a decision of the code)"""
    t = simp(lift(t)); KNOWN.add(t.get_id()); KNOWN_KEEP.append(t); E.assume(t)
KNOWN_KEEP = []
def prove(c, name, goal, *ts):
    E.ctxs.append(core.Ctx([]))
    try:
        seen = []
        for t in [*ts, *W.terms]:
            t = simp(t)
            if not any(t.eq(x) for x in seen): seen.append(t)
        for f in instances(seen): E.assume(f)
        return c.ob(name, goal)
    finally: E.ctxs.pop()
def holds(goal, *ts): return holds_(goal, ts, ()) or holds_(goal, ts, W.terms)
def holds_(goal, ts, more):
    E.ctxs.append(core.Ctx([]))
    try:
        seen = []
        for t in [*ts, *more]:
            t = simp(t)
            if not any(t.eq(x) for x in seen): seen.append(t)
        for f in instances(seen): E.assume(f)
        return E.entails(goal)
    except PathEnd: return True
    finally: E.ctxs.pop()
def sk(name, sort=I): return E.skolem(name, sort, tuple(W.gen))
def op(*a):
    if W.ops is not None: W.ops.append(a)
# ------------------------------------------------------------------ containers
class End: pass
END = End()
class Pos:
    """position in a container: an element (found says whether there is one) or the end"""
    def __init__(self, o, found, val): self.o, self.found, self.val = o, found, val
    def vc_eq(self, x):
        if x is END or isinstance(x, Pos) and x.found is None: return mk(simp(z3.Not(self.found))) if self.found is not None else True
        raise Unsupported("comparison of positions")
    def vc_deref(self):
        obl("position refers to an element", self.found if self.found is not None else z3.BoolVal(False)); know(self.found); return self.o.item(self.val)
    def vc_cp(self): return self
class Rng:
    """begin() of a family; advance moves it"""
    def __init__(self, o): self.o, self.i, self._vc_born = o, 0, born()
    def _vc_save(self): return self.i
    def _vc_load(self, s): self.i = s
    def vc_deref(self):
        o = self.o; obl("position refers to an element", z3.And(lift(self.i) >= 0, lift(self.i) < lift(o.vc_size())))
        e = sk("element"); know(o.dom(e)); term(e); return o.item(e)
    def vc_cp(self): return self
SOME, COUNT, POSN = {}, {}, {}
class Fam:
    """items named by a ghost index k with dom(k)"""
    def __init__(self, dom, item): self.dom, self.item, self._vc_born = dom, item, born()
    def look(self, *what):
        """what was said about this very family before (in this scope or an enclosing one)"""
        f = self.dom; g = tuple(x.get_id() for x in W.gen); ks = [(id(f), *what, g[:i]) for i in range(len(g) + 1)]
        return next((SOME[k][1] for k in ks if k in SOME), None), ks[-1]
    def some(self):
        hit, key = self.look()
        if hit is not None: return hit
        f = self.dom; w = sk("some"); d = self.dom(w); SOME[key] = (f, d); term(w); fact(1, lambda y, dom=self.dom: z3.Implies(dom(y), d), True); return d
    def vc_size(self):
        f = self.dom; n, key = self.look("size")
        if n is None: n = sk("count"); SOME[key] = (f, n)
        know(z3.And(n >= 0, n < 2**63, (n > 0) == self.some())); COUNT[n.get_id()] = (n, self.one() if isinstance(self, Bag) else self); return mk(n)
    def vc_get(self, i):
        """element at a position: positions stand for the elements they hold (see Rules)"""
        hit = POSN.get(simp(lift(i)).get_id())
        if hit is None or hit[1] is not self.dom: raise Unsupported("element of a family at a position")
        return self.item(hit[2])
    def vc_elems(self, mutable):
        s = seqs.Seq(lift(self.vc_size()), lambda i: (_ for _ in ()).throw(Unsupported("order of a family"))); s.fam = self; return s
    def vc_m(self, name, *a):
        if name == "size": return self.vc_size()
        if name == "empty": return mk(simp(z3.Not(self.some())))
        if name in ("begin", "cbegin"): return Rng(self)
        if name in ("end", "cend"): return END
        if name == "reserve": return None
        return NotImplemented
class USet(Fam):
    """set of node ids"""
    def __init__(self, mem, size=None): super().__init__(None, lambda k: V(k)); self.mem, self.size = mem, size
    dom = property(lambda self: self.mem, lambda self, v: None)
    def _vc_save(self): return (self.mem, self.size)
    def _vc_load(self, s): self.mem, self.size = s
    def has(self, t): op("read", self, simp(t)); return self.mem(t)
    def put(self, f, *o):
        E.touch(self); old = self.mem; self.size = None; self.mem = lambda y: z3.Or(old(y), f(y)); op(*o)
    def vc_cp(self): return USet(self.mem, self.size)
    def vc_assign(self, v): raise Unsupported("assignment through a reference to a set")
    def vc_size(self):
        if self.size is not None:
            n = self.size; know(z3.And(n >= 1, n < 2**63)); return mk(n)
        return Fam.vc_size(self)
    def vc_m(self, name, *a):
        if name in ("find", "count", "contains"):
            t = lift(a[0]); m = simp(self.has(t)); term(t)
            return Pos(self, m, t) if name == "find" else mk(m) if name == "contains" else mk(z3.If(m, z3.IntVal(1), z3.IntVal(0)))
        if name in ("insert", "emplace") and len(a) == 1: t = simp(lift(a[0])); term(t); self.put(lambda y: y == t, "ins", self, t); return None
        if name == "insert" and len(a) == 2:
            if not isinstance(a[0], Rng) or lift(a[0].i).eq(z3.IntVal(0)) is False or a[1] is not END: raise Unsupported("insertion of a part of a container")
            d = a[0].o.dom; self.put(d, "insfam", self, d); return None
        if name == "empty":
            y = fresh("y")
            if E.entails(z3.Not(self.mem(y))): return True
            return mk(simp(z3.Not(self.some())))
        if name == "clear": E.touch(self); self.mem = lambda y: z3.BoolVal(False); op("other", self); return None
        return Fam.vc_m(self, name, *a)
class Queue(USet):
    """work list; an element may be queued more than once"""
    def __init__(self): super().__init__(lambda y: z3.BoolVal(False)); self.head = None
    def _vc_save(self): return (self.mem, self.head)
    def _vc_load(self, s): self.mem, self.head = s
    def vc_m(self, name, *a):
        if name in ("push", "emplace", "push_back", "push_front", "emplace_back"): t = simp(lift(a[0])); term(t); self.put(lambda y: y == t, "ins", self, t); return None
        if name in ("front", "top", "back"):
            if self.head is None:
                E.touch(self); h = sk("head"); obl("work list is not empty", self.some()); self.head = h; know(self.mem(h)); term(h)
            return mk(self.head)
        if name in ("pop", "pop_front", "pop_back"):
            op("other", self); self.vc_m("front"); h, more, old = self.head, sk("more", B), self.mem; E.touch(self); self.head = None
            self.mem = lambda y: z3.And(old(y), z3.Or(y != h, more)); return None
        if name == "empty": return Fam.vc_m(self, name, *a)
        if name == "size": return Fam.vc_size(self)
        raise Unsupported("work list operation " + name)
class Bag(Fam):
    """vector whose order does not matter: families of appended items"""
    def __init__(self, parts=()): super().__init__(None, None); self.parts = list(parts)
    def _vc_save(self): return (list(self.parts),)
    def _vc_load(self, s): self.parts = list(s[0])
    dom = property(lambda self: self.one().dom, lambda self, v: None)
    item = property(lambda self: self.one().item, lambda self, v: None)
    def one(self):
        if not self.parts: return Fam(lambda k: z3.BoolVal(False), lambda k: V(k))
        if len(self.parts) != 1: raise Unsupported("vector appended to at several places")
        return self.parts[0]
    def add(self, fam, *o): E.touch(self); self.parts = self.parts + [fam]; op(*o)
    def vc_cp(self): return Bag(self.parts)
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"):
            x = a[0]
            if len(a) == 2: x = USet(a[0].o.dom)
            if isinstance(x, USet): x = x.vc_cp()
            self.add(Fam(lambda k: k == 0, lambda k: x), "app", self, x); return None
        if name == "empty" and not self.parts: return True
        if name == "clear": E.touch(self); self.parts = []; op("other", self); return None
        return Fam.vc_m(self, name, *a)
class Bits:
    """vector<bool> of a fixed size"""
    def __init__(self, n, fn): self._vc_born, self.n, self.fn = born(), lift(n), fn
    def _vc_save(self): return (self.n, self.fn)
    def _vc_load(self, s): self.n, self.fn = s
    def vc_size(self): return mk(self.n)
    def vc_get(self, i): op("read", self, simp(lift(i))); return mk(simp(self.fn(lift(i))))
    def vc_set(self, i, v):
        i = simp(lift(i)); b = simp(to_bool(lift(v))); E.touch(self); o = self.fn; self.fn = lambda j: z3.If(j == i, b, o(j)); op("store", self, i, b)
    def vc_cp(self): return Bits(self.n, self.fn)
    def vc_m(self, name, *a):
        if name == "size": return mk(self.n)
        if name == "empty": return mk(simp(self.n == 0))
        if name == "at": return RTX.rt.at(self, a[0])
        if name in ("resize", "assign"):
            n, b, o, old = lift(a[0]), (to_bool(lift(a[1])) if len(a) > 1 else z3.BoolVal(False)), self.fn, self.n; E.touch(self); op("other", self)
            self.n = n; self.fn = (lambda j: b) if name == "assign" else (lambda j: z3.If(z3.And(j >= 0, j < old), o(j), b)); return None
        if name == "clear": E.touch(self); op("other", self); self.n = z3.IntVal(0); return None
        if name in ("begin", "cbegin"): return Rng(Fam(lambda k: z3.And(k >= 0, k < self.n), lambda k: mk(simp(self.fn(k)))))
        if name in ("end", "cend"): return END
        return NotImplemented
class RTX: rt = None
class Graph:
    """Tanner graph of an m x n check matrix"""
    def __init__(self):
        n, m = Nat("n", 1), Nat("m", 1); self.n, self.m = n.t, m.t; know(self.n + self.m < 2**63); self.h = fun("H", I, I, B)
    def U(self, x): return z3.And(x >= 0, x < self.n + self.m)
    def bit(self, x): return z3.And(x >= 0, x < self.n)
    def adj(self, x, y):
        n = self.n; return z3.And(self.U(x), self.U(y), z3.Or(z3.And(x < n, y >= n, self.h(y - n, x)), z3.And(y < n, x >= n, self.h(x - n, y))))
class Pcm:
    def __init__(self, g): self.g = g
    def vc_null(self): return False
    def vc_deref(self): return self
    @property
    def pcm(self): return Mat(self.g)
    def vc_m(self, name, *a):
        if name == "getNbrs": return nbrs(self.g, lift(a[0]))
        return NotImplemented
class Mat:
    """the matrix: rows are opaque, of the code's length"""
    def __init__(self, g): self.g = g
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_size(self): return mk(self.g.m)
    def vc_get(self, i): return MRow(self.g, lift(i))
    def vc_m(self, name, *a):
        if name == "size": return mk(self.g.m)
        if name == "at": E.oblige("row exists", z3.And(lift(a[0]) >= 0, lift(a[0]) < self.g.m)); return MRow(self.g, lift(a[0]))
        if name == "front": return MRow(self.g, z3.IntVal(0))
        return NotImplemented
class MRow:
    def __init__(self, g, i): self.g, self.i = g, i
    def vc_cp(self): return self
    def vc_m(self, name, *a): return mk(self.g.n) if name == "size" else NotImplemented
def nbrs(g, x):
    x = simp(x); obl("neighbours are asked of a node of the graph", g.U(x)); term(x)
    return Nbrs(g, x)
class Nbrs(Fam):
    def __init__(self, g, x): super().__init__(lambda y: g.adj(x, y), lambda k: V(k)); self.g, self.x = g, x
    def vc_cp(self): return self
class CodeStub:
    def __init__(self, g, gx=None): self.g, self.gx = g, gx
    def vc_null(self): return False
    def vc_deref(self): return self
    def getN(self): return mk(self.g.n)
    def gethZ(self): return Pcm(self.g)
    def gethX(self): return Pcm(self.gx or self.g)
# ------------------------------------------------------------------ standard algorithms
def includes(b, e, b2, e2):
    S, N = b.o.dom, b2.o.dom; o = sk("outside")
    out = z3.And(N(o), z3.Not(S(o))); fact(1, lambda y: z3.Implies(z3.And(N(y), z3.Not(S(y))), out), True); term(o)
    return mk(simp(z3.Not(out)))
def pred(fam, f):
    """the predicate as a formula of the ghost index"""
    k = fresh("k"); out = []; start = born(); W.gen.append(k)
    try:
        def run(): know(fam.dom(k)); r = f(fam.item(k)); return r
        def on(p):
            if p.exc is not None: raise Unsupported("exception in a predicate")
            for o, old in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) <= start and not getattr(o, "scratch", False): raise Unsupported("predicate with side effects")
            r = p.result; r = lift(r) if isinstance(r, V) else z3.BoolVal(bool(r))
            out.append(z3.And(*[t for t in p.pc if t.get_id() not in KNOWN], to_bool(r)))
        E.explore(run, on)
    finally: W.gen.pop()
    F = simp(z3.Or(out)); return lambda y: z3.substitute(F, (k, y))
def any_of(b, e, f):
    P, d = pred(b.o, f), b.o.dom; w = sk("chosen"); r = z3.And(d(w), P(w)); fact(1, lambda y: z3.Implies(z3.And(d(y), P(y)), r), True); term(*wterms(lambda t: r, w)); return mk(simp(r))
def all_of(b, e, f): return mk(simp(z3.Not(lift(any_of(b, e, lambda x: RTX.rt.not_(f(x)))))))
def find_if(b, e, f):
    P, d = pred(b.o, f), b.o.dom; w = sk("chosen"); r = z3.And(d(w), P(w)); fact(1, lambda y: z3.Implies(z3.And(d(y), P(y)), r), True); term(*wterms(lambda t: r, w)); return Pos(b.o, simp(r), w)
def advance(it, k):
    E.touch(it); it.i = it.i + k
class Rand:
    def vc_cp(self): return self
def new(rt, t, a):
    t = t.replace("const ", "").strip()
    if t == "DecodingResult" and not a: return Res(estimBoolVector=Bits(0, lambda j: z3.BoolVal(False)), estimNodeIdxVector=Bag(), decodingTime=0)
    if t.startswith("std::random_device"): return lambda: V(fresh("seed"))
    if t.startswith("std::mersenne_twister"): return Rand()
    if t.startswith("std::uniform_int_distribution"):
        lo, hi = a
        obl("random choice from a non-empty range", lift(lo) <= lift(hi))
        def draw(gen): v = sk("draw"); know(z3.And(v >= lift(lo), v <= lift(hi))); return mk(v)
        return draw
    if t.startswith(("std::set<", "std::unordered_set<")):
        if not a: return USet(lambda y: z3.BoolVal(False))
        if len(a) == 2 and isinstance(a[0], Rng): return USet(a[0].o.dom)
    if t.startswith(("std::queue<", "std::stack<", "std::deque<", "std::list<")) and not a: return Queue()
    if t in ("std::vector<bool>", "gf2Vec", "std::vector<bool, std::allocator<bool>>"):
        if len(a) == 1: return Bits(lift(a[0]), lambda j: z3.BoolVal(False))
    elif t.startswith("std::vector<") or t == "gf2Mat":
        if not a: return Bag()
        if len(a) == 2 and isinstance(a[0], Rng): return Bag([Fam(a[0].o.dom, a[0].o.item)])
        if len(a) == 1: return Bits(lift(a[0]), lambda j: z3.BoolVal(False))
    return NotImplemented
def std_fill(): return {"includes": includes, "any_of": any_of, "all_of": all_of, "find_if": find_if, "advance": advance, "now": lambda: Clock(), "duration_cast": lambda x: x}
class Clock:
    def __sub__(self, o): return self
    def count(self): t = sk("ms"); know(t >= 0); return mk(t)
# ------------------------------------------------------------------ loop rules
def decisions(p): return [t for t in p.pc if t.get_id() not in KNOWN]
def consts(t, out):
    for x in [t]:
        st = [x]; seen = set()
        while st:
            y = st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(y.decl().name())
            st.extend(y.children())
    return out
def by_position(it):
    """a loop over all positions of a container is a loop over its elements"""
    hit = COUNT.get(simp(lift(it.n)).get_id()); k = fresh("k")
    if hit is None: return None
    out = []; E.explore(lambda: it.item(V(k)), lambda p: out.append(p.result))
    if len(out) != 1 or not isinstance(out[0], V) or not lift(out[0]).eq(k): return None
    n, f = hit
    def item(e):
        p = sk("position"); know(z3.And(p >= 0, p < n)); POSN[p.get_id()] = (p, f.dom, e); return V(p)
    return Fam(f.dom, item)
class Rules:
    def __init__(self, c, whiles=None, fors=None): self.c, self.whiles, self.fors = c, whiles, fors; setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        if not hasattr(it, "n"):
            if self.whiles is None: raise Unsupported("while loop")
            return self.whiles(self, it, body, get, set_, list(names))
        fam = getattr(it, "fam", None) or by_position(it) or Fam(lambda k: z3.And(k >= 0, k < lift(it.n)), lambda k: it.item(V(k)))
        if self.fors is not None:
            r = self.fors(self, fam, body, get, set_, list(names))
            if r is not NotImplemented: return r
        return self.collect(fam, body, get, set_, list(names))
    def passes(self, fam, body, get, set_, k, before=None):
        """one pass for an arbitrary item: per path the decisions, the operations on containers and the variables afterwards"""
        i0 = list(get()); out = []; start = born(); keep = W.ops; W.gen.append(k)
        try:
            def run():
                W.ops = []; know(fam.dom(k)); term(k); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); before and before()
                run.at = get(); return body(fam.item(k))
            def on(p):
                if p.exc is not None or p.result is not loops.CONT: raise Unsupported("loop over a container that leaves early")
                out.append((decisions(p), list(W.ops), [a is not b for a, b in zip(run.at, get())], list(get()), [o for o, _ in E.ctxs[-1].journal.values() if getattr(o, "_vc_born", 0) <= start]))
            E.explore(run, on)
        finally: W.ops = keep; W.gen.pop(); set_(tuple(i0))
        return out
    def collect(self, fam, body, get, set_, names):
        """passes that only insert, append or set bits: the effects of all items together"""
        c, i0 = self.c, list(get()); k = fresh("k"); ps = self.passes(fam, body, get, set_, k)
        carried = [j for j in range(len(i0)) if any(p[2][j] for p in ps)]
        if any(isinstance(i0[j], (Fam, Bits)) for j in carried) or any(is_loc(i0[j]) and i0[j] is not loops.UNBOUND and not isinstance(i0[j], loops.Poison) for j in carried): return self.select(fam, body, get, set_, names, ps, k, carried)
        effects, changed = {}, []
        for g, ops, _, _, objs in ps:
            for o in objs:
                if not any(o is x for x in changed): changed.append(o)
            for q in ops:
                if q[0] == "other" and any(q[1] is o for o in objs): raise Unsupported("loop over a container with other effects")
                if q[0] in ("ins", "insfam", "app", "store") and any(q[1] is o for o in objs): effects.setdefault(id(q[1]), (q[1], []))[1].append((g, q))
        for o in changed:
            if id(o) not in effects: raise Unsupported("loop over a container with other effects")
        for g, ops, _, _, objs in ps:
            for q in ops:
                if q[0] == "read" and id(q[1]) in effects:
                    if not q[2].eq(k) or any(not (e[0] in ("ins", "store") and e[2].eq(k)) for _, e in effects[id(q[1])][1]): raise Unsupported("loop that reads what other passes write")
        for o, es in effects.values():
            E.touch(o)
            if isinstance(o, (USet,)):
                adds = []
                for g, e in es:
                    G = simp(z3.And(fam.dom(k), *g))
                    if e[0] == "ins": adds.append(self.image(k, G, e[2]))
                    else: adds.append(self.union(k, G, e[2]))
                old = o.mem; o.size = None; o.mem = lambda y, old=old, adds=adds: z3.Or(old(y), *[a(y) for a in adds])
                op("bulk", o)
            elif isinstance(o, Bits):
                adds = []
                for g, e in es:
                    if not z3.is_true(e[3]): raise Unsupported("loop that writes computed bits")
                    adds.append(self.image(k, simp(z3.And(fam.dom(k), *g)), e[2]))
                old = o.fn; o.fn = lambda y, old=old, adds=adds: z3.Or(old(y), *[a(y) for a in adds]); op("bulk", o)
            elif isinstance(o, Bag):
                if len({id(q) for g, q in es}) != len(es): raise Unsupported("vector appended twice in a pass")
                parts = list(o.parts)
                for g, e in es:
                    G = simp(z3.And(fam.dom(k), *g)); x = e[2]
                    parts.append(Fam(lambda y, G=G: z3.substitute(G, (k, y)), lambda y, x=x: at(x, k, y)))
                o.parts = parts; op("bulk", o)
            else: raise Unsupported("loop over a container with other effects")
        set_(tuple(forget(v) if is_loc(v) and j in carried else v for j, v in enumerate(i0)))
        return loops.CONT
    def image(self, k, G, v):
        d = simp(v - k)
        if "k" and not has(d, k): return lambda y: z3.substitute(G, (k, simp(y - d)))
        w = fun("source", *[I] * (len(W.gen) + 1), I); gen = list(W.gen)
        f = lambda x, y: z3.substitute(z3.And(G, v == y), (k, x)) if not y.eq(k) else None
        def at_(x, y):
            t = fresh("y"); return z3.substitute(z3.substitute(z3.And(G, v == t), (k, x)), (t, y))
        fact(2, lambda x, y: z3.Implies(at_(x, y), at_(w(*gen, y), y)), True); return lambda y: at_(w(*gen, y), y)
    def union(self, k, G, dom):
        w = fun("source", *[I] * (len(W.gen) + 1), I); gen = list(W.gen)
        def at_(x, y):
            t = fresh("y"); return z3.substitute(z3.substitute(z3.And(G, dom(t)), (k, x)), (t, y))
        fact(2, lambda x, y: z3.Implies(at_(x, y), at_(w(*gen, y), y)), True); SRC.append(lambda y: w(*gen, y)); return lambda y: at_(w(*gen, y), y)
    def select(self, fam, body, get, set_, names, ps, k, carried):
        """passes that remember an item: afterwards the variables are as before, or as one item left them"""
        c, i0 = self.c, list(get())
        def first(): set_(tuple(i0))
        A = self.passes(fam, body, get, set_, k, first)
        if any(p[4] for p in A): raise Unsupported("loop that selects an item and has other effects")
        took = [p for p in A if any(p[2][j] for j in carried)]
        if len(took) != 1 or not all(took[0][2][j] for j in carried): raise Unsupported("loop that carries values between passes")
        val = [took[0][3][j] for j in carried]; e = fresh("e")
        earlier = [at(v, k, e) for v in val]
        def second():
            know(fam.dom(e)); s = list(i0)
            for j, v in zip(carried, earlier): s[j] = v
            set_(tuple(s))
        B2 = self.passes(fam, body, get, set_, k, second)
        temp = [j for j, v in zip(carried, val) if all(alike(p[3][j], v) for p in B2)]      # set in every pass
        for p in B2:
            new, old, cur = [p[3][j] for j in carried if j not in temp], [v for j, v in zip(carried, earlier) if j not in temp], [v for j, v in zip(carried, val) if j not in temp]
            if p[4] or not (all(a is b for a, b in zip(new, old)) or all(alike(a, b) for a, b in zip(new, cur))): raise Unsupported("loop that carries values between passes")
        some = E.branch(fam.some()) if E.ctxs else True
        if some and (len(A) == 1 or E.choose(2) == 0):
            x = sk("selected"); know(fam.dom(x)); term(x); s = [forget(v) if is_loc(v) and j in carried else v for j, v in enumerate(i0)]
            for j, v in zip(carried, val):
                if j not in temp: s[j] = at(v, k, x)
            set_(tuple(s))
        else: set_(tuple(i0))
        return loops.CONT
SRC = []
def is_loc(v): return v is None or isinstance(v, (V, int, bool)) or v is loops.UNBOUND or isinstance(v, loops.Poison)
def has(t, k):
    st = [t]
    while st:
        x = st.pop()
        if x.eq(k): return True
        st.extend(x.children())
    return False
def at(x, k, y):
    if isinstance(x, V): return mk(z3.substitute(x.t, (k, y)))
    if isinstance(x, USet):
        m = x.mem
        def mem(t):
            u = fresh("t"); return z3.substitute(z3.substitute(m(u), (k, y)), (u, t))
        return USet(mem, None if x.size is None else z3.substitute(x.size, (k, y)))
    if isinstance(x, MRow): return MRow(x.g, z3.substitute(x.i, (k, y)))
    if isinstance(x, (int, bool)): return x
    raise Unsupported("item of a family")
def alike(a, b):
    if isinstance(a, V) and isinstance(b, V): return E.entails(a.t == b.t)
    if isinstance(a, USet) and isinstance(b, USet): y = fresh("y"); return simp(a.mem(y)).eq(simp(b.mem(y))) or E.entails(a.mem(y) == b.mem(y))
    return a is b
def dec_init(rt, t, a): return new(rt, "DecodingResult", []) if t.replace("const ", "").strip() == "DecodingResult" and all(x is None or isinstance(x, (int, Bag, Box)) or hasattr(x, "__len__") and not len(x) for x in a) else NotImplemented
def unit(c, extra=None, **meth):
    W.facts, W.terms, W.gen, W.ops, W.derive = [], [], [], None, None; SRC.clear(); SOME.clear(); INST.clear(); COUNT.clear(); POSN.clear()
    std = std_fill(); env, rt, dig = cxx.load("src/UFDecoder.cpp", ["UFDecoder"], "UFDecoder", hooks={"new": new, "std": std, "init": dec_init, **(extra or {})}); RTX.rt = rt; rt.dflt = lambda: None
    g = Graph(); o = object.__new__(env["UFDecoder"].cls); o.__dict__["_vc_born"] = born()
    o.__dict__["getCode"] = lambda: CodeStub(g)
    for k, f in meth.items(): o.__dict__[k] = f
    return o, g, rt
def unit_h(c, only, new=new):
    W.facts, W.terms, W.gen, W.ops, W.derive = [], [], [], None, None; SRC.clear(); SOME.clear(); INST.clear(); COUNT.clear(); POSN.clear()
    env, rt, dig = cxx.load("src/UFHeuristic.cpp", ["UFHeuristic"], "UFHeuristic", only=only, hooks={"new": new, "std": std_fill(), "init": dec_init}); RTX.rt = rt; rt.dflt = lambda: None; return env, rt, dig
def nodeset(g, name="S"):
    p = fun(name, I, B); return USet(lambda y: z3.And(g.U(y), p(y)))
def classes(g, S):
    """connected components of the graph induced by a set: ghost representative of every node"""
    cl = fun("component", I, I); m = S.mem
    fact(1, lambda x: z3.Implies(m(x), z3.And(m(cl(x)), cl(cl(x)) == cl(x)))); fact(2, lambda x, y: z3.Implies(z3.And(m(x), m(y), g.adj(x, y)), cl(x) == cl(y)))
    return cl
SIZE = fun("size", I, I)
def comps_of(g, S, cl, more=None):
    m = S.mem; return Bag([Fam(lambda r: z3.And(m(r), cl(r) == r, *([more(r)] if more else [])), lambda r: USet(lambda y: z3.And(m(y), cl(y) == r), SIZE(r)))])
# ------------------------------------------------------------------ connected components
class Comps(Bag):
    """the result list of the component search: every entry has to be the component of a node that is not covered yet"""
    def __init__(self, c, g, S, cl): super().__init__(); self.c, self.g, self.S, self.cl, self.cov, self.at = c, g, S, cl, (lambda y: z3.BoolVal(False)), None
    def _vc_save(self): return (self.cov,)
    def _vc_load(self, s): self.cov, = s
    def vc_cp(self): return self
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"):
            x = a[0]; y = fresh("y"); r = self.at; cl, S = self.cl, self.S; term(y)
            if not isinstance(x, USet) or r is None: raise Unsupported("entry of the component list")
            prove(self.c, "a listed component is exactly the component of a node", x.mem(y) == z3.And(S.mem(y), cl(y) == cl(r)), y, r)
            prove(self.c, "no component is listed twice", z3.Not(self.cov(r)), r)
            E.touch(self); o = self.cov; self.cov = lambda y: z3.Or(o(y), z3.And(S.mem(y), cl(y) == cl(r))); return None
        return NotImplemented
@contract("C03", "src/UFDecoder.cpp:UFDecoder.getConnectedComps")
def ccomps(c):
    hold = {}
    def mk_new(rt, t, a):
        if t.startswith("std::vector<std::set") and not a: hold["res"] = r = Comps(c, hold["g"], hold["S"], hold["cl"]); return r
        return new(rt, t, a)
    o, g, rt = unit(c, {"new": mk_new}); S = nodeset(g, "nodes"); cl = classes(g, S); hold.update(g=g, S=S, cl=cl)
    def state(get): return [v for v in list(get()) if isinstance(v, USet)]
    def cands(sets, cov, rep, entry, curr=None):
        """candidate invariants over the sets the code keeps"""
        out = {}; qs = [s for s in sets if isinstance(s, Queue)]; ss = [s for s in sets if not isinstance(s, Queue)]
        for i, a in enumerate(sets):
            out["in", i] = lambda p, q, a=a: z3.Implies(a.mem(p), S.mem(p))
            out["closed", i] = lambda p, q, a=a: z3.Implies(z3.And(a.mem(p), S.mem(q), cl(p) == cl(q)), a.mem(q))
            if rep is not None:
                out["rep", i] = lambda p, q, a=a: a.mem(rep)
                out["cls", i] = lambda p, q, a=a: z3.Implies(a.mem(p), cl(p) == cl(rep))
                if id(a) in entry:
                    e = entry[id(a)]; out["grow", i] = lambda p, q, a=a, e=e: z3.Implies(e(p), a.mem(p))
                    for j, b in enumerate(ss):
                        for l, w in enumerate(qs): out["from", i, j, l] = lambda p, q, a=a, b=b, w=w, e=e: z3.Implies(a.mem(p), z3.Or(e(p), b.mem(p), w.mem(p)))
            for j, b in enumerate(sets):
                if j != i: out["sub", i, j] = lambda p, q, a=a, b=b: z3.Implies(a.mem(p), b.mem(p))
            for l, w in enumerate(qs): out["front", i, l] = lambda p, q, a=a, w=w: z3.Implies(z3.And(a.mem(p), g.adj(p, q), S.mem(q)), z3.Or(a.mem(q), w.mem(q)))
            for l, w in enumerate(qs):
                if rep is not None: out["either", i, l] = lambda p, q, a=a, w=w: z3.Or(a.mem(rep), w.mem(rep))
            out["cov", i] = lambda p, q, a=a: z3.Implies(cov()(p), a.mem(p))
            out["cov2", i] = lambda p, q, a=a: z3.Implies(a.mem(p), cov()(p))
        return out
    def houdini(step, objs, K, ps, havoc):
        """filter the candidates: those that hold on entry and are kept by a pass"""
        p, q = ps; term(p, q)
        keep = {n: f for n, f in K.items() if holds(f(p, q), p, q)}
        while True:
            lost = set(); mark = len(E.obls); nf, nt = len(W.facts), len(W.terms)
            saved = [(x, x._vc_save()) for x in objs]
            def enter():
                havoc()
                for f in keep.values(): learn(f_at(f, objs))
            def after():
                for n, f in keep.items():
                    if n not in lost and not holds(f(p, q), p, q): lost.add(n)
            step(enter, after)
            del W.facts[nf:]; del W.terms[nt:]
            if not lost: return keep
            del E.obls[mark:]; keep = {n: f for n, f in keep.items() if n not in lost}
    def f_at(f, objs):
        """the invariant for the state as it is now"""
        st = [(x, x._vc_save()) for x in objs]
        def at_(p, q):
            cur = [(x, x._vc_save()) for x in objs]
            for x, s in st: x._vc_load(s)
            try: return f(p, q)
            finally:
                for x, s in cur: x._vc_load(s)
        return at_
    def learn(f):
        x, y = fresh("x"), fresh("y"); t = f(x, y); two = has(t, y)
        fact(2 if two else 1, (lambda a, b: z3.substitute(t, (x, a), (y, b))) if two else (lambda a: z3.substitute(t, (x, a))))
    def havoc_sets(objs):
        for x in objs:
            E.touch(x)
            if isinstance(x, Comps):
                r = fun("covered", I, B); x.cov = lambda y, r=r: z3.And(S.mem(y), r(cl(y)))
            else:
                r = fun("set", I, B); x.mem = r; 
                if isinstance(x, Queue): x.head = None
    def usets(body, i0):
        out = []
        for v in [*freevars(body).values(), *i0]:
            if isinstance(v, USet) and v is not S and not any(v is x for x in out): out.append(v)
        return out
    def whiles(R, cond, body, get, set_, names):
        i0 = list(get()); rep = hold["at"]; res = hold["res"]; W.ops = None
        sets = usets(body, i0); term(rep)
        entry = {id(s): s.mem for s in sets}
        objs = sets
        K = cands(sets, lambda: res.cov, rep, entry); p, q = fresh("p"), fresh("q"); hold["term"] = []
        def step(enter, after):
            def run():
                set_(tuple(forget(v) if is_loc(v) else v for v in i0)); enter()
                run.old = [(s, s.mem) for s in sets]
                for f in instances([rep, p, q]): know(f)
                if not bool(cond()): raise PathEnd()
                qs = [s for s in sets if isinstance(s, Queue)]
                for s in qs:                                   # the element that is taken next satisfies the invariant
                    s.vc_m("front"); 
                    for f in instances([s.head, rep]): know(f)
                return body()
            def on(pth):
                if pth.exc is not None or pth.result is not loops.CONT: raise Unsupported("component search that leaves early")
                after()
                y = fresh("y"); hold["term"].append(any(isinstance(s, Queue) for s, _ in run.old))
                hold.setdefault("prog", []).append([(s, m, s.mem) for s, m in run.old])
                # progress: a node joins a set that only grows, or the work list loses an element and nothing is queued
                grows = any(not isinstance(s, Queue) and E.entails(z3.Not(m(h_))) and E.entails(s.mem(h_)) for s, m in run.old for h_ in [x for x in W.terms])
                shrinks = all(E.entails(z3.Implies(s.mem(y), m(y))) for s, m in run.old if isinstance(s, Queue))
                hold["pass"] = hold.get("pass", True) and (grows or shrinks)
            hold["pass"] = True
            E.explore(run, on)
        keep = houdini(step, objs, K, (p, q), lambda: havoc_sets(objs))
        c.ob("every pass of the search takes an element from the work list and either adds a node or queues nothing (termination)", hold["pass"])
        havoc_sets(objs); set_(tuple(forget(v) if is_loc(v) else v for v in i0))
        for f in keep.values(): learn(f_at(f, objs))
        if bool(cond()): raise PathEnd()
        # definition of a component: a set that holds c and is closed under neighbours contains the component of c
        for s in sets:
            if not isinstance(s, Queue):
                y, z = fresh("y"), fresh("z"); term(y, z)
                if holds(z3.And(s.mem(rep), z3.Implies(z3.And(s.mem(y), g.adj(y, z), S.mem(z)), s.mem(z))), y, z, rep):
                    m = s.mem; fact(1, lambda x, m=m: z3.Implies(z3.And(S.mem(x), cl(x) == cl(rep)), m(x)))
        return loops.CONT
    def fors(R, fam, body, get, set_, names):
        if fam is not S: return NotImplemented
        i0 = list(get()); k = fresh("node"); res = hold["res"]; p, q = fresh("p"), fresh("q")
        sets = usets(body, i0)
        objs = sets + [res]; K = cands(sets, lambda: res.cov, None, {}); hold["at"] = res.at = k; done = []
        def step(enter, after):
            done.clear()
            def run():
                know(S.mem(k)); term(k); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); enter(); run.cov = res.cov
                for f in instances([k]): know(f)
                return body(V(k))
            def on(pth):
                if pth.exc is not None or pth.result is not loops.CONT: raise Unsupported("component search that leaves early")
                after(); done.append(holds(res.cov(k), k)); done.append(holds(z3.Implies(run.cov(p), res.cov(p)), p))
            E.explore(run, on)
        keep = houdini(step, objs, K, (p, q), lambda: havoc_sets(objs))
        c.ob("after its pass, a node is covered by a listed component; covered nodes stay covered", bool(done) and all(done))
        havoc_sets(objs); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); fact(1, lambda y, v=res.cov: z3.Implies(S.mem(y), v(y)))
        for f in keep.values(): learn(f_at(f, objs))
        return loops.CONT
    def go(): Rules(c, whiles, fors); return o.getConnectedComps(S, Pcm(g))
    def post(r):
        y = fresh("y"); ok = isinstance(r, Comps); c.ob("the component list is returned", ok)
        if ok: prove(c, "every node of the set is in a listed component", z3.Implies(S.mem(y), r.cov(y)), y)
    c.run(go, post, frame=False)
# ------------------------------------------------------------------ neighbour lists
class Cache:
    """nbrCache; invariant: every stored list is the neighbour list of its node"""
    def __init__(self, c, g): self.c, self.g, self._vc_born, self.log = c, g, born(), []
    def _vc_save(self): return list(self.log)
    def _vc_load(self, s): self.log = list(s)
    def vc_m(self, name, *a):
        if name == "find": return CPos(self.g, lift(a[0]), sk("cached", B))
        if name == "end": return END
        if name in ("try_emplace", "emplace", "insert_or_assign"):
            k, v = lift(a[0]), a[1]; is_nbrs(self.c, self.g, k, v, "the stored list is the neighbour list of its node"); E.touch(self); self.log.append(k)
            return Pair(CPos(self.g, k, z3.BoolVal(True)), mk(sk("inserted", B)))
        return NotImplemented
class Pair:
    def __init__(self, first, second): self.first, self.second = first, second
    def vc_part(self, i): return (self.first, self.second)[i]
class CPos:
    def __init__(self, g, k, found): self.g, self.k, self.found = g, k, found
    def vc_eq(self, x): return mk(simp(z3.Not(self.found)))
    def vc_deref(self): E.oblige("cache entry exists", self.found); return Pair(mk(self.k), Nbrs(self.g, self.k))
def is_nbrs(c, g, x, v, name):
    y = fresh("y")
    if isinstance(v, Nbrs): c.ob(name, v.x == x); return
    if not isinstance(v, PList): c.ob(name, False); return
    c.ob(name, z3.Implies(g.U(x), to_bool(lift(loops.contains(v, V(y)))) == g.adj(x, y)))
@contract("C03", "include/Code.hpp:ParityCheckMatrix.getNbrs")
def getnbrs(c):
    env, rt, dig = cxx.load("include/Code.hpp", ["ParityCheckMatrix"], "Code", only={("ParityCheckMatrix", "getNbrs")}); RTX.rt = rt
    W.facts, W.terms, W.gen, W.ops, W.derive = [], [], [], None, None; SRC.clear(); SOME.clear(); INST.clear(); COUNT.clear(); POSN.clear()
    g = Graph(); o = object.__new__(env["ParityCheckMatrix"].cls); o.__dict__["_vc_born"] = born()
    mat = SArr((g.m, g.n), lambda i, j: g.h(i, j), "b"); o.__dict__["pcm"] = mat; o.__dict__["nbrCache"] = Cache(c, g); x = Nat("node")
    E.assume(g.U(x.t))
    def go(): setattr(E, "loops", {}); return o.getNbrs(x)
    c.run(go, lambda r: is_nbrs(c, g, x.t, r, "the list of a node's neighbours is returned: exactly the checks that contain a bit, exactly the bits of a check"), frame=False)
# ------------------------------------------------------------------ helpers of the decoder
@contract("C03", "src/UFDecoder.cpp:UFDecoder.computeInteriorBitNodes")
def interior(c):
    o, g, rt = unit(c); S = nodeset(g)
    def go(): Rules(c); return o.computeInteriorBitNodes(S, Pcm(g))
    def post(r):
        ok = isinstance(r, Bag); c.ob("a list is returned", ok); y, z = fresh("y"), fresh("z"); d = r.dom
        prove(c, "only qubits of the set are listed", z3.Implies(d(y), z3.And(S.mem(y), g.bit(y))), y, z)
        prove(c, "every check of a listed qubit is in the set", z3.Implies(z3.And(d(y), g.adj(y, z)), S.mem(z)), y, z)
        E.explore(lambda: r.item(y), lambda p: c.ob("the qubits themselves are listed", z3.Implies(d(y), lift(p.result) == y)))
    c.run(go, post, frame=False)
@contract("C03", "src/UFDecoder.cpp:UFDecoder.hasNbrOutside")
def outside(c):
    o, g, rt = unit(c); S = nodeset(g); x = Nat("x"); know(g.U(x.t))
    def post(r):
        y = fresh("y"); r = to_bool(lift(r)); prove(c, "false only if all neighbours are inside", z3.Implies(z3.And(g.adj(x.t, y), z3.Not(S.mem(y))), r), y)
        w = [t for t in W.terms]; prove(c, "true only if some neighbour is outside", z3.Implies(r, z3.Or([z3.And(g.adj(x.t, t), z3.Not(S.mem(t))) for t in w])), y)
    c.run(lambda: (Rules(c), type(o).hasNbrOutside(x, S, Pcm(g)))[1], post, frame=False)
def grow_hooks(g, S, cl):
    return dict(getConnectedComps=lambda nodes, pcm: comps_of(g, nodes, cl))
@contract("C03", "src/UFDecoder.cpp:UFDecoder.getGrowableComps")
def growable(c):
    o, g, rt = unit(c); S = nodeset(g); cl = classes(g, S); S0 = S.mem
    def comps(nodes, pcm): is_same(c, nodes, S, "components of the given set are asked"); return comps_of(g, S, cl)
    o.__dict__["getConnectedComps"] = comps
    def go(): Rules(c); return o.getGrowableComps(S, Pcm(g))
    def post(r):
        x, y, k = fresh("x"), fresh("y"), fresh("k"); term(x, y, k); d = r.dom
        item = []; E.explore(lambda: r.item(k), lambda p: item.append(p.result)); m = item[0].mem
        wit = z3.Or([z3.And(m(a), g.adj(a, b), z3.Not(S0(b))) for a in wterms(d, k) for b in wterms(d, k)])
        prove(c, "a growable component has a node with a neighbour outside of the set", z3.Implies(d(k), wit), k, *wterms(d, k))
        prove(c, "growable components consist of nodes of the set", z3.Implies(z3.And(d(k), m(y)), S0(y)), y)
        prove(c, "every component with a node that has a neighbour outside is listed", z3.Implies(z3.And(S0(x), g.adj(x, y), z3.Not(S0(y))), d(cl(x))), x, y, cl(x), *wterms(d, simp(cl(x))))
    c.run(go, post, frame=False)
def wterms(d, k):
    """terms that occur as arguments in a condition (candidate witnesses)"""
    out, st, seen = [], [d(k)], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if x.sort() == I and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
    return out[:12]
def is_same(c, got, S, name):
    y = fresh("y"); c.ob(name, isinstance(got, USet) and (got is S or E.entails(got.mem(y) == S.mem(y))))
def is_same_bits(c, got, S, name):
    j = fresh("j"); c.ob(name, isinstance(got, Bits) and (got is S or E.entails(z3.And(got.n == S.n, got.fn(j) == S.fn(j)))))
# -- growth
class Sweep:
    """loop rule: an iterator walks over a set that grows meanwhile; every element is visited, those that were there before among them"""
    def __init__(self, c, g, S): self.c, self.g, self.S = c, g, S
    def __call__(self, R, cond, body, get, set_, names):
        c, g, S, i0 = self.c, self.g, self.S, list(get())
        js = [j for j, v in enumerate(i0) if isinstance(v, Rng)]
        if len(js) != 1 or i0[js[0]].o is not S: raise Unsupported("while loop in the growth")
        j = js[0]; P = fun("grown", I, B); w = fun("source", I, I); T = S.mem; y = fresh("y"); cur = fun("current", I, B); x = fresh("visited"); start = born(); ok = []
        def run():
            E.touch(S); S.mem = lambda t: z3.And(g.U(t), cur(t)); know(S.mem(x)); term(x); it = Walk(S, x); s = [forget(v) if is_loc(v) else v for v in i0]; s[j] = it; set_(tuple(s)); run.it = it
            return body()
        def on(p):
            if p.exc is not None or p.result is not loops.CONT: raise Unsupported("growth loop that leaves early")
            v = get()[j]; c.ob("growth: the iterator moves to the next element", isinstance(v, Walk) and v.moved == 1)
            for o_, _ in E.ctxs[-1].journal.values():
                if getattr(o_, "_vc_born", 0) <= start and o_ is not S: raise Unsupported("growth loop with other effects")
            prove(c, "growth: a visited node brings in its neighbours", z3.Implies(z3.Or(z3.And(g.U(y), cur(y)), g.adj(x, y)), S.mem(y)), y)
            prove(c, "growth: a visited node brings in nothing else", z3.Implies(S.mem(y), z3.Or(cur(y), g.adj(x, y))), y)
        E.explore(run, on)
        E.touch(S); S.mem = lambda t: z3.And(g.U(t), z3.Or(T(t), P(t))); m = S.mem
        fact(2, lambda a, b: z3.Implies(z3.And(T(a), g.adj(a, b)), m(b))); fact(1, lambda a: z3.Implies(z3.And(m(a), z3.Not(T(a))), z3.And(g.adj(w(a), a), m(w(a))))); SRC.append(lambda t: w(t))
        set_(tuple(forget(v) if is_loc(v) else v for v in i0)); return loops.CONT
class Walk:
    def __init__(self, S, x): self.S, self.x, self.moved = S, x, 0
    def vc_eq(self, o): return False
    def vc_deref(self): return V(self.x)
    def __add__(self, k): r = Walk(self.S, self.x); r.moved = self.moved + k; return r
    def vc_cp(self): return self
def growth(fn, bag):
    def k(c):
        o, g, rt = unit(c); S = nodeset(g); T = S.mem; x0, y0 = fresh("x0"), fresh("y0"); term(x0, y0); know(z3.And(T(x0), g.adj(x0, y0), z3.Not(T(y0))))
        cl = classes(g, USet(T)); gx, gy = fun("edgeIn", I, I), fun("edgeOut", I, I)
        more = fun("growable", I, B)
        def gcomps(nodes, pcm):
            is_same(c, nodes, USet(T), "growable components of the given set are asked")
            r = comps_of(g, USet(T), cl, lambda r: z3.And(more(r), T(gx(r)), cl(gx(r)) == r, g.adj(gx(r), gy(r)), z3.Not(T(gy(r)))))
            know(r.dom(cl(x0))); term(cl(x0)); d = r.dom; know(r.some()); fact(1, lambda t: z3.Implies(d(t), z3.And(g.U(gx(t)), g.U(gy(t))))); hold.append(lambda t: (gx(t), gy(t))); f = r.parts[0]; it = f.item; f.item = lambda t: (term(gx(t), gy(t)), it(t))[1]; return r
        hold = []
        o.__dict__["getGrowableComps"] = gcomps
        def go():
            E.touch(S); S.mem = T; Rules(c, Sweep(c, g, S)); R = getattr(o, fn)(S, Pcm(g)); return R
        def post(r):
            y = fresh("y"); m = S.mem; term(y)
            for t in list(W.terms):
                for h in hold: term(*h(t))
            prove(c, "growing keeps the nodes", z3.Implies(T(y), m(y)), y)
            prove(c, "only nodes of the graph are added", z3.Implies(m(y), g.U(y)), y)
            ws = [s(y) for s in SRC] + [t for t in W.terms if not t.eq(y)]
            prove(c, "an added node is a neighbour of a node of the set", z3.Implies(z3.And(m(y), z3.Not(T(y))), z3.Or([z3.And(g.adj(w, y), m(w)) for w in ws])), y, *[s(y) for s in SRC])
            prove(c, "a node is added if some component can grow (termination of decoding)", z3.Or([z3.And(m(t), z3.Not(T(t)), g.U(t)) for t in W.terms]), *[s(t) for s in SRC for t in W.terms])
        c.run(go, post, frame=False)
    return k
for _f in ("standardGrowth", "singleClusterSmallestFirstGrowth", "singleClusterRandomFirstGrowth", "singleQubitRandomFirstGrowth"):
    contract("C03", f"src/UFDecoder.cpp:UFDecoder.{_f}", _f)(growth(_f, _f != "standardGrowth"))
# ------------------------------------------------------------------ local estimates
class Tall:
    """growing vector of which only the length is followed; the elements are rows of the matrix or bits"""
    def __init__(self, g, row): self._vc_born, self.g, self.row, self.n = born(), g, row, z3.IntVal(0)
    def _vc_save(self): return self.n
    def _vc_load(self, s): self.n = s
    def vc_size(self): return mk(self.n)
    def vc_get(self, i): return MRow(self.g, lift(i)) if self.row else mk(sk("bit", B))
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"):
            if self.row != isinstance(a[0], MRow): raise Unsupported("element of a vector")
            E.touch(self); self.n = simp(self.n + 1); return None
        if name == "size": return mk(self.n)
        if name == "empty": return mk(simp(self.n == 0))
        if name == "at": return RTX.rt.at(self, a[0])
        if name == "front": return RTX.rt.idx(self, 0)
        return NotImplemented
class Sized:
    """vector of numbers of a fixed size, contents not followed"""
    def __init__(self, n, fn=None): self.n, self.fn = lift(n), fn
    def vc_size(self): return mk(self.n)
    def vc_get(self, i): return mk(self.fn(lift(i))) if self.fn is not None else mk(sk("entry"))
    def vc_set(self, i, v): pass
    def vc_cp(self): return self
    def vc_m(self, name, *a):
        if name == "size": return mk(self.n)
        if name == "at": return RTX.rt.at(self, a[0])
        if name == "empty": return mk(simp(self.n == 0))
        return NotImplemented
class Csc:
    def __init__(self, rows): self.rows = rows
    def vc_cp(self): return self
class Plu:
    def __init__(self, g, rows, cols, csc):
        obl("the decomposed matrix has as many rows as were collected", z3.And(lift(rows) == csc.rows.n, lift(rows) > 0)); obl("the decomposed matrix has one column per qubit", lift(cols) == g.n); self.r, self.g = lift(rows), g
    def vc_m(self, name, *a):
        if name == "luSolve":
            obl("one right-hand side per row", lift(RTX.rt.size(a[0])) == self.r); f = fun("solution", I, I); return Sized(self.g.n, f)
        if name == "rref": return None
        return NotImplemented
class Lens:
    """loop rule: passes that grow vectors; lengths that agree keep agreeing, a marked entry means that something was collected"""
    def __init__(self, c, n): self.c, self.n = c, n
    def __call__(self, R, fam, body, get, set_, names):
        i0 = list(get()); objs = [v for v in freevars(body).values() if isinstance(v, (Tall, Bits))]; ts = [o for o in objs if isinstance(o, Tall)]; bs = [o for o in objs if isinstance(o, Bits)]
        if not ts: return NotImplemented
        k = fresh("k"); j = fresh("j"); start = born(); mut = []; mark = len(E.obls)
        def trial():
            know(fam.dom(k)); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); W.gen.append(k)
            try: return body(fam.item(k))
            finally: W.gen.pop()
        def tr(p):
            for o, _ in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) <= start and not any(o is x for x in mut): mut.append(o)
        E.explore(trial, tr); del E.obls[mark:]; set_(tuple(i0))
        if not any(isinstance(o, Tall) for o in mut): return NotImplemented
        if any(not any(o is x for x in objs) for o in mut): raise Unsupported("collection of rows with other effects")
        K = {("eq", a, b): (lambda i, x=x, y=y: x.n == y.n) for a, x in enumerate(ts) for b, y in enumerate(ts) if a < b}
        K.update({("mark", a, b): (lambda i, x=x, y=y: z3.Implies(z3.And(i >= 0, i < y.n, y.fn(i)), x.n > 0)) for a, x in enumerate(ts) for b, y in enumerate(bs)})
        ent = [x.n for x in ts]; K.update({("up", a): (lambda i, x=x, e=e: x.n >= e) for a, (x, e) in enumerate(zip(ts, ent))})
        keep = {n: f for n, f in K.items() if holds(f(j), j)}; pos = {}
        def enter():
            for o in mut:
                E.touch(o)
                if isinstance(o, Tall): o.n = fresh("len"); know(o.n >= 0)
                else: u = fun("marked", I, B); o.fn = lambda i, u=u: u(i)
            st = [(o, o._vc_save()) for o in mut]
            for f in keep.values():
                x = fresh("x"); t = f(x); fact(1, lambda a, t=t, x=x: z3.substitute(t, (x, a)))
                know(f(j))
            set_(tuple(forget(v) if is_loc(v) else v for v in i0))
        while True:
            lost, pos = set(), {a: True for a in range(len(ts))}; mark = len(E.obls)
            def run():
                know(fam.dom(k)); term(k); enter(); return body(fam.item(k))
            def on(p):
                if p.exc is not None or p.result is not loops.CONT: raise Unsupported("loop over a container that leaves early")
                lost.update(n for n, f in keep.items() if not holds(f(j), j))
                for a, x in enumerate(ts): pos[a] = pos[a] and holds(x.n > 0, k, k - self.n)
            E.explore(run, on)
            if not lost: break
            del E.obls[mark:]; keep = {n: f for n, f in keep.items() if n not in lost}
        enter()
        for a, x in enumerate(ts):
            if pos[a]: know(z3.Implies(fam.some(), x.n > 0)); holds(x.n > 0) and know(x.n > 0)
        return loops.CONT
@contract("C03", "src/UFDecoder.cpp:UFDecoder.getEstimateForComponent")
def estimate(c):
    def mk_new(rt, t, a):
        if t == "PluDecomposition": return Plu(g, *a)
        if t in ("std::vector<std::vector<bool>>", "gf2Mat") and not a: return Tall(g, True)
        if t in ("std::vector<bool>", "gf2Vec") and (not a or len(a) == 1 and isinstance(a[0], int) and a[0] == 0): return Tall(g, False)
        if t == "std::vector<unsigned long>" and len(a) == 1: return Sized(lift(a[0]))
        return new(rt, t, a)
    o, g, rt = unit(c, {"new": mk_new}); rt.hooks["std"]["toCsc"] = Csc; S = nodeset(g, "nodes"); syn = nodeset(g, "syndrome"); nb = fun("neighbour", I, I)
    fact(1, lambda y: z3.Implies(z3.And(S.mem(y), g.bit(y)), g.adj(nb(y), y)))      # precondition
    def inner(nodes, pcm):
        is_same(c, nodes, S, "the interior of the given set is asked"); p = fun("interior", I, B); b = Bag([Fam(lambda y: z3.And(S.mem(y), g.bit(y), p(y)), lambda y: V(y))]); return b
    o.__dict__["computeInteriorBitNodes"] = inner
    W.derive = lambda t: [nb(t)] if t.decl() != nb else []
    def go():
        Rules(c, None, Lens(c, g.n)); return o.getEstimateForComponent(S, syn, Pcm(g))
    def post(r):
        y = fresh("y"); c.ob("a set is returned", isinstance(r, USet)); prove(c, "the local estimate lists qubits only", z3.Implies(r.mem(y), g.bit(y)), y)
    c.run(go, post, frame=False)
@contract("C03", "src/UFDecoder.cpp:UFDecoder.isValidComponent")
def valid(c):
    o, g, rt = unit(c); S = nodeset(g, "nodes"); syn = nodeset(g, "syndrome"); p = fun("estimate", I, B); r0 = USet(lambda y: z3.And(g.bit(y), p(y)))
    def est(nodes, s, pcm): is_same(c, nodes, S, "the estimate of the given set is computed"); return r0
    o.__dict__["getEstimateForComponent"] = est
    def post(r):
        y = fresh("y"); r = z3.BoolVal(r) if isinstance(r, bool) else to_bool(lift(r))
        prove(c, "valid if the local estimate is not empty", z3.Implies(r0.mem(y), r), y); prove(c, "only then", z3.Implies(r, z3.Or([r0.mem(t) for t in W.terms])))
    c.run(lambda: (Rules(c), o.isValidComponent(S, syn, Pcm(g)))[1], post, frame=False)
@contract("C03", "src/UFDecoder.cpp:UFDecoder.containsInvalidComponents")
def invalid(c):
    o, g, rt = unit(c); S = nodeset(g, "nodes"); syn = nodeset(g, "syndrome"); cl = classes(g, S); nb = fun("neighbour", I, I); bag = Bag(); bag.scratch = True; bad = fun("invalid", I, B)
    def comps(nodes, pcm): is_same(c, nodes, S, "components of the given set are asked"); return comps_of(g, S, cl)
    def ok(comp, s, pcm):
        y = fresh("y"); prove(c, "components of the set are examined", z3.Implies(comp.mem(y), S.mem(y)), y); is_same(c, s, syn, "with the syndrome")
        return mk(z3.Not(bad(W.gen[-1]))) if W.gen else mk(fresh("valid", B))
    o.__dict__.update(getConnectedComps=comps, isValidComponent=ok)
    def post(r):
        y = fresh("y"); r = z3.BoolVal(r) if isinstance(r, bool) else to_bool(lift(r))
        prove(c, "an invalid component is noticed", z3.Implies(z3.And(S.mem(y), cl(y) == y, bad(y)), r), y); prove(c, "only invalid components count", z3.Implies(r, z3.Or([z3.And(S.mem(t), bad(t)) for t in W.terms])))
    c.run(lambda: (Rules(c), o.containsInvalidComponents(S, syn, bag, Pcm(g)))[1], post, frame=False)
# ------------------------------------------------------------------ decoding
MODES = ["AllComponents", "InvalidComponents", "SingleSmallest", "SingleRandom", "SingleQubitRandom"]
class Mode:
    """an arbitrary growth mode"""
    def __init__(self): self.t = fresh("mode"); know(z3.And(self.t >= 0, self.t < len(MODES)))
    def __eq__(self, o):
        if not isinstance(o, cxx.Enum) or o.n not in MODES: raise Unsupported("growth mode")
        return E.branch(self.t == MODES.index(o.n))
    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__
class Res:
    F = ("decodingTime", "estimBoolVector", "estimNodeIdxVector")
    def __init__(self, **kw): self.__dict__.update(_vc_born=born(), **{f: None for f in self.F}); self.__dict__.update(kw)
    def _vc_save(self): return {f: self.__dict__[f] for f in self.F}
    def _vc_load(self, s): self.__dict__.update(s)
    def __setattr__(self, n, v):
        if n not in self.F: raise Unsupported("result field")
        E.touch(self); self.__dict__[n] = v
    def vc_cp(self):
        r = Res()
        for f in self.F: v = self.__dict__[f]; r.__dict__[f] = v.copy() if isinstance(v, SArr) else PList(list(v.segs)) if isinstance(v, PList) else v.vc_cp() if hasattr(v, "vc_cp") else v
        return r
def wellformed(c, g, bits, lst, syn, zero):
    """one entry per qubit, the set bits are the listed indices"""
    j = fresh("j"); ok = isinstance(bits, Bits) and isinstance(lst, (Bag, Fam)); c.ob("an estimate vector and an index list are returned", ok)
    if not ok: return
    c.ob("the estimate has exactly one entry per qubit", bits.n == g.n); d = lst.dom
    out = []; E.explore(lambda: lst.item(j), lambda p: out.append(lift(p.result))); it = out[0]
    if it.eq(j):
        prove(c, "set bits are listed", z3.Implies(z3.And(g.bit(j), bits.fn(j)), d(j)), j); prove(c, "listed indices are qubits whose bit is set", z3.Implies(d(j), z3.And(g.bit(j), bits.fn(j))), j)
    else: raise Unsupported("index list")
    if zero: prove(c, "a zero syndrome has the zero estimate", z3.And(z3.Not(bits.fn(j)), z3.Not(d(j))), j)
def dodecode(zero):
    def k(c):
        o, g, rt = unit(c); hx = Pcm(g); p = fun("syndrome", I, B); L = Nat("length"); know(L.t <= g.m)
        syn = Bits(L.t, (lambda i: z3.BoolVal(False)) if zero else (lambda i: p(i))); o.__dict__["growth"] = mode = Mode(); res = earlier(); o.__dict__["result"] = res
        nb = fun("neighbour", I, I)
        st = {}
        def linked(S, name):
            y = fresh("y"); prove(c, name + ": nodes of the graph", z3.Implies(S.mem(y), g.U(y)), y)
            ws = lambda: [nb(y)] + [s(y) for s in SRC]
            prove(c, name + ": every qubit of the set has a neighbour in the set", z3.Implies(z3.And(S.mem(y), g.bit(y)), z3.Or([z3.And(g.adj(w, y), S.mem(w)) for w in ws()])), y, *ws())
        def edge(S):
            x, y = sk("edgeIn"), sk("edgeOut"); know(z3.And(S.mem(x), g.adj(x, y), z3.Not(S.mem(y)))); term(x, y); return x, y
        class Growable:
            def __init__(self, S): self.S = S; self.b = sk("growable", B)
            def vc_m(self, name, *a):
                if name == "empty": return mk(z3.Not(self.b))
                return NotImplemented
        def gcomps(S, pcm):
            linked(S, "growable components are asked of a legal set"); st["grow"] = r = Growable(S); st["grow"].m = S.mem; return r
        def contains(S, s, inv, pcm): linked(S, "validity is asked of a legal set"); return mk(sk("contains", B))
        def grow(S, pcm):
            r = st.get("grow"); obl("a component that can grow exists", r.b if r is not None and r.m is S.mem else z3.BoolVal(False)); x, y = edge(S); T = S.mem; P, w = fun("grown", I, B), fun("by", I, I); z = sk("new")
            E.touch(S); S.mem = m = lambda t: z3.And(g.U(t), z3.Or(T(t), P(t))); fact(1, lambda t: z3.Implies(z3.And(m(t), z3.Not(T(t))), z3.And(g.adj(w(t), t), m(w(t))))); SRC.append(lambda t: w(t)); know(z3.And(m(z), z3.Not(T(z)))); term(z)
        def comps(S, pcm): linked(S, "components are asked of a legal set"); cl = classes(g, S); return comps_of(g, S, cl)
        def est(comp, s, pcm):
            y = fresh("y"); k_ = W.gen[-1] if W.gen else None; prove(c, "local estimates: every qubit of the component has a neighbour", z3.Implies(z3.And(comp.mem(y), g.bit(y)), z3.Or([g.adj(w, y) for w in [nb(y)] + [q(y) for q in SRC]])), y)
            f = fun("estimate", I, I, B); k_ = k_ if k_ is not None else z3.IntVal(0); return USet(lambda t: z3.And(g.bit(t), f(k_, t)))
        o.__dict__.update(containsInvalidComponents=contains, getGrowableComps=gcomps, getConnectedComps=comps, getEstimateForComponent=est)
        for f in ("standardGrowth", "singleClusterSmallestFirstGrowth", "singleClusterRandomFirstGrowth", "singleQubitRandomFirstGrowth"): o.__dict__[f] = grow
        def whiles(R, cond, body, get, set_, names):
            i0 = list(get()); fv = [v for v in freevars(body).values()]; start = born(); objs = []; mark = len(E.obls)
            def tr(p):
                for q, _ in E.ctxs[-1].journal.values():
                    if getattr(q, "_vc_born", 0) <= start and not any(q is x for x in objs): objs.append(q)
            def once():
                if not bool(cond()): raise PathEnd()
                return body()
            E.explore(once, tr); del E.obls[mark:]; set_(tuple(i0))
            if any(not isinstance(q, (USet, Bag)) for q in objs): raise Unsupported("growth loop with other state")
            sets = [q for q in objs if isinstance(q, USet)]
            for S in sets: linked(S, "growth loop, first pass")
            ok = []
            def enter():
                for q in objs:
                    E.touch(q)
                    if isinstance(q, Bag): q.parts = []; continue
                    P = fun("nodes", I, B); q.mem = m = lambda t, P=P: z3.And(g.U(t), P(t)); fact(1, lambda t, m=m: z3.Implies(z3.And(m(t), g.bit(t)), z3.And(g.adj(nb(t), t), m(nb(t)))))
                set_(tuple(forget(v) if is_loc(v) else v for v in i0))
            def run():
                enter(); run.old = [(S, S.mem) for S in sets]
                if not bool(cond()): raise PathEnd()
                return body()
            def on(p):
                if p.exc is not None:
                    c.ob("decoding: only unsupported growth modes are rejected", type(p.exc).__name__ == "invalid_argument" and E.entails(mode.t == 1)); return
                for S, m in run.old:
                    linked(S, "growth loop, next pass")
                y = fresh("y")
                ok.append(any(holds(z3.Implies(m(y), S.mem(y)), y) and any(holds(z3.And(g.U(t), S.mem(t), z3.Not(m(t))), t) for t in list(W.terms)) for S, m in run.old))
            E.explore(run, on)
            c.ob("decoding terminates: every pass of the growth loop keeps the nodes of the set and adds a node of the graph", bool(ok) and all(ok))
            enter()
            if E.choose(2) and not E.entails(mode.t != 1):
                E.assume(mode.t == 1); enter_exc = True; raise rt.exc("invalid_argument", "Unsupported growth variant")
            if bool(cond()): raise PathEnd()
            return loops.CONT
        def go(): SRC.clear(); Rules(c, whiles); o.doDecode(syn, hx)
        c.run(go, lambda r: wellformed(c, g, res.estimBoolVector, res.estimNodeIdxVector, syn, zero), raises=lambda e: c.ob("only unsupported growth modes are rejected", type(e).__name__ == "invalid_argument" and E.entails(mode.t == 1)), frame=False)
    return k
def earlier():
    """the result of an arbitrary earlier decoding"""
    p, q = fun("old", I, B), fun("old", I, B); return Res(estimBoolVector=Bits(Nat("old length").t, lambda j: p(j)), estimNodeIdxVector=Bag([Fam(lambda y: q(y), lambda y: V(y))]), decodingTime=0)
class Blank:
    """state the assembly does not look into"""
    _vc_born = 0
    def vc_cp(self): return self
    def vc_m(self, name, *a): return mk(fresh(name, B)) if name == "empty" else mk(fresh(name)) if name == "size" else None
def heuristic(zero):
    def k(c):
        env, rt, dig = unit_h(c, {("UFHeuristic", "doDecoding")}); g = Graph(); o = object.__new__(env["UFHeuristic"].cls); o.__dict__["_vc_born"] = born(); hx = Pcm(g); p, e = fun("syndrome", I, B), fun("estimate", I, B); L = Nat("length"); know(L.t <= g.m)
        syn = Bits(L.t, (lambda i: z3.BoolVal(False)) if zero else (lambda i: p(i))); res = earlier(); hist = []
        def er(erasure, comps, pcm): c.ob("the decoded components are those of the syndrome", comps is hist[0]); return Fam(lambda y: z3.And(g.bit(y), e(y)), lambda y: V(y))
        def init(s): is_same_bits(c, s, syn, "the components of the syndrome are searched"); hist.append(Blank()); return hist[-1]
        o.__dict__.update(getCode=lambda: CodeStub(g), growth=Mode(), result=res, computeInitTreeComponents=init, erasureDecoder=er)
        def whiles(R, cond, body, get, set_, names):
            cond(); set_(tuple(forget(v) if is_loc(v) else v for v in get())); return loops.CONT
        def go(): hist.clear(); SRC.clear(); Rules(c, whiles); o.doDecoding(syn, hx)
        def post(r):
            res = o.__dict__["result"]; wellformed(c, g, res.estimBoolVector, res.estimNodeIdxVector, syn, zero); y = fresh("y")
            if hist: prove(c, "the estimate is the list of the erasure decoder", z3.Implies(g.bit(y), res.estimBoolVector.fn(y) == e(y)), y)
        c.run(go, post, frame=False)
    return k
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.doDecoding", "doDecoding")(heuristic(False))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.doDecoding", "doDecoding, zero syndrome")(heuristic(True))
# ------------------------------------------------------------------ the heuristic: every container holds valid node ids
class Box:
    """container of node ids (or nodes, or pairs of ids) of which only the range of the entries is followed: qubits only (as long as no other entry is put in), or nodes of the graph"""
    def __init__(self, key, what="id"): self.key, self.what, self._vc_born, self.n = key, what, born(), None
    def pure(self): return self.key is not None and self.key not in T.mixed
    def ok(self, t): return T.g.bit(t) if self.pure() else T.g.bit(t) if self.what == "bit" else z3.And(T.g.U(t), t >= T.g.n) if self.what == "check" else T.g.U(t)
    def item(self):
        if isinstance(self.what, Box): return self.what
        if self.what == "pair": return PairF(self.one(), self.one())
        t = self.one(); return NodeF(t) if self.what == "node" else mk(t)
    def one(self): t = sk("entry"); know(self.ok(t)); return t
    def put(self, x):
        if isinstance(x, Box):
            if isinstance(self.what, Box) or self.what == "id": self.what = x; return          # a list of lists: the last one put in stands for all
            raise Unsupported("entry of a container")
        for t in ([x.first_, x.second_] if isinstance(x, PairF) else [x.idx] if isinstance(x, NodeF) else [lift(x)]):
            if isinstance(x, PairF): self.what = "pair"
            if self.pure() and not E.entails(T.g.bit(t)): T.mixed.add(self.key); T.again = True
            obl("only ids of nodes are put into containers", self.ok(t))
    def vc_size(self):
        if self.n is None: self.n = sk("count"); know(z3.And(self.n >= 0, self.n < 2**31))
        return mk(self.n)
    def vc_cp(self): return self
    def vc_assign(self, v): raise Unsupported("assignment of a container")
    def vc_elems(self, mutable):
        s = seqs.Seq(lift(self.vc_size()), lambda i: self.item()); s.fam = Fam(lambda k: z3.BoolVal(True), lambda k: self.item()); s.fam.n = self.vc_size; return s
    def vc_get(self, i): return self.item()
    def vc_m(self, name, *a):
        if name not in ("empty", "size", "front", "back", "top", "at", "contains", "count", "begin", "end", "cbegin", "cend", "find"): self.n = None
        if name == "emplace_back" and len(a) == 2: self.put(PairF(lift(a[0]), lift(a[1]))); return None
        if name in ("push", "emplace_back", "push_back", "push_front", "insert", "emplace"):
            if len(a) != 1: raise Unsupported("insertion")
            self.put(a[0]); return None
        if name == "try_emplace": self.put(a[0]); return None
        if name in ("empty", "contains"): return mk(sk(name, B))
        if name == "size": return self.vc_size()
        if name in ("front", "back", "top", "at"): return self.item()
        if name in ("pop", "pop_back", "clear", "reserve"): return None
        if name == "count": return mk(sk("times"))
        if name == "erase": return BoxIt(self)
        if name in ("begin", "cbegin"): return BoxIt(self)
        if name in ("end", "cend", "find"): return BoxIt(self)
        return NotImplemented
class BoxIt:
    """iterator: anything may be behind it"""
    def __init__(self, o): self.o = o
    def vc_eq(self, x): return mk(sk("same", B))
    def vc_deref(self): return self.o.item()
    def vc_cp(self): return self
    def __add__(self, n): return self
class PairF:
    def __init__(self, a, b): self.first_, self.second_ = lift(a), lift(b)
    def vc_deref(self): return self
    def vc_cp(self): return self
    first = property(lambda self: mk(self.first_)); second = property(lambda self: mk(self.second_))
class NodeF:
    """a node of the cluster forest: id and kind agree (invariant of nodeMap), everything else is arbitrary"""
    def __init__(self, t): self.__dict__["idx"] = simp(lift(t)); self.__dict__["_vc_born"] = 0
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_cp(self): return self
    def __getattr__(self, n):
        g = T.g
        if n == "vertexIdx": return mk(self.idx)
        if n == "isCheck": return mk(simp(self.idx >= g.n))
        if n in ("marked", "deleted"): return mk(sk(n, B))
        if n == "clusterSize": t = sk("size"); know(z3.And(t >= 1, t < 2**63)); return mk(t)
        if n == "boundaryVertices": return self.box(n, "id")
        if n == "checkVertices": return self.box(n, "check")
        if n == "children": return self.box(n, "node")
        if n == "parent": return NodeF(T.node())
        raise AttributeError(n)
    def box(self, n, what):
        if n not in self.__dict__: self.__dict__[n] = Box(None, what)
        return self.__dict__[n]
    def __setattr__(self, n, v):
        if n not in ("marked", "deleted", "clusterSize"): raise Unsupported("change of a node's " + n)
class T:
    g, mixed, again, count = None, set(), False, 0
    def node(): t = sk("node"); know(T.g.U(t)); return t
def typed(meth, args, post=lambda c, r: None, prep=lambda c, o, env, rt: None):
    def k(c):
        def mk_new(rt, t, a):
            t = t.replace("const ", "").strip()
            if t.startswith(("std::set<", "std::unordered_set<", "std::queue<", "std::vector<unsigned", "std::vector<std::", "std::unordered_map<", "std::map<", "std::vector<size_t", "std::deque<", "std::list<", "std::stack<")) and (not a or len(a) == 2 and isinstance(a[0], BoxIt)):
                T.count += 1; b = Box(T.count)
                if a and not a[0].o.pure() and b.pure(): T.mixed.add(b.key); T.again = True
                return b
            return new(rt, t, a)
        env, rt, dig = unit_h(c, {("UFHeuristic", meth)}, mk_new); g = T.g = Graph(); T.mixed = set()
        o = object.__new__(env["UFHeuristic"].cls); o.__dict__["_vc_born"] = born(); hx = Pcm(g); nb = hx.vc_m
        def valid(x): obl("only nodes of the graph are looked up", g.U(lift(x))); return NodeF(x)
        def nbrs(x): obl("neighbours are asked of nodes of the graph", g.U(lift(x))); return NbrsF(simp(lift(x)))
        class P:
            def vc_null(self): return False
            def vc_deref(self): return self
            def vc_m(self, name, *a): return nbrs(*a) if name == "getNbrs" else NotImplemented
            @property
            def pcm(self): return hx.pcm
        o.__dict__.update(getCode=lambda: CodeStub(g), getNodeFromIdx=valid, growth=Mode()); rt.env["TreeNode"] = cxx.Ctor(Forest, lambda *a: None, None, None)
        rt.hooks["std"].update(advance=lambda it, n: obl("the chosen component exists", z3.And(lift(n) >= 0, lift(n) < lift(it.o.vc_size()))), max=lambda *a: mk(2**31 - 1) if not a else NotImplemented, Find=lambda n: NodeF(T.node()), Union=lambda a, b: None)
        rt.hooks["TreeNode", "Find"] = lambda n: NodeF(T.node()); rt.hooks["TreeNode", "Union"] = lambda a, b: None
        prep(c, o, env, rt); pcm = P()
        def havoc(i0, cond, body, item, count):
            """one pass from an arbitrary state; kept about numbers: node ids stay node ids, counters count the passes"""
            ints = [j for j, v in enumerate(i0) if isinstance(v, (int, V)) and not isinstance(v, bool) and lift(v).sort() == I]; k = fresh("passes")
            cand = {("id", j): (lambda v, k: g.U(lift(v))) for j in ints}
            if count is not None: cand.update({("count", j): (lambda v, k, e=lift(i0[j]): lift(v) == e + k) for j in ints})
            keep = {n: f for n, f in cand.items() if E.entails(f(i0[n[1]], z3.IntVal(0)))}
            def enter():
                vs = [forget(v) if is_loc(v) else v for v in i0]; set_(tuple(vs))
                for n, f in keep.items():
                    if isinstance(vs[n[1]], V): know(f(vs[n[1]], k))
            while True:
                lost = set(); mark = len(E.obls); bad = []
                def run():
                    if count is not None: know(z3.And(k >= 0, k < lift(count())))
                    enter()
                    if cond is not None and not bool(cond()): raise PathEnd()
                    return body(item()) if item is not None else body()
                def on(p):
                    if p.exc is not None: bad.append((type(p.exc).__name__, type(p.exc).__name__ == "invalid_argument" and E.entails(o.growth.t == 4)))
                    elif p.result is loops.CONT: lost.update(n for n, f in keep.items() if not (isinstance(get()[n[1]], (int, V)) and E.entails(f(get()[n[1]], k + 1))))
                W.gen.append(k)
                try: E.explore(run, on)
                finally: W.gen.pop()
                if not lost: break
                del E.obls[mark:]; keep = {n: f for n, f in keep.items() if n not in lost}
            for b, ok in bad: c.ob(f"no exception in a loop ({b})", ok)
            know(k >= 0); enter(); return loops.CONT
        def loop(R, fam, body, get_, set__, names):
            nonlocal get, set_; old = get, set_; get, set_ = get_, set__
            try: return havoc(list(get()), None, body, lambda: fam.item(None), (lambda: fam.n()) if hasattr(fam, "n") else None)
            finally: get, set_ = old
        def whiles(R, cond, body, get_, set__, names):
            nonlocal get, set_; old = get, set_; get, set_ = get_, set__
            try: return havoc(list(get()), cond, body, None, None)
            finally: get, set_ = old
        get = set_ = None
        def is_loc(v): return not isinstance(v, (Box, BoxIt))
        def go():
            T.count = 0; Rules(c, whiles, loop); r = getattr(o, meth)(*args(g, pcm)); return r
        while True:
            T.again = False; n = len(E.obls); E.explore(go, lambda p: None)
            if not T.again: break
            del E.obls[n:]
        del E.obls[n:]
        c.run(go, lambda r: post(c, r), frame=False)
    return k
class Forest: pass
class NbrsF(Box):
    """neighbours of a node"""
    def __init__(self, x): super().__init__(None); self.x = x
    def one(self): t = sk("neighbour"); know(T.g.adj(self.x, t)); return t
def ids(some=False):
    b = Box(None)
    if some: know(lift(b.vc_size()) >= 1)
    return b
for _m in ("standardGrowth", "singleClusterSmallestFirstGrowth", "singleClusterRandomFirstGrowth"):
    contract("C03", f"src/UFHeuristic.cpp:UFHeuristic.{_m}", "heuristic " + _m)(typed(_m, lambda g, pcm: (Box(-1, "pair"), Box(-2), ids(True), pcm)))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.extractValidComponents", "extractValidComponents")(typed("extractValidComponents", lambda g, pcm: (ids(), ids(), pcm), prep=lambda c, o, env, rt: o.__dict__.update(isValidComponent=lambda x, p: (obl("components are nodes", T.g.U(lift(x))), mk(sk("valid", B)))[1])))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.isValidComponent", "isValidComponent of the heuristic")(typed("isValidComponent", lambda g, pcm: (mk(T.node()), pcm)))
class Map:
    """nodeMap: some ids have nodes, and every node stored under an id is the node of that id"""
    _vc_born = 0
    def vc_m(self, name, *a):
        t = lift(a[0]) if a else None
        if name == "find": obl("only nodes of the graph are looked up", T.g.U(t)); return MapIt(t, sk("present", B))
        if name == "end": return END
        if name in ("try_emplace", "emplace"):
            n = a[1]; obl("a node is stored under its own id", lift(n.vertexIdx) == t); obl("only nodes of the graph are stored", T.g.U(t)); obl("a stored node is marked as a check exactly if it is one", to_bool(lift(n.isCheck)) == (t >= T.g.n))
            cv = n.checkVertices; k = len(cv.l); obl("the check vertices of a new node are itself or nothing", z3.And(k <= 1, (t >= T.g.n) == (k == 1), *[x == t for x in cv.l])); return MapRes(MapIt(t, z3.BoolVal(True)))
        return NotImplemented
class MapRes:
    def __init__(self, it): self.first, self.second = it, True
    def vc_cp(self): return self
class MapIt:
    def __init__(self, t, p): self.t, self.p = t, p
    def vc_eq(self, x):
        if x is END: return mk(simp(z3.Not(self.p)))
        raise Unsupported("comparison of positions")
    def vc_deref(self): obl("position refers to a node", self.p); return self
    def vc_cp(self): return self
    second = property(lambda self: Own(NodeF(self.t))); first = property(lambda self: mk(self.t))
class Own:
    def __init__(self, n): self.n = n
    def get(self): return self.n
    def vc_m(self, name, *a): return self.n if name == "get" else NotImplemented
    def vc_deref(self): return self.n
    def vc_null(self): return False
class Ids:
    """the list of a new node"""
    def __init__(self): self.l, self._vc_born = [], born()
    def _vc_save(self): return list(self.l)
    def _vc_load(self, s): self.l = list(s)
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"): E.touch(self); self.l = [*self.l, simp(lift(a[0]))]; return None
        return NotImplemented
class NewNode:
    """TreeNode(idx): its constructor is under contract for C04"""
    def __init__(self, idx=0): self.__dict__.update(vertexIdx=mk(lift(idx)), isCheck=False, checkVertices=Ids(), _vc_born=born())
    def _vc_save(self): return self.__dict__["isCheck"]
    def _vc_load(self, s): self.__dict__["isCheck"] = s
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_m(self, name, *a): return self if name == "get" else NotImplemented
    def __setattr__(self, n, v):
        if n != "isCheck": raise Unsupported("change of a node's " + n)
        E.touch(self); self.__dict__[n] = v
def lookup(c):
    env, rt, dig = unit_h(c, {("UFHeuristic", "getNodeFromIdx")}, new_node); g = T.g = Graph(); o = object.__new__(env["UFHeuristic"].cls); o.__dict__.update(_vc_born=born(), nodeMap=Map(), getCode=lambda: CodeStub(g)); x = T.node(); rt.env["TreeNode"] = cxx.Ctor(NewNode, lambda rt, *a: NewNode(*a), None, None); rt.hooks["std"]["move"] = lambda v: v
    c.run(lambda: (Rules(c), o.getNodeFromIdx(mk(x)))[1], lambda r: c.ob("the node of the given id is returned", isinstance(r, NodeF) and r.idx == x), frame=False)
def new_node(rt, t, a): return NewNode(*a) if t.replace("const ", "").strip() in ("TreeNode", "std::unique_ptr<TreeNode>") else new(rt, t, a)
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.getNodeFromIdx", "getNodeFromIdx")(lookup)
@contract("C03", "src/UFHeuristic.cpp:UFHeuristic.computeInitTreeComponents")
def init_comps(c):
    env, rt, dig = unit_h(c, {("UFHeuristic", "computeInitTreeComponents")}, new_node); g = T.g = Graph(); o = object.__new__(env["UFHeuristic"].cls); o.__dict__.update(_vc_born=born(), nodeMap=Map(), getCode=lambda: CodeStub(g)); rt.env["TreeNode"] = cxx.Ctor(NewNode, lambda rt, *a: NewNode(*a), None, None); rt.hooks["std"]["move"] = lambda v: v
    p = fun("syndrome", I, B); L = Nat("length"); know(L.t <= g.m); syn = Bits(L.t, lambda i: p(i))
    def post(r):
        y = fresh("y"); c.ob("a set is returned", isinstance(r, USet))
        prove(c, "the initial components are exactly the checks of the syndrome", r.mem(y) == z3.And(y >= g.n, y < g.n + L.t, p(y - g.n)), y, y - g.n)
    c.run(lambda: (Rules(c), o.computeInitTreeComponents(syn))[1], post, frame=False)
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.erasureDecoder", "erasureDecoder")(typed("erasureDecoder", lambda g, pcm: (ids(), ids(), pcm), lambda c, r: c.ob("the estimate of the erasure decoder lists qubits only", isinstance(r, Box) and r.pure())))
def growing(c, o, env, rt):
    """doDecoding: the growth loop and the fusion work on nodes of the graph only"""
    def grow(edges, present, comps, pcm): [b.put(PairF(T.node(), T.node())) for b in (edges,)]; obl("growth is asked of components", z3.BoolVal(isinstance(comps, Box)))
    def extract(inv, val, pcm): val.put(mk(T.node()))
    def er(erasure, comps, pcm): obl("the grown components are handed to the erasure decoder", z3.BoolVal(isinstance(erasure, Box) and isinstance(comps, Box))); return Box(None, "bit")
    o.__dict__.update(computeInitTreeComponents=lambda s: ids(), erasureDecoder=er, extractValidComponents=extract, result=earlier())
    for f in ("standardGrowth", "singleClusterSmallestFirstGrowth", "singleClusterRandomFirstGrowth"): o.__dict__[f] = grow
def syndrome(g): p = fun("syndrome", I, B); L = Nat("length"); know(L.t <= g.m); return Bits(L.t, lambda i: p(i))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.doDecoding", "doDecoding, growth and fusion")(typed("doDecoding", lambda g, pcm: (syndrome(g), pcm), prep=growing))
def reset_(cls, path):
    def k(c):
        env, rt, dig = cxx.load(path, [cls], cls, only={(cls, "reset")}, hooks={"new": new, "init": lambda rt, t, a: Res(estimBoolVector=Bits(0, lambda j: z3.BoolVal(False)), estimNodeIdxVector=Bag(), decodingTime=0) if "DecodingResult" in t and all(x is None or hasattr(x, "__len__") and not len(x) or isinstance(x, (int, Bag)) for x in a) else NotImplemented}); RTX.rt = rt; rt.dflt = lambda: None
        o = object.__new__(env[cls].cls); o.__dict__["_vc_born"] = born(); old = Res(estimBoolVector=Bits(Nat("n").t, lambda j: z3.BoolVal(True)), estimNodeIdxVector=Blank(), decodingTime=mk(fresh("t"))); nodes = {"n": 1}
        class Any:
            """a node of the forest that is taken apart"""
            _vc_born = 0
            def vc_deref(self): return self
            def vc_null(self): return False
            def vc_assign(self, v): pass
            def vc_m(self, name, *a): return None
            def vc_cp(self): return self
            def __setattr__(self, n, v): pass
            def vc_elems(self, mutable): s = seqs.Seq(Nat("entries").t, lambda i: Any()); s.fam = Fam(lambda k: z3.BoolVal(True), lambda k: Any()); return s
            first = second = parent = property(lambda self: self)
            children = boundaryVertices = checkVertices = property(lambda self: self)
        class Cache(Any):
            def vc_m(self, name, *a): return self if name == "gethZ" else None
            nbrCache = property(lambda self: self)
        class M(Any):
            def vc_m(self, name, *a):
                if name == "clear": nodes["n"] = 0
        o.__dict__.update(result=old, nodeMap=M(), getCode=lambda: Cache())
        def post(r):
            res = o.__dict__["result"]; b, l = res.estimBoolVector, res.estimNodeIdxVector
            c.ob("no estimate is left", E.entails(lift(RTX.rt.size(b)) == 0)); c.ob("no index is left", isinstance(l, Bag) and not l.parts)
            if cls == "UFHeuristic": c.ob("no cluster is left", nodes["n"] == 0)
        def once(R, fam, body, get, set_, names):
            i0 = list(get()); E.explore(lambda: (set_(tuple(forget(v) if is_loc(v) else v for v in i0)), body(fam.item(None)))[1], lambda p: None if p.exc is None else c.ob("no exception while the forest is taken apart", False)); set_(tuple(i0)); return loops.CONT
        c.run(lambda: (Rules(c, None, once), nodes.update(n=1), o.reset())[2], post, frame=False)
    return k
contract("C03", "src/UFDecoder.cpp:UFDecoder.reset", "UFDecoder.reset")(reset_("UFDecoder", "src/UFDecoder.cpp"))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.reset", "UFHeuristic.reset")(reset_("UFHeuristic", "src/UFHeuristic.cpp"))
contract("C03", "src/UFDecoder.cpp:UFDecoder.doDecode", "doDecode")(dodecode(False))
contract("C03", "src/UFDecoder.cpp:UFDecoder.doDecode", "doDecode, zero syndrome")(dodecode(True))
def under(c, name, cond, fn):
    """obligation whose goal only makes sense under a condition"""
    E.ctxs.append(core.Ctx([]))
    try: E.assume(cond); return c.ob(name, fn())
    except PathEnd: return c.ob(name, True)
    finally: E.ctxs.pop()
def true_under(cond, fn):
    E.ctxs.append(core.Ctx([]))
    try: E.assume(cond); return E.entails(fn())
    except PathEnd: return True
    finally: E.ctxs.pop()
def dec(cls, inner, path):
    def k(c):
        env, rt, dig = cxx.load(path, [cls], cls, only={(cls, "decode")}); RTX.rt = rt
        g, gx = Graph(), Graph(); E.assume(g.n == gx.n); hz, hx = object(), object(); o = object.__new__(env[cls].cls); o.__dict__["_vc_born"] = born(); calls = []
        class M:
            def __init__(self, m, tag): self.m, self.tag = m, tag
            def vc_null(self): return False
            def vc_deref(self): return self
            @property
            def pcm(self): return self
            def vc_m(self, name, *a): return mk(self.m) if name == "size" else NotImplemented
        HZ, HX = M(g.m, "z"), M(gx.m, "x")
        class Cd:
            def vc_null(self): return False
            def vc_deref(self): return self
            def gethZ(self): return HZ
            def gethX(self): return HX
            def getN(self): return mk(g.n)
        L = Nat("length"); two = Bool("two sided"); E.assume(z3.Or(L.t <= g.m, L.t == g.m + gx.m)); f = fun("syndrome", I, B); syn = SArr((L.t,), lambda i: f(i), "b")
        class R2(Res): pass
        hist = []
        def do(s, m):
            n = len(calls); bf, lf, ln = fun("bit", I, B), fun("listed", I, I), fresh("count"); E.assume(ln >= 0)
            calls.append((s, m, bf, lf, ln)); o.__dict__["result"] = R2(decodingTime=V(fresh("t")), estimBoolVector=PList([("s", g.n, lambda i: mk(bf(lift(i))))]), estimNodeIdxVector=PList([("s", ln, lambda i: mk(lf(lift(i))))])); hist.append("decode")
        def reset(): o.__dict__["result"] = R2(decodingTime=0, estimBoolVector=PList([]), estimNodeIdxVector=PList([])); hist.append("reset")
        o.__dict__.update(getCode=lambda: Cd(), reset=reset); o.__dict__[inner] = do
        def go(): calls.clear(); hist.clear(); reset(); setattr(E, "loops", {}); o.decode(syn)
        def elem(s, i):
            return to_bool(lift(s.fn(i) if isinstance(s, SArr) else lift(s[mk(i)])))
        def post(r):
            res = o.__dict__["result"]; b, l = res.estimBoolVector, res.estimNodeIdxVector; i = fresh("i"); nb = lift(loops.b_len(b)); nl = lift(loops.b_len(l))
            ok = isinstance(b, PList) and isinstance(l, PList)
            if len(calls) == 1:
                s, m, bf, lf, ln = calls[0]; c.ob("a syndrome of one kind is decoded with the Z checks", m is HZ and E.entails(L.t <= g.m)); c.ob("the whole syndrome is passed on", lift(loops.b_len(s)) == L.t); under(c, "the syndrome itself is decoded", z3.And(i >= 0, i < L.t), lambda: elem(s, i) == f(i))
                c.ob("one estimate vector", nb == g.n); under(c, "the estimate is the decoder's", z3.And(i >= 0, i < g.n), lambda: elem(b, i) == bf(i)); return
            c.ob("a two-sided syndrome is decoded in two parts", len(calls) == 2 and {x[1].tag for x in calls} == {"x", "z"})
            if len(calls) != 2: return
            c.ob("only longer syndromes are split", L.t > g.m)
            z, x = (calls if calls[0][1] is HZ else calls[::-1])
            c.ob("the parts have as many entries as there are checks", z3.And(lift(loops.b_len(z[0])) == g.m, lift(loops.b_len(x[0])) == gx.m))
            if not E.entails(z3.And(lift(loops.b_len(z[0])) == g.m, lift(loops.b_len(x[0])) == gx.m)): return
            under(c, "the first part is decoded with the Z checks", z3.And(i >= 0, i < g.m), lambda: elem(z[0], i) == f(i))
            under(c, "the second part is decoded with the X checks", z3.And(i >= 0, i < gx.m), lambda: elem(x[0], i) == f(g.m + i))
            c.ob("two estimate vectors", nb == 2 * g.n); c.ob("two index lists", nl == z[4] + x[4])
            if not E.entails(z3.And(nb == 2 * g.n, nl == z[4] + x[4])): return
            inq = z3.And(i >= 0, i < g.n); order = lambda p, q: (lambda: z3.And(elem(b, i) == p[2](i), elem(b, simp(g.n + i)) == q[2](i)))
            first, second = (x, z) if true_under(inq, order(x, z)) else (z, x)
            under(c, "the estimates of both parts are kept, one after the other", inq, order(first, second))
            for part, off, what in ((first, z3.IntVal(0), "first"), (second, first[4], "second")):
                j = fresh("j"); E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(j >= 0, j < part[4])); c.ob(f"so are the index lists, in the same order ({what})", E.entails(part[4] <= 0) or lift(l[mk(simp(off + j))]) == part[3](j))
                except PathEnd: pass
                finally: E.ctxs.pop()
            c.ob("the decoder is reset before the second part", hist[-3:] == ["decode", "reset", "decode"])
        c.run(go, post, frame=False)
    return k
contract("C03", "src/UFDecoder.cpp:UFDecoder.decode", "UFDecoder.decode")(dec("UFDecoder", "doDecode", "src/UFDecoder.cpp"))
contract("C03", "src/UFHeuristic.cpp:UFHeuristic.decode", "UFHeuristic.decode")(dec("UFHeuristic", "doDecoding", "src/UFHeuristic.cpp"))
