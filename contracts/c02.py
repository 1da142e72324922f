from contracts.lib import *
from vc import cxx
NOTES = dict(assumptions=["check matrices are rectangular; column lists of a sparse matrix name rows of the matrix and list none twice", "integers are mathematical; allocation does not fail"],
             trusted=["linear algebra over GF(2): swapping rows and adding a row to others keeps the rank; a matrix with r unit-lower-triangular pivot columns whose rows from r on are zero has rank r; a factorisation P A = L U with unit lower triangular L, pivots in U and zero rows below solves every consistent system by substitution; a vector is in the column space exactly if appending it keeps the rank",
                      "std::vector, std::swap, std::min"],
             outside=["reading matrices from files"],
             explanation="representation invariant of the decomposition: every stored row operation, pivot and factor is tied to a ghost W(k, c, i) - entry i of column c after the first k operations - defined by the recursion over the stored operations; eliminating a column is obliged to establish the invariant for one more column (and one more operation if a pivot is found) for every matrix, the substitution loops are obliged to satisfy both triangular systems, and the callers are obliged to decompose exactly the transposed matrix and the matrix with the vector appended and to compare the two ranks")
def fun(name, *s):
    f = z3.Function(f"{name}!{next(core._fresh)}", *s); return f
# ------------------------------------------------------------------ vectors of index lists as relations
class Rel:
    inst = elem = None           # facts known about an entry when it is inserted / visited
    """vector of duplicate-free index lists: mem(t, q) tells whether list t contains q; entries below `bound`"""
    def __init__(self, name, n, mem, bound, ro=False): self._vc_born = born(); self.name, self.n, self.mem, self.bound, self.log, self.ro = name, lift(n), mem, lift(bound), [], ro
    def _vc_save(self): return (self.n, self.mem)
    def _vc_load(self, s): self.n, self.mem = s
    def vc_size(self): return mk(self.n)
    def vc_get(self, t): return Row(self, lift(t))
    def vc_set(self, t, v): self.write(lift(t), self.row(v))
    def row(self, v):
        if isinstance(v, (Frozen, Row)): return v.at
        if isinstance(v, PList):
            return lambda q: to_bool(lift(loops.contains(v, V(q))))
        raise Unsupported("contents of an index list")
    def write(self, t, f):
        E.touch(self); self.log.append(None); o = self.mem
        self.mem = lambda a, q: z3.If(a == t, f(q), o(a, q))
    def insert(self, t, x):
        E.touch(self); o = self.mem
        E.ctxs.append(core.Ctx([]))               # facts about (t, x) are used here only
        try:
            if self.inst is not None: self.inst(t, x)
            E.oblige(f"no index is listed twice ({self.name})", z3.Not(o(t, x))); E.oblige(f"index in range ({self.name})", z3.And(x >= 0, x < self.bound))
        finally: E.ctxs.pop()
        self.log.append((t, x)); self.mem = lambda a, q: z3.Or(z3.And(a == t, q == x), o(a, q))
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"):
            f = self.row(a[0]) if a else (lambda q: z3.BoolVal(False)); n = self.n; E.touch(self); self.log.append(None); o = self.mem
            self.mem = lambda t, q: z3.If(t == n, f(q), o(t, q)); self.n = simp(n + 1); return Row(self, n)
        if name == "resize":
            n, m = self.n, lift(a[0]); f = self.row(a[1]) if len(a) > 1 else (lambda q: z3.BoolVal(False)); E.touch(self); self.log.append(None); o = self.mem
            self.mem = lambda t, q: z3.If(t < n, o(t, q), f(q)); self.n = simp(m); return None
        if name == "reserve": return None
        if name == "back": E.oblige("vector is not empty", self.n >= 1); return Row(self, simp(self.n - 1))
        if name == "size": return self.vc_size()
        if name == "empty": return mk(simp(self.n == 0))
        return NotImplemented
class Frozen:
    def __init__(self, at): self.at = at
    def vc_cp(self): return self
class Row:
    def __init__(self, rel, t): self.rel, self.t = rel, t
    def at(self, q): return self.rel.mem(self.t, q)
    def vc_cp(self):
        m, t = self.rel.mem, self.t; return Frozen(lambda q: m(t, q))
    def vc_assign(self, v): self.rel.write(self.t, self.rel.row(v))
    def vc_m(self, name, *a):
        if name in ("emplace_back", "push_back"): self.rel.insert(self.t, lift(a[0])); return None
        if name == "clear": self.rel.write(self.t, lambda q: z3.BoolVal(False)); return None
        if name == "reserve": return None
        return NotImplemented
    def vc_elems(self, mutable):
        s = seqs.Seq(lift(mk(fresh("count"))), lambda i: (_ for _ in ()).throw(Unsupported("order of an index list"))); s.ref = self
        E.assume(s.n >= 0); return s
def deps(arrs): return [a for a in arrs if isinstance(a, SArr)]
class Rules:
    """loop rules, chosen by what a pass does"""
    def __init__(self, c, columns=None, solve=None): self.c, self.columns, self.solve = c, columns, list(solve or []); setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        if not hasattr(it, "n"): raise Unsupported("while loop in the elimination")
        if hasattr(it, "ref"): return self.over_set(it.ref, body, get, set_, list(names))
        if self.solve: return self.solve.pop(0)(self, rt, it, body, get, set_, list(names))
        what = self.trial(it, body, get, set_)
        if what["arr"] and self.columns is not None: return self.columns(self, it, body, get, set_, list(names), what)
        if what["rel"]: return self.inserts(it, body, get, set_, list(names))
        setattr(E, "loops", {})
        try: return rt.for_loop("auto", it, body, get, set_, names)
        finally: setattr(E, "loops", self)
    def trial(self, it, body, get, set_):
        """what one pass changes"""
        i0 = get(); out = dict(arr=[], rel=[], names=set(), other=[]); k = fresh("k"); start = born(); mark = len(E.obls); saved = list(self.solve)
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); run.at = get(); return body(it.item(V(k)))
        def on(p):
            for o, old in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) > start: continue
                l = out["arr"] if isinstance(o, SArr) else out["rel"] if isinstance(o, Rel) else out["other"]
                if not any(x is o for x in l): l.append(o)
            for j, (a, b) in enumerate(zip(run.at, get())):
                if a is not b: out["names"].add(j)
        try: E.explore(run, on)
        finally: del E.obls[mark:]; set_(i0); self.solve = saved; setattr(E, "loops", self)
        return out
    def over_set(self, ref, body, get, set_, names):
        """every element of the list is visited once, in an unknown order: the passes flip or set the listed entries of an array, or
        accumulate an exclusive or; nothing else may change"""
        c, i0 = self.c, list(get()); e, q = fresh("e"), fresh("q"); mem = ref.at; start = born(); dom = z3.And(e >= 0, e < ref.rel.bound, mem(e))
        arrs, mark = [], len(E.obls)
        def run0(): E.assume(dom); ref.rel.elem and ref.rel.elem(ref.t, e); set_(tuple(forget(v) if is_loc(v) else v for v in i0)); run0.at = get(); return body(V(e))
        mods = set()
        def on0(p):
            for o, old in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) <= start and not any(x is o for x in arrs): arrs.append(o)
            for j, (a, b) in enumerate(zip(run0.at, get())):
                if a is not b: mods.add(j)
        E.explore(run0, on0); del E.obls[mark:]; set_(tuple(i0))
        if any(not isinstance(o, SArr) or len(o._shape) != 1 or o.kind != "b" for o in arrs): raise Unsupported("loop over an index list with other effects")
        acc = [j for j in sorted(mods) if is_loc(i0[j]) and i0[j] is not loops.UNBOUND]; hs = {j: fresh("acc", B) for j in acc}
        gen = {id(o): fun("any", I, B) for o in arrs}; kinds = {id(o): {"flip", "set"} for o in arrs}; plus, fails = {}, []
        def run():
            E.assume(dom); E.assume(z3.And(q >= 0)); ref.rel.elem and ref.rel.elem(ref.t, e)
            for o in arrs: E.touch(o); o.fn = gen[id(o)]
            s = [forget(v) if is_loc(v) else v for v in i0]
            for j in acc: s[j] = mk(z3.If(hs[j], z3.IntVal(1), z3.IntVal(0))) if lift(i0[j]).sort() == I else mk(hs[j])
            set_(tuple(s)); return body(V(e))
        def bit(t): return t if z3.is_bool(t) else t == 1
        def on(p):
            if p.exc is not None or p.result is not loops.CONT: fails.append(1); return
            for o, _ in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) <= start and not any(o is a for a in arrs): fails.append(2)
            for o in arrs:
                g, new = gen[id(o)], o.at(q)
                if not E.entails(new == z3.Xor(g(q), q == e)): kinds[id(o)].discard("flip")
                if not E.entails(new == z3.Or(g(q), q == e)): kinds[id(o)].discard("set")
            for j in acc:
                v = get()[j]; t = bit(lift(v)); f = simp(z3.substitute(t, (hs[j], z3.BoolVal(False))))
                if lift(v).sort() == I and not E.entails(z3.And(lift(v) >= 0, lift(v) <= 1)): fails.append(3)
                if not E.entails(t == z3.Xor(hs[j], f)): fails.append(4)
                plus.setdefault(j, []).append((p, f))
        E.explore(run, on); set_(tuple(i0))
        if fails or any(not k for k in kinds.values()) or any(len(v) != 1 for v in plus.values()): raise Unsupported("loop over an index list with other effects")
        for o in arrs:
            E.touch(o); f = o.fn
            o.fn = (lambda x, f=f: z3.Xor(f(x), mem(x))) if "flip" in kinds[id(o)] else (lambda x, f=f: z3.Or(f(x), mem(x)))
        s = [forget(v) if j in mods and j not in acc else v for j, v in enumerate(i0)]
        for j in acc:
            t = z3.Xor(bit(lift(i0[j])), par(0, ref.rel.bound, lambda x: z3.And(mem(x), z3.substitute(plus[j][0][1], (e, x)))))
            s[j] = mk(z3.If(simp(t), z3.IntVal(1), z3.IntVal(0))) if lift(i0[j]).sort() == I else mk(simp(t))
        set_(tuple(s)); return loops.CONT
    def inserts(self, it, body, get, set_, names):
        """passes that only insert into index lists, at places named by the pass itself: the effects are collected"""
        i0 = list(get()); k = fresh("k"); start = born(); out = []
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); set_(tuple(forget(v) if is_loc(v) else v for v in i0))
            for r in self.rels: r.log = []
            return body(it.item(V(k)))
        def on(p):
            if p.exc is not None or p.result is not loops.CONT: raise Unsupported("loop that leaves early while lists grow")
            ins = []
            for o, _ in E.ctxs[-1].journal.values():
                if getattr(o, "_vc_born", 0) > start: continue
                if not isinstance(o, Rel) or any(l is None for l in o.log): raise Unsupported("loop with other effects than list insertions")
                ins += [(o, *l) for l in o.log]
            out.append((p.guard, ins))
        E.explore(run, on); set_(tuple(forget(v) if is_loc(v) else v for v in i0))
        new = {}
        for g, ins in out:
            for o, t, x in ins: new.setdefault(id(o), (o, []))[1].append((g, simp(t), simp(x)))
        n = lift(it.n)
        for o, l in new.values():
            E.touch(o); old = o.mem
            def member(a, y, l=l, old=old):
                r = [old(a, y)]
                for g, t, x in l:
                    # the pass that names (a, y): solved for the loop index
                    for term, val in ((x, y), (t, a)):
                        d = simp(term - k)
                        if not has(d, k):
                            s = simp(val - d); sub = lambda z: z3.substitute(z, (k, s)); r.append(z3.And(s >= 0, s < n, sub(g), sub(t) == a, sub(x) == y)); break
                    else: raise Unsupported("list insertion at a place that does not name its pass")
                return z3.Or(r)
            o.mem = member
        return loops.CONT
def has(t, k):
    st = [t]
    while st:
        x = st.pop()
        if x.eq(k): return True
        st.extend(x.children())
    return False
def is_loc(v): return v is None or isinstance(v, (V, int, bool)) or v is loops.UNBOUND or isinstance(v, loops.Poison)
def implicit(o, **kw):
    for k, v in kw.items(): o.__dict__[k] = v
    return o
def unit(c, hooks=None):
    env, rt, dig = cxx.load("src/GF2.cpp", ["PluDecomposition"], "GF2", hooks=hooks); c.cx = rt
    C = env["PluDecomposition"].cls
    def obj(): o = object.__new__(C); o.__dict__["_vc_born"] = born(); return o
    return env, rt, obj
class Ghost:
    """an arbitrary decomposition of an R x C matrix after `cur` columns, r operations"""
    def __init__(self, c, obj):
        R, Cn, r, cur = Nat("R"), Nat("C"), Nat("r"), Nat("cur"); self.R, self.C, self.r, self.cur = R.t, Cn.t, r.t, cur.t
        E.assume(z3.And(r.t <= R.t, r.t <= cur.t, cur.t < Cn.t))
        self.A = fun("A", I, I, B); self.W = fun("W", I, I, I, B); self.s = fun("swap", I, I); self.p = fun("pivot", I, I); self.el = fun("elim", I, I, B); self.low = fun("low", I, I, B); self.up = fun("up", I, I, B); self.rho = fun("row", I, I); self.piv = fun("pivindex", I, I)
        rows = SArr((R,), lambda i: self.rho(i), "i")
        self.o = implicit(obj(), rowCount=R, colCount=Cn, matrixRank=r, cscMat=Rel("columns", Cn, lambda t, q: self.A(t, q), R),
            rows=rows, swapRows=PList([("s", r.t, lambda k: mk(self.s(lift(k))))]), pivotCols=PList([("s", r.t, lambda k: mk(self.p(lift(k))))]),
            eliminationRows=Rel("eliminations", r, lambda t, q: self.el(t, q), R), lower=Rel("lower", R, lambda t, q: self.low(t, q), R), upper=Rel("upper", r, lambda t, q: self.up(t, q), Cn))
        self.rels = [self.o.cscMat, self.o.eliminationRows, self.o.lower, self.o.upper]
        # bounds, for the arbitrary indices that are used
        self.op0 = lambda k: z3.Implies(z3.And(k >= 0, k < self.r), z3.And(self.s(k) >= k, self.s(k) < self.R, self.p(k) >= 0, self.p(k) < self.cur, self.piv(self.p(k)) == k))
    def sw(self, k, s, i): return z3.If(i == k, s, z3.If(i == s, k, i))
    def step(self, k, c, i): return z3.Xor(self.W(k, c, self.sw(k, self.s(k), i)), z3.And(self.W(k, c, self.s(k)), self.el(k, i)))
    def inst(self, k, c, i):
        """the invariant at operation k, column c, row i"""
        W, r = self.W, self.r
        E.assume(self.op0(k)); ok = z3.And(k >= 0, k < r)
        E.assume(z3.Implies(self.el(k, i), z3.And(i > k, i < self.R))); E.assume(W(0, c, i) == self.A(c, i))
        E.assume(z3.Implies(z3.And(ok, i >= 0, i < self.R), W(k + 1, c, i) == self.step(k, c, i)))
        E.assume(z3.Implies(ok, z3.And(W(r, self.p(k), k), z3.Implies(z3.And(i > k, i < self.R), z3.Not(W(r, self.p(k), i))))))
        E.assume(z3.Implies(z3.And(c >= 0, c < self.cur, i >= r, i < self.R), z3.Not(W(r, c, i))))
        E.assume(z3.Implies(self.low(i, k), z3.And(ok, i >= k, i < self.R))); E.assume(z3.Implies(z3.And(ok, i == k), self.low(i, k)))
        ispiv = z3.And(self.piv(c) >= 0, self.piv(c) < r, self.p(self.piv(c)) == c)
        E.assume(z3.Implies(z3.And(i >= 0, i < r), self.up(i, c) == z3.And(ispiv, W(r, c, i)))); E.assume(z3.Implies(self.up(i, c), z3.And(c >= 0, c < self.cur)))
        E.assume(z3.Implies(z3.And(i >= 0, i < self.R), z3.And(self.rho(i) >= 0, self.rho(i) < self.R)))
def apply_column(g, col):
    """loop rule for the replay of the stored operations on the new column: after k passes the column is W(k, col)"""
    def rule(R, it, body, get, set_, names, what):
        c, arr = R.c, what["arr"][0]
        if len(what["arr"]) != 1 or what["rel"] or what["other"] or arr.kind != "b": raise Unsupported("replay of the operations with other effects")
        k, i = fresh("k"), fresh("i"); i0 = list(get()); rng = z3.And(i >= 0, i < g.R)
        g.inst(k, col, i); c.ob("replay covers the stored operations", lift(it.n) == g.r)
        g.inst(z3.IntVal(0), col, i); c.ob("replay starts from the column of the matrix", z3.Implies(rng, arr.at(i) == g.W(z3.IntVal(0), col, i)))
        k = fresh("k")
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); g.inst(k, col, i); g.inst(k, col, g.s(k)); g.inst(k, col, k); E.touch(arr); arr.fn = lambda x: g.W(k, col, x)
            set_(tuple(forget(v) if j in what["names"] else v for j, v in enumerate(i0))); return body(it.item(V(k)))
        def on(p):
            if p.exc is not None or p.result is not loops.CONT: c.ob("replay of an operation runs through", False); return
            E.assume(rng); g.inst(k, col, i); c.ob("an operation is replayed exactly", arr.at(i) == g.W(k + 1, col, i))
        E.explore(run, on); set_(tuple(forget(v) if j in what["names"] else v for j, v in enumerate(i0)))
        E.touch(arr); arr.fn = lambda x: g.W(g.r, col, x); return loops.CONT
    return rule
@contract("C02", "src/GF2.cpp:PluDecomposition.eliminateColumn")
def eliminate(c):
    env, rt, obj = unit(c); g = Ghost(c, obj); o = g.o; col = g.cur
    for k in (z3.IntVal(0), g.r): g.inst(k, col, g.r)
    def known(t, x):
        for a in (t, lift(o.swapRows[V(g.r)])): g.inst(x, col, a)
    g.o.lower.inst = known; g.o.upper.inst = lambda t, x: g.inst(g.r, x, t)
    def go():
        R = Rules(c, columns=apply_column(g, col)); R.rels = g.rels; return o.eliminateColumn(mk(col))
    def post(ret):
        i, j, k = fresh("i"), fresh("j"), fresh("k"); E.assume(z3.And(i >= 0, i < g.R, j >= 0, j < g.C, k >= 0, k < g.r)); W, r = g.W, g.r
        for a in (i, r): g.inst(k, j, a); g.inst(k, col, a)
        found = to_bool(lift(o.matrixRank) == r + 1); el, low, up = o.eliminationRows, o.lower, o.upper
        sz = lambda v: lift(loops.b_len(v))
        c.ob("the result tells whether the rank has grown", to_bool(lift(ret)) == found)
        c.ob("the matrix keeps its size", z3.And(lift(o.rowCount) == g.R, lift(o.colCount) == g.C, lift(low.n) == g.R))
        c.ob("the matrix itself is unchanged", o.cscMat.mem(j, i) == g.A(j, i))
        n1 = lift(o.matrixRank)
        c.ob("one entry per operation", z3.And(sz(o.swapRows) == n1, sz(o.pivotCols) == n1, lift(el.n) == n1, lift(up.n) == n1))
        c.ob("earlier swaps are kept", lift(o.swapRows[V(k)]) == g.s(k)); c.ob("earlier pivots are kept", lift(o.pivotCols[V(k)]) == g.p(k)); c.ob("earlier eliminations are kept", el.mem(k, i) == g.el(k, i))
        if E.entails(lift(o.matrixRank) == r):
            c.ob("no pivot: the new column is zero from the rank on", z3.Implies(i >= r, z3.Not(W(r, col, i))))
            c.ob("no pivot: the factors stay", z3.And(low.mem(i, k) == g.low(i, k), z3.Implies(i < r, up.mem(i, j) == g.up(i, j)), o.rows.at(i) == g.rho(i))); return
        c.ob("at most one operation is added", lift(o.matrixRank) == r + 1)
        s = lift(o.swapRows[V(r)]); c.ob("the pivot is taken from the rows not used so far", z3.And(s >= r, s < g.R)); c.ob("the pivot column is the new one", lift(o.pivotCols[V(r)]) == col)
        g.inst(k, col, s); g.inst(k, j, s); g.inst(k, g.p(k), s); g.inst(k, g.p(k), r); g.inst(k, g.p(k), i)
        E.assume(z3.And(s >= r, s < g.R)); sw = lambda x: g.sw(r, s, x)
        for a in (i, k): g.inst(k, j, sw(a)); g.inst(k, col, sw(a)); g.inst(k, g.p(k), sw(a))
        c.ob("eliminations concern rows below the pivot", z3.Implies(el.mem(r, i), i > r))
        W1 = lambda cc, x: z3.Xor(W(r, cc, sw(x)), z3.And(W(r, cc, s), el.mem(r, x)))
        E.assume(z3.Not(el.mem(r, r))) if E.entails(z3.Not(el.mem(r, r))) else None
        c.ob("the pivot entry is one", W1(col, r)); c.ob("the new column is zero below the pivot", z3.Implies(i > r, z3.Not(W1(col, i))))
        c.ob("earlier columns stay zero from the rank on", z3.Implies(z3.And(j < col, i >= r), z3.Not(W1(j, i))))
        c.ob("earlier pivots stay", W1(g.p(k), k)); c.ob("earlier pivot columns stay zero below the pivot", z3.Implies(i > k, z3.Not(W1(g.p(k), i))))
        c.ob("upper factor: the pivot columns of the reduced matrix", z3.Implies(i <= r, up.mem(i, j) == z3.And(z3.Or(j == col, z3.And(g.piv(j) >= 0, g.piv(j) < r, g.p(g.piv(j)) == j, j < col)), W1(j, i))))
        kk = fresh("kk"); E.assume(z3.And(kk >= 0, kk <= r)); g.inst(kk, j, i); g.inst(kk, j, sw(i)); g.inst(kk, j, r); g.inst(kk, j, s)
        c.ob("lower factor: unit lower triangular", z3.And(z3.Implies(low.mem(i, kk), kk <= i), z3.Implies(i == kk, low.mem(i, kk))))
        q = fresh("q"); E.assume(q > r); g.inst(q, j, i); g.inst(q, j, sw(i)); c.ob("lower factor: no entries beyond the rank", z3.Not(low.mem(i, q)))
        rows1 = o.rows.at(i); c.ob("rows are permuted like the factor", rows1 == g.rho(sw(i)))
        # P A = L U for the extended factorisation, at an arbitrary row and column
        old = lambda x: z3.And(x < r, g.low(sw(i), x), W(r, j, x)); new = lambda x: z3.And(x < r + 1, low.mem(i, x), W1(j, x)); E.assume(r < g.R)
        extra = z3.And(low.mem(i, r), W1(j, r)); before, after = fresh("parity_before", B), fresh("parity_after", B)      # parities of old(x), new(x) over the rows x
        g.inst(r, j, i); g.inst(r, j, sw(i)); g.inst(r, j, r); g.inst(r, j, s)
        E.assume(g.A(j, g.rho(sw(i))) == z3.Xor(z3.And(sw(i) >= r, W(r, j, sw(i))), before))                           # the invariant at row sw(i)
        k = fresh("wk"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(k >= 0, k < g.R)); g.inst(k, j, i); g.inst(k, j, sw(i)); g.inst(k, j, k); ok = c.ob("factorisation: the rows used so far stay", new(k) == z3.Xor(old(k), z3.And(k == r, extra)))
        finally: E.ctxs.pop()
        if ok: E.assume(after == z3.Xor(before, extra))         # the summands agree up to one extra term at row r
        c.ob("P A = L U for the rows and columns so far", g.A(j, rows1) == z3.Xor(z3.And(i >= r + 1, W1(j, i)), after))
    c.run(go, post, frame=False)
# ------------------------------------------------------------------ substitution
def extra_term(c, name, lo, hi, full, part, at, term):
    """if the summands agree up to one extra term at index `at` in the range, the parities differ by that term"""
    k = fresh("wk"); E.ctxs.append(core.Ctx([]))
    try:
        E.assume(z3.And(k >= lo, k < hi)); ok = c.ob(name, full(k) == z3.Xor(part(k), z3.And(k == at, term)))
    finally: E.ctxs.pop()
    return ok
def substitution(g, what, index, dom, f, rhs, known):
    """loop rule for a substitution: pass m computes the entry `index(m)` of one array from the entries of earlier passes (`dom(m, q)`),
    which are f(q), and the right-hand side `rhs(m)`, an exclusive or over earlier entries"""
    def rule(R, rt, it, body, get, set_, names):
        c = R.c; ch = R.trial(it, body, get, set_); i0 = list(get())
        arrs = [a for a in ch["arr"]]
        if len(arrs) != 1 or ch["rel"] or ch["other"]: raise Unsupported("substitution with other effects")
        arr = arrs[0]; n = lift(it.n); m, q = fresh("m"), fresh("q")
        g.arr[what] = arr; size = lift(arr._shape[0])
        c.ob(what + ": one pass per pivot", n == g.r)
        E.ctxs.append(core.Ctx([]))
        try: E.assume(z3.And(q >= 0, q < size)); known(z3.IntVal(0), q); c.ob(what + ": starts from zero", lift(arr.at(q)) == 0)
        finally: E.ctxs.pop()
        state = lambda mm: (lambda x: z3.If(z3.And(dom(mm, x), f(x)), z3.IntVal(1), z3.IntVal(0)))
        def run():
            E.assume(z3.And(m >= 0, m < n)); known(m, q); known(m, index(m)); E.touch(arr); arr.fn = state(m)
            set_(tuple(forget(v) if is_loc(v) and j in ch["names"] else v for j, v in enumerate(i0))); return body(it.item(V(m)))
        def on(p):
            if p.exc is not None or p.result is not loops.CONT: c.ob(what + ": pass runs through", False); return
            E.assume(z3.And(q >= 0, q < size)); new = lift(arr.at(q)); c.ob(what + ": entries stay bits", z3.And(new >= 0, new <= 1))
            c.ob(what + ": earlier entries stay, later ones stay zero", z3.Implies(q != index(m), new == state(m)(q)))
            val = simp(z3.simplify(lift(arr.at(index(m))))); same_term(c, what + ": the new entry solves its equation", simp(bitof(val)), simp(rhs(m)))
            known(m, index(m)); c.ob(what + ": the new entry was zero before", z3.Not(dom(m, index(m))))
        E.explore(run, on); set_(tuple(forget(v) if is_loc(v) and j in ch["names"] else v for j, v in enumerate(i0)))
        E.touch(arr); arr.fn = state(n); return loops.CONT
    return rule
def bitof(t):
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
        a, b = t.arg(1).as_long(), t.arg(2).as_long()
        if (a, b) == (1, 0): return t.arg(0)
        if (a, b) == (0, 1): return z3.Not(t.arg(0))
    return t == 1
@contract("C02", "src/GF2.cpp:PluDecomposition.luSolve")
def solve(c):
    env, rt, obj = unit(c); g = Ghost(c, obj); g.arr = {}; o = g.o; l = Nat("l"); yb = fun("y", I, B); y = SArr((l,), lambda i: z3.If(yb(i), z3.IntVal(1), z3.IntVal(0)), "i"); yold = y.fn
    r, R, Cn = g.r, g.R, g.C; beta, xi = fun("b", I, B), fun("x", I, B); isp = lambda q: z3.And(g.piv(q) >= 0, g.piv(q) < r, g.p(g.piv(q)) == q)
    lsum = lambda i: par(0, R, lambda k: z3.And(g.low(i, k), k < i, beta(k)))
    usum = lambda i: par(0, Cn, lambda q: z3.And(g.up(i, q), isp(q), g.piv(q) > i, xi(q)))
    def kf(m, q): g.inst(q, g.cur, m); g.inst(m, q, m); g.inst(m, g.cur, m)
    fwd = substitution(g, "forward substitution", lambda m: m, lambda m, q: q < m, beta, lambda m: z3.Xor(yb(g.rho(m)), lsum(m)), kf)
    def kb(m, q): t = r - 1 - m; g.inst(t, q, t); g.inst(g.piv(q), q, t); E.assume(z3.Implies(z3.And(q >= 0, isp(q)), z3.And(q < g.cur)))
    bwd = substitution(g, "backward substitution", lambda m: g.p(r - 1 - m), lambda m, q: z3.And(isp(q), g.piv(q) > r - 1 - m), xi, lambda m: z3.Xor(beta(r - 1 - m), usum(r - 1 - m)), kb)
    o.lower.elem = lambda t, e: g.inst(e, g.cur, t); o.upper.elem = lambda t, e: g.inst(t, e, t)
    def go(): Rl = Rules(c, solve=[fwd, bwd]); Rl.rels = g.rels; return o.luSolve(y)
    def post(x):
        c.ob("a right-hand side of the wrong length is not accepted", l.t == R)
        c.ob("both triangular systems are solved", len(g.arr) == 2)
        i, q = fresh("i"), fresh("q"); E.assume(z3.And(i >= 0, i < r)); g.inst(i, g.cur, i); kb(r - 1 - i, g.p(i))
        c.ob("one entry per column", lift(x._shape[0]) == Cn)
        E.assume(z3.And(q >= 0, q < Cn)); v = lift(x.at(q)); c.ob("the solution: ghost solution on the pivot columns, zero elsewhere", v == z3.If(z3.And(isp(q), g.piv(q) >= 0, xi(q)), z3.IntVal(1), z3.IntVal(0)))
        # L b = P y: row i, from the equation solved in pass i
        k = fresh("k"); g.inst(k, g.cur, i)
        def pw(name, hi, full, part, at, term, facts):
            k = fresh("wk"); E.ctxs.append(core.Ctx([]))
            try: E.assume(z3.And(k >= 0, k < hi)); facts(k); return c.ob(name, full(k) == z3.Xor(part(k), z3.And(k == at, term)))
            finally: E.ctxs.pop()
        pw("L b = P y: the equation of a pass is the row of the lower factor", R, lambda k: z3.And(g.low(i, k), k < r, beta(k)), lambda k: z3.And(g.low(i, k), k < i, beta(k)), i, beta(i), lambda k: g.inst(k, g.cur, i))
        pw("U x = b: the equation of a pass is the row of the upper factor", Cn, lambda q: z3.And(g.up(i, q), isp(q), xi(q)), lambda q: z3.And(g.up(i, q), isp(q), g.piv(q) > i, xi(q)), g.p(i), xi(g.p(i)), lambda q: (g.inst(g.piv(q), q, i), g.inst(i, q, i)))
        c.ob("the right-hand side is unchanged", y.fn is yold); c.ob("the rank is unchanged", lift(o.matrixRank) == r)
        c.ob("the factors are unchanged", not any(len(a.log) for a in g.rels))
    def rej(e): c.ob("an exception is thrown only for a right-hand side of the wrong length", l.t != R if not isinstance(e, cxx.UB) else False)
    c.run(go, post, raises=rej, frame=False)
# ------------------------------------------------------------------ the decomposition as a whole
class Cols:
    """loop rule for the elimination of the columns one after the other"""
    def __init__(self, c, o, st): self.c, self.o, self.st = c, o, st; setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        c, o, st = self.c, self.o, self.st
        setattr(E, "loops", {})
        try:
            hit, mark = [], len(E.obls); i0 = list(get()); k = fresh("k")
            def probe(): E.assume(z3.And(k >= 0, k < lift(it.n))); return body(it.item(V(k)))
            st.probing = True; cur = st.cur; mods = set()
            def seen(p):
                hit.append(st.called)
                for j, (a, b) in enumerate(zip(i0, get())):
                    if a is not b: mods.add(j)
            try: ps = E.explore(probe, seen)
            finally: st.probing = False; del E.obls[mark:]; set_(tuple(i0)); st.cur, st.called = cur, False
            if not any(hit): return rt.for_loop("auto", it, body, get, set_, names)
            c.ob("elimination starts from rank zero and column zero", z3.And(lift(o.matrixRank) == 0, st.cur == 0))
            def enter(at):
                r = fresh("r"); E.touch(o); o.__dict__["matrixRank"] = mk(r); st.cur = at; E.assume(z3.And(r >= 0, r <= at, r <= st.R)); st.called = False
                set_(tuple(forget(v) if is_loc(v) and j in mods else v for j, v in enumerate(i0))); return r
            mx = z3.If(st.R < st.C, st.R, st.C)
            def run():
                E.assume(z3.And(k >= 0, k < lift(it.n))); r = enter(k); E.assume(z3.Or(k == 0, r < mx)); return body(it.item(V(k)))
            def on(p):
                r = lift(o.matrixRank)
                if p.exc is not None or isinstance(p.result, loops.RetV): c.ob("elimination of a column runs through", False); return
                c.ob("every column is eliminated in turn", st.cur == k + 1); c.ob("rank within range", z3.And(r >= 0, r <= k + 1, r <= st.R))
                if p.result is loops.BRK: c.ob("columns are skipped only if the rank cannot grow any more", z3.Or(r == mx, k + 1 >= st.C))
                else: c.ob("elimination goes on only below full rank", z3.Or(r < mx, k + 1 >= st.C))
            E.explore(run, on)
            at = lift(it.n); c.ob("elimination covers all columns", at == st.C)
            if E.choose(2): at = fresh("kb"); E.assume(z3.And(at >= 1, at <= st.C)); r = enter(at); E.assume(r == mx); return loops.BRK
            r = enter(at); return loops.CONT
        finally: setattr(E, "loops", self)
class St: pass
def setup(c, env_obj=None, fields=True):
    env, rt, obj = unit(c); R, Cn = Nat("R"), Nat("C"); A_ = fun("A", I, I, B); st = St(); st.R, st.C, st.cur, st.called, st.probing = R.t, Cn.t, z3.IntVal(0), False, False
    return env, rt, obj, R, Cn, A_, st
@contract("C02", "src/GF2.cpp:PluDecomposition.rref")
def rref(c):
    env, rt, obj, R, Cn, A_, st = setup(c)
    mat = Rel("columns", Cn, lambda t, q: A_(t, q), R)
    o = implicit(obj(), rowCount=R, colCount=Cn, matrixRank=0, cscMat=mat, rows=PList([]), swapRows=PList([]), pivotCols=PList([]), eliminationRows=Rel("eliminations", z3.IntVal(0), lambda t, q: z3.BoolVal(False), R),
                 lower=Rel("lower", z3.IntVal(0), lambda t, q: z3.BoolVal(False), R), upper=Rel("upper", z3.IntVal(0), lambda t, q: z3.BoolVal(False), Cn))
    def eliminateColumn(this, col):
        if not st.probing:
            i = fresh("i"); E.assume(z3.And(i >= 0, i < R.t)); n = lift(loops.b_len(o.rows)) if not isinstance(o.rows, SArr) else lift(o.rows._shape[0])
            c.ob("before the first column: rows in their original order", z3.And(n == R.t, lift(o.rows[V(i)]) == i)); c.ob("before the first column: one empty list per row of the lower factor", z3.And(lift(o.lower.n) == R.t, z3.Not(o.lower.mem(i, i)))); q = fresh("q"); c.ob("the lower factor starts empty", z3.Implies(q >= 0, z3.Not(o.lower.mem(i, q))))
            c.ob("columns are eliminated in order, each once", lift(col) == st.cur); c.ob("the rank is below the maximum", lift(o.matrixRank) <= R.t)
        st.called = True; st.cur = simp(lift(col) + 1); E.touch(o)
        if E.choose(2): E.assume(lift(o.matrixRank) < R.t); o.__dict__["matrixRank"] = mk(simp(lift(o.matrixRank) + 1)); return True
        return False
    rt.hooks["PluDecomposition", "eliminateColumn"] = eliminateColumn
    type(o).eliminateColumn = eliminateColumn
    def go(): Cols(c, o, st); st.cur = z3.IntVal(0); st.called = False; return o.rref()
    def post(ret):
        r = lift(o.matrixRank); c.ob("in the end all columns are eliminated, or the rank is the largest possible", z3.Or(st.cur == Cn.t, r == z3.If(R.t < Cn.t, R.t, Cn.t)))
        i = fresh("i"); E.assume(z3.And(i >= 0, i < R.t)); c.ob("the matrix is unchanged", not mat.log); c.ob("one list per row of the lower factor", lift(o.lower.n) == R.t)
    c.run(go, post, frame=False)
@contract("C02", "include/GF2.hpp:PluDecomposition.PluDecomposition")
def ctor(c):
    env, rt, obj, R, Cn, A_, st = setup(c); mat = Rel("columns", Cn, lambda t, q: A_(t, q), R); calls = []
    C = env["PluDecomposition"].cls; C.rref = lambda this: calls.append(this)
    def go(): calls.clear(); return env["PluDecomposition"](R, Cn, mat)
    def post(o):
        c.ob("the decomposition is computed once", len(calls) == 1 and calls[0] is o)
        i, j = fresh("i"), fresh("j"); c.ob("size as given", z3.And(lift(o.rowCount) == R.t, lift(o.colCount) == Cn.t)); c.ob("columns as given", o.cscMat.row(o.cscMat.vc_get(mk(j)))(i) == A_(j, i)) if isinstance(o.cscMat, Rel) else c.ob("columns as given", False)
        c.ob("rank zero before the elimination", lift(o.matrixRank) == 0)
        for n in ("rows", "swapRows", "pivotCols", "lower", "upper", "eliminationRows"): v = getattr(o, n, None); c.ob(f"{n} starts empty", v is not None and E.entails(lift(loops.b_len(v) if not isinstance(v, Rel) else v.n) == 0))
    c.run(go, post, frame=False)
# ------------------------------------------------------------------ membership in the row space
class Plu:
    """contract of the decomposition: its rank is the rank of the columns it was given"""
    def __init__(self, c, log, nr, nc, cols):
        self.c, self.nr, self.nc = c, lift(nr), lift(nc); self.cols = PList(list(cols.segs)); self.rank = fresh("rank"); log.append(self)
        n = lift(loops.b_len(self.cols)); c.ob("the decomposition gets one list per column", n == self.nc)
        j = fresh("j"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(j >= 0, j < n)); col = self.cols[V(j)]; ln = lift(loops.b_len(col)); k = fresh("k"); E.assume(z3.And(k >= 0, k < ln)); v = lift(col[V(k)])
            c.ob("listed rows are rows of the matrix", z3.And(v >= 0, v < self.nr)); E.assume(k + 1 < ln); c.ob("no row is listed twice", v < lift(col[V(k + 1)]))
        finally: E.ctxs.pop()
        E.assume(z3.And(self.rank >= 0, self.rank <= self.nr, self.rank <= self.nc))
    def has(self, i, j): return to_bool(lift(loops.contains(self.cols[V(j)], V(i))))
    def getMatrixRank(self): return mk(self.rank)
def bmat(n, r, c_): return sym_array(n, (r, c_), kind="b", binary=True)
def bvec(n, k): return sym_array(n, (k,), kind="b", binary=True)
def ub(c, why):
    def f(e):
        if isinstance(e, cxx.UB): c.ob("no undefined behaviour (" + str(e) + ")", False); return
        c.ob("an exception is thrown only for input that does not fit (" + type(e).__name__ + ")", why)
    return f
UT = {("Utils", n) for n in ("isVectorInRowspace", "getTranspose", "assertMatrixPresent", "assertVectorPresent", "toCsc")}
@contract("C02", "src/Utils.cpp:Utils.isVectorInRowspace")
def rowspace(c):
    env, rt, dig = cxx.load("src/Utils.cpp", ["Utils::"], "Utils", only=UT); c.cx = rt; log = []
    rt.env["PluDecomposition"] = cxx.Ctor(Plu, lambda *a: Plu(c, log, *a), None, None)
    m, n, l = Nat("m"), Nat("n"), Nat("l"); H, v = bmat("H", m, n), bvec("v", l); fits = z3.And(m.t > 0, n.t > 0, l.t == n.t)
    def go(): log.clear(); return env["Utils"].isVectorInRowspace(H, v)
    def post(r):
        c.ob("an empty matrix or a vector of the wrong length is not accepted", fits); got = to_bool(lift(r)); q = fresh("q")
        if not log: c.ob("without a comparison of ranks only the zero vector is accepted", z3.And(got, z3.Implies(z3.And(q >= 0, q < n.t), z3.Not(v.at(q))))); return
        c.ob("two matrices are decomposed", len(log) == 2)
        a, b = sorted(log, key=lambda p: not E.entails(p.nc == m.t)) if len(log) == 2 else (None, None)
        c.ob("the matrix: one column per check, one row per entry of a check", z3.And(a.nr == n.t, a.nc == m.t)); c.ob("the extended matrix has one more column", z3.And(b.nr == n.t, b.nc == m.t + 1))
        i, j = fresh("i"), fresh("j"); E.assume(z3.And(i >= 0, i < n.t, j >= 0, j < m.t))
        c.ob("columns of the matrix are the checks", a.has(i, j) == H.at(j, i)); c.ob("columns of the extended matrix: the checks", b.has(i, j) == H.at(j, i)); c.ob("last column of the extended matrix: the vector", b.has(i, m.t) == v.at(i))
        E.assume(z3.And(b.rank >= a.rank, b.rank <= a.rank + 1)); c.ob("the vector is reported exactly if appending it keeps the rank", got == (a.rank == b.rank))
    c.run(go, post, raises=ub(c, z3.Not(fits)))
def In(): return fresh("in_row_space", B)
class Rows:
    """contract of Utils::isVectorInRowspace"""
    def __init__(self, c, rt): self.c, self.rt, self.log = c, rt, []
    def __call__(self, M, v):
        m, n, l = lift(M._shape[0]), lift(M._shape[1]), lift(loops.b_len(v) if not isinstance(v, SArr) else v._shape[0])
        if not bool(mk(z3.And(m > 0, n > 0, l == n))): raise self.rt.exc("QeccException", "row space")
        for M2, v2, b2 in self.log:
            if M2 is M and v2 is v: return mk(b2)
        b = In(); self.log.append((M, v, b)); k = E.choose(2)
        if k: E.assume(b)
        else: E.assume(z3.Not(b)); q = fresh("nonzero"); E.assume(z3.And(q >= 0, q < l)); E.assume(to_bool(lift(v[mk(q)])))      # the zero vector lies in every row space
        return bool(k)
def stab(name, method, two, kind):
    @contract("C02", f"include/Code.hpp:Code.{method}", name)
    def f(c):
        env, rt, dig = cxx.load("src/Utils.cpp", ["Utils::"], "Utils", extra=[("include/Code.hpp", "Code"), ("include/Code.hpp", "ParityCheckMatrix")], only={"ParityCheckMatrix", "Code", ("Utils", "assertMatrixPresent"), ("Utils", "assertVectorPresent")}); c.cx = rt
        R = Rows(c, rt); env["Utils"].cls.isVectorInRowspace = staticmethod(R)
        m, n, p, l, q = Nat("m", 1), Nat("n", 1), Nat("p", 1), Nat("l"), Nat("q"); HZ, HX = bmat("HZ", m, n), bmat("HX", p, n); e, z = bvec("e", l), bvec("z", q)
        args = (e, z) if kind == "pair" else (e,)
        def go(): R.log.clear(); C = env["Code"](HX, HZ) if two else env["Code"](HZ); go.C = C; return getattr(C, method)(*args)
        sizes = z3.And(l.t == n.t, q.t == n.t) if kind == "pair" else z3.Or(l.t == n.t, l.t == 2 * n.t) if method == "isStabilizer" else l.t == n.t
        def part(v, lo, i): return z3.And(to_bool(lift(v[V(i)])) == e.at(i + lo))
        def post(r):
            c.ob("vectors of the wrong length are not accepted", sizes); got = to_bool(lift(r)); i = fresh("i"); E.assume(z3.And(i >= 0, i < n.t))
            if not two: c.ob("without X checks only the zero vector is accepted", z3.And(got, z3.Implies(i < l.t, z3.Not(e.at(i))), z3.Implies(n.t + i < l.t, z3.Not(e.at(n.t + i))))); return
            X, Z = go.C.hX.pcm, go.C.hZ.pcm; both = kind == "pair" or E.entails(l.t == 2 * n.t)
            if not R.log: c.ob("without a row-space test only the zero vector is accepted", z3.And(got, z3.Implies(i < l.t, z3.Not(e.at(i))), z3.Implies(n.t + i < l.t, z3.Not(e.at(n.t + i))))); return
            for M, v, b in R.log:
                k = fresh("k"); E.assume(z3.And(k >= 0, k < n.t))
                if M is X: c.ob("the X part is tested against the X checks", to_bool(lift(v[V(k)])) == e.at(k))
                elif M is Z and both: c.ob("the Z part is tested against the Z checks", to_bool(lift(v[V(k)])) == (z.at(k) if kind == "pair" else e.at(n.t + k)))
                else: c.ob("only the code's check matrices are used", False)
            bx, bz = [b for M, v, b in R.log if M is X], [b for M, v, b in R.log if M is Z]
            if both: c.ob("accepted exactly if both parts are sums of checks", z3.And(got == z3.And(*(b for _, _, b in R.log)), z3.Implies(got, z3.BoolVal(bool(bx) and bool(bz)))))
            else: c.ob("accepted exactly if it is a sum of X checks", z3.And(z3.BoolVal(bool(bx)), got == z3.And(bx)))
        c.run(go, post, raises=ub(c, z3.Not(sizes) if two else z3.BoolVal(True)))
stab("x_stabilizer", "isXStabilizer", True, "one"); stab("x_stabilizer_one_sided", "isXStabilizer", False, "one")
stab("stabilizer", "isStabilizer", True, "one"); stab("stabilizer_one_sided", "isStabilizer", False, "one"); stab("stabilizer_pair", "isStabilizer", True, "pair")
