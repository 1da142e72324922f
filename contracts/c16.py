from contracts.lib import *
from contracts.c14 import SP, G, gt, GArr, Z3S, NestLoops, setup14, Sol, Mdl, C_CUR, inst, CNT, quant
from contracts.c15 import Filt, IdxSet
NOTES = dict(
    trusted=["z3.Solver: a model satisfies the constraints; variables without a value are read as false", "numpy.where/any on vectors", "sets, frozensets, max and min with a key: a member that is at least (most) as good as every other"],
    assumptions=["every error that is no stabilizer anticommutes with one of the opposite checks (they generate the full stabilizer group of the prepared state, C08/C15)", "entries of errors and checks are 0 or 1"],
    outside=["minimality of the number of measurements and CNOTs", "an odd overlap other than one is not used by the optimal search (it is sound, not complete)"],
    explanation="the constraints handed to z3 are proved to imply that every error of the set has odd overlap with one of the measurements that are read off the model, and these to be sums of the generators; the searches around it may only keep results of that function for the same set of errors; the covering heuristic is proved with sets known by membership: a measurement is always filed under exactly the set of errors it detects.")
def summod(s):
    """the parity of an integer sum is its value modulo two"""
    E.assume(odd(s) == (s % 2 == 1))
def sums_in(t, out=None):
    out = [] if out is None else out
    if z3.is_app(t):
        if t.decl().name() == "SUM" and not any(t.eq(x) for x in out): out.append(t)
        for a in t.children(): sums_in(a, out)
    return out
@contract("C16", SP + ":_odd_overlap", "holds only if the overlap is odd")
def overlap(c):
    n = Nat("n"); md, z = setup14(c, n); X = z3.Function("Xv", I, B); v = GArr((n,), lambda i: X(i)); e = binvec("e", n); E0 = e.snapshot(); NestLoops(c)
    def post(r):
        if not c.ob("a formula", isinstance(r, G)): return
        for s in sums_in(r.t): summod(s)
        E.assume(r.t); c.ob("odd overlap", par(0, n.t, lambda i: z3.And(X(i), lift(E0.at(i)) == 1)))
    c.run(lambda: c.fn()(v, e), post)
class Auto(NestLoops):
    """nested comprehensions as segments, other loops summarised automatically"""
    def get(self, lid, d=None): return (lambda *a: self.comprule(lid, *a)) if lid.endswith("comp") else None
def arg_of(t, f):
    """first argument of an occurrence of f in t"""
    if z3.is_app(t):
        if t.decl().eq(f): return t.arg(0)
        for a in t.children():
            r = arg_of(a, f)
            if r is not None: return r
    elif z3.is_quantifier(t): return arg_of(t.body(), f)
    return None
def skolem(f):
    """a witness for every existential formula"""
    ws = []
    while z3.is_quantifier(f) and f.is_exists():
        w = fresh("w", f.var_sort(0)); ws.append(w); f = z3.substitute_vars(f.body(), w)
    return ws, f
for xe in (True, False):
    def mkv(xe):
        @contract("C16", SP + ":verification_stabilizers", f"sums of the generators; every {'X' if xe else 'Z'} error overlaps one of them oddly")
        def f(c):
            n, m, na, nf, nc = Nat("n", 1), Nat("m", 1), Nat("na", 1), Nat("nf"), Int("nc"); md, z = setup14(c, n); gens, other = binmat("gens", m, n), binmat("other", Nat("m2", 1), n); F = z3.Function("FE", I, I, B); err = SArr((nf, n), lambda i, q: b01(F(i, q)), "i"); err._vc_born = born(); G0 = gens.snapshot()
            o = c.obj(SP, "StatePrepCircuit", num_qubits=n, z_checks=gens if xe else other, x_checks=other if xe else gens); vs = []
            class ZV(type(z)):
                def PbGe(s, xs, r):
                    if not E.entails(lift(r) == 1): raise Unsupported("bound other than one")
                    segs, ent, on = s.pb(xs); out = []
                    for sg in segs:
                        if sg[0] == "c": out.append(ent(sg, None)); continue
                        k = fresh("bq"); out.append(z3.Exists([k], z3.And(on(sg, k), ent(sg, k))))
                    return G(z3.Or(*out) if len(out) != 1 else out[0]) if out else G(z3.BoolVal(False))
                def PbLe(s, xs, r): return G(z3.Bool("FEW"))
            md.z3 = z = ZV()
            def v2s(meas, g):
                p = seqs.as_plist(meas); gs = g.snapshot(); vs.append(p)
                c.ob("one variable per generator", z3.And(lift(p.vc_len()) == m.t, lift(gs._shape[0]) == m.t, lift(gs._shape[1]) == n.t)); a, b = fresh("a"), fresh("b"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(a >= 0, a < m.t, b >= 0, b < n.t)); c.ob("the generators", lift(gs.at(a, b)) == lift(G0.at(a, b))); E.ctxs.pop()
                return GArr((n,), lambda q: par(0, m.t, lambda i: z3.And(gt(p.get(V(i))), lift(gs.at(i, q)) == 1)))
            md._vars_to_stab = v2s; EXTRA = z3.Function("STRONGER", I, I, B)
            def ov(meas, e):
                e = e.snapshot(); q = fresh("q"); a = next((arg_of(simp(meas.fn(q)), f) for f in z.vars.values() if arg_of(simp(meas.fn(q)), f) is not None), None); b = arg_of(simp(lift(e.at(q))), F)
                if not c.ob("a measurement and an error", a is not None and b is not None): raise PathEnd()
                return G(z3.And(par(0, n.t, lambda q: z3.And(meas.fn(q), lift(e.at(q)) == 1)), EXTRA(a, b)))
            md._odd_overlap = ov; Auto(c)
            def post(r):
                if r is None: return
                p = seqs.as_plist(r); A_, e0, q, i = (fresh(x) for x in ("anc", "e", "q", "i")); E.assume(z3.And(e0 >= 0, e0 < nf.t, q >= 0, q < n.t))
                if not c.ob("one solver", len(z.sols) == 1): return
                s = z.sols[0]
                vf = list(z.vars.values())
                if not c.ob("one family of variables", len(vf) == 1 and vf[0].arity() == 2): return
                ME = lambda a, g: vf[0](a, g)
                ws = []
                for f in inst(s.fs, [(nf.t, [e0])]):
                    g = f
                    while z3.is_implies(g) and E.entails(g.arg(0)): g = g.arg(1)
                    w, b = skolem(g); ws += w; E.assume(b)
                ln = lift(p.vc_len())
                def vec(a): return p.get(V(a))
                E.ctxs.append(core.Ctx([])); E.assume(z3.And(A_ >= 0, A_ < ln)); v = vec(A_)
                if c.ob("vectors of all qubits", isinstance(v, SArr) and v.ndim == 1): same_term(c, "a sum of generators", lift(v.at(q)), b01(par(0, m.t, lambda g: z3.And(ME(A_, g), lift(G0.at(g, q)) == 1))))
                E.ctxs.pop()
                hit = False
                for w in ws:
                    if not E.entails(z3.And(w >= 0, w < ln)): continue
                    v = vec(w)
                    P1 = par(0, n.t, lambda q: z3.And(lift(v.at(q)) == 1, F(e0, q))); P2 = par(0, n.t, lambda q: z3.And(par(0, m.t, lambda g: z3.And(ME(w, g), lift(G0.at(g, q)) == 1)), F(e0, q)))
                    if not P1.eq(P2) and same_term(c, "overlap of the measurement that is returned", P1, P2): E.assume(P1 == P2)
                    if E.entails(P2): hit = True
                c.ob("every error of the set overlaps one of the measurements oddly", hit)
            c.run(lambda: (vs.clear(), z.sols.clear(), z.vars.clear(), c.fn()(o, err, na, nc, x_errors=xe))[3], post)
    mkv(xe)
# ------------------------------------------------------------------ hook errors
@contract("C16", SP + ":_hook_errors", "what a fault on the ancilla leaves behind: the part of the measurement after each gate")
def hooks(c):
    ns, n = Nat("ns"), Nat("n", 1); md = c.mod(SP); S = z3.Function("ST", I, I, B); stabs = PList([("s", ns, lambda k: row(k))]); st = {}
    def row(k):
        k = lift(k); r = SArr((n,), lambda q: b01(S(k, q)), "i"); r._vc_born = born(); r._measurement = True; return r
    class Rec(PList):
        def _vc_save(s): return (list(s.segs), list(getattr(s, "w", [])))
        def _vc_load(s, v):
            if isinstance(v, tuple): s.segs, s.w = list(v[0]), list(v[1])
            else: s.__class__ = PList; s.segs = list(v)
        def append(s, x): E.touch(s); s.w = s.w + [x.snapshot() if isinstance(x, SArr) else x]
    class NX:
        def __getattr__(s, a): return getattr(np, a)
        def array(s, x, *a, **k): return x if isinstance(x, Rec) else np.array(x, *a, **k)
        def zeros_like(s, v, **k): return np.zeros(n, **k)
    md.np = NX()
    def lists(h, vals):
        out = []
        for x in list(vals.values()) + list(h.free.values()):
            if isinstance(x, PList) and x is not stabs and not any(x is y for y in out): out.append(x)
        return out
    def init(vals, cnt):
        ls = lists(h, vals)
        if not c.ob("one list of errors, empty at first", len(ls) == 1 and not ls[0].segs): raise PathEnd()
        c.ob("all measurements", cnt == ns.t); st["l"] = ls[0]
    def havoc(vals, k): l = st["l"]; E.touch(l); l.__class__ = Rec; l.segs, l.w = [], []; st["k"] = k; st["in"] = 0; return {}
    def step(old, new, k, how): c.ob("the loop goes on", how == "next"); c.ob("one pass over the qubits", st["in"] == 1 and not st["l"].w)
    def vecs(vals):
        out = []
        for v in list(vals.values()) + list(h2.free.values()):
            if isinstance(v, SArr) and v.ndim == 1 and not getattr(v, "_measurement", False) and not any(v is w for w in out): out.append(v)
        return out
    def iinit(vals, cnt):
        st["in"] += 1; c.ob("all qubits", cnt == n.t); vs = vecs(vals); q = fresh("q"); k = st["k"]
        if not c.ob("at most one working copy", len(vs) <= 1): raise PathEnd()
        st["mut"] = vs[0] if vs else None
        if vs: E.ctxs.append(core.Ctx([])); E.assume(z3.And(q >= 0, q < n.t)); c.ob("the working copy is the measurement", z3.And(lift(vs[0]._shape[0]) == n.t, lift(vs[0].at(q)) == b01(S(k, q)))); E.ctxs.pop()
    def ihavoc(vals, i):
        l = st["l"]; E.touch(l); l.w = []; st["i"] = i; k = st["k"]
        if st["mut"] is not None: st["mut"].update(lambda idx, old: b01(z3.And(idx[0] >= i, S(k, idx[0]))))
        return {}
    def istep(old, new, i, how):
        c.ob("inner loop goes on", how == "next"); w, k = st["l"].w, st["k"]; q = fresh("q")
        if E.entails(S(k, i)):
            if c.ob("one error per gate", len(w) == 1 and isinstance(w[0], SArr)):
                E.ctxs.append(core.Ctx([])); E.assume(z3.And(q >= 0, q < n.t)); c.ob("the qubits of the later gates", z3.And(lift(w[0]._shape[0]) == n.t, lift(w[0].at(q)) == b01(z3.And(q > i, S(k, q))))); E.ctxs.pop()
        else: c.ob("no error without a gate", z3.And(z3.Not(S(k, i)), z3.BoolVal(len(w) == 0)))
        m = st["mut"]
        if m is not None:
            E.ctxs.append(core.Ctx([])); E.assume(z3.And(q >= 0, q < n.t)); c.ob("the rest for the next gate", lift(m.at(q)) == b01(z3.And(q >= i + 1, S(k, q)))); E.ctxs.pop()
    h2 = LoopHook(c, "_hook_errors", iinit, ihavoc, istep)
    h = LoopHook(c, "_hook_errors", init, havoc, step, inner=h2)
    def post(r): c.ob("the errors found", r is st.get("l"))
    c.run(lambda: (st.clear(), c.fn()(stabs))[1], post)
# ------------------------------------------------------------------ sets of errors and sets of such sets
FSS = z3.DeclareSort("ErrorSet"); MEM = z3.Function("MEM", FSS, I, B); XORS = z3.Function("SYMDIFF", FSS, FSS, FSS)
MS = z3.DeclareSort("Measurement"); COV = z3.Function("COV", MS, FSS); SPAN = z3.Function("SPAN", MS, B); MADD = z3.Function("MADD", MS, MS, MS); LEADM = z3.Function("LEADM", MS, MS); WGT = z3.Function("WGT", MS, I)
class IS(IdxSet):
    """set of errors (indices); wits: witnesses used when its emptiness was asked"""
    def __init__(self, mem): super().__init__(mem)
    def nonempty(self):
        x = z3.Int(f"sx{next(CNT)}"); w = fresh("sw"); b = fresh("ne", B); mem = self.mem; E.assume(z3.Implies(b, mem(w))); E.assume(z3.Implies(z3.Not(b), z3.ForAll([x], z3.Not(mem(x)))))
        for t in PTS: E.assume(z3.Implies(z3.Not(b), z3.Not(mem(t))))
        PTS.append(w); return b
    def __bool__(self): return bool(mk(self.nonempty()))
    def __vc_len__(self): b = self.nonempty(); n = Nat("card"); E.assume((n.t >= 1) == b); return n
    @staticmethod
    def of(o): return IS(o.mem) if isinstance(o, IdxSet) else IS(lambda x: MEM(o.t, x)) if isinstance(o, FSet) else (_ for _ in ()).throw(Unsupported("set operation"))
    def __and__(self, o): a, b = self.mem, IS.of(o).mem; return IS(lambda x: z3.And(a(x), b(x)))
    __rand__ = intersection = __and__
    def __sub__(self, o): a, b = self.mem, IS.of(o).mem; return IS(lambda x: z3.And(a(x), z3.Not(b(x))))
    difference = __sub__
    def difference_update(self, o): r = self - o; E.touch(self); self.mem = r.mem
    def __isub__(self, o): self.difference_update(o); return self
    def copy(self): return IS(self.mem)
PTS = []
class FSet:
    """frozenset of errors"""
    __hash__ = None
    def __init__(self, t): self.t = t
    def vc_subst(self, pairs): return FSet(z3.substitute(self.t, *pairs))
    def __eq__(self, o): return mk(self.t == o.t)
    def __ne__(self, o): return mk(self.t != o.t)
    def __xor__(self, o):
        r = XORS(self.t, o.t); x = z3.Int("mx"); E.assume(z3.ForAll([x], MEM(r, x) == z3.Xor(MEM(self.t, x), MEM(o.t, x)), patterns=[MEM(r, x)])); return FSet(r)
    symmetric_difference = __xor__
    def __and__(self, o): return IS.of(self) & o
    __rand__ = intersection = __and__
    def isdisjoint(self, o): return mk(z3.Not((self & o).nonempty()))
    def __vc_len__(self): return IS.of(self).__vc_len__()
class GS:
    """set of sets of errors, known by membership"""
    __hash__ = None
    def __init__(self, mem=None): self.mem = mem or (lambda t: z3.BoolVal(False)); self._vc_born = born()
    def _vc_save(self): return self.mem
    def _vc_load(self, s): self.mem = s
    def vc_subst(self, pairs): return self
    def __contains__(self, f): return bool(mk(self.mem(f.t)))
    def add(self, f):
        if not isinstance(f, FSet): raise Unsupported("member of a set of sets")
        E.touch(self); old, t = self.mem, f.t; self.mem = lambda x: z3.Or(x == t, old(x))
    def discard(self, f): E.touch(self); old, t = self.mem, f.t; self.mem = lambda x: z3.And(x != t, old(x))
    remove = discard
    def copy(self): return GS(self.mem)
    def union(self, *os):
        ms = [self.mem] + [o.mem for o in os]; return GS(lambda t: z3.Or(*[m(t) for m in ms]))
    def __or__(self, o): return self.union(o)
    def update(self, o): E.touch(self); r = self.union(o); self.mem = r.mem
    def __ior__(self, o): self.update(o); return self
    def __sub__(self, o): a, b = self.mem, o.mem; return GS(lambda t: z3.And(a(t), z3.Not(b(t))))
    difference = __sub__
    def __eq__(self, o): return mk(fresh("seteq", B))
    def __ne__(self, o): return mk(fresh("setne", B))
    def __vc_len__(self): return Nat("nsets")
    def vc_seq(self):
        """the members in some order; IX is the position of a member"""
        u = next(CNT); EL, IX = z3.Function(f"EL{u}", I, FSS), z3.Function(f"IX{u}", FSS, I); n = Nat("nsets"); k, t = z3.Int("ek"), z3.Const("et", FSS); mem = self.mem
        E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), mem(EL(k))), patterns=[EL(k)])); E.assume(z3.ForAll([t], z3.Implies(mem(t), z3.And(IX(t) >= 0, IX(t) < n.t, EL(IX(t)) == t)), patterns=[IX(t)]))
        s = Seq(n, lambda i: FSet(EL(lift(i)))); self.order = s.order = (n, EL, IX); ORDERS.append((self, n, EL, IX)); return s
ORDERS = []
class Mv:
    """a measurement: the set of errors it detects (COV) and whether it is a sum of the allowed checks (SPAN)"""
    def __init__(self, t): self.t = t
    def vc_subst(self, pairs): return Mv(z3.substitute(self.t, *pairs))
    def __add__(self, o): return Sum2(self, o)
    def __xor__(self, o): return Sum2(self, o) % 2
class Sum2:
    def __init__(self, a, b): self.a, self.b = a, b
    def __mod__(self, m):
        if not (isinstance(m, int) and m == 2): raise Unsupported("modulus")
        a, b = self.a.t, self.b.t; r = MADD(a, b); return Mv(r)
def mvlaws():
    a, b = z3.Const("ma", MS), z3.Const("mb", MS)
    E.assume(z3.ForAll([a, b], z3.And(COV(MADD(a, b)) == XORS(COV(a), COV(b)), z3.Implies(z3.And(SPAN(a), SPAN(b)), SPAN(MADD(a, b)))), patterns=[MADD(a, b)]))
    E.assume(z3.ForAll([a], z3.And(COV(LEADM(a)) == COV(a), z3.Implies(SPAN(a), SPAN(LEADM(a)))), patterns=[LEADM(a)]))
class MapG:
    """dictionary from sets of errors to lists of measurements that detect exactly these errors; ne: keys with a non-empty list"""
    def __init__(self, c, ne=None): self.c = c; self.ne = ne or (lambda t: z3.BoolVal(False)); self._vc_born = born(); self.ELM = z3.Function(f"ELM{next(CNT)}", FSS, I, MS); self.CN = z3.Function(f"CN{next(CNT)}", FSS, I)
    def _vc_save(self): return (self.ne, self.ELM, self.CN)
    def _vc_load(self, s): self.ne, self.ELM, self.CN = s
    def havoc(self, ne):
        E.touch(self); self.ne = ne; u = next(CNT); self.ELM, self.CN = z3.Function(f"ELM{u}", FSS, I, MS), z3.Function(f"CN{u}", FSS, I); self.laws()
    def laws(self):
        t, i = z3.Const("mt", FSS), z3.Int("li"); CN, ELM, ne = self.CN, self.ELM, self.ne
        E.assume(z3.ForAll([t], z3.And(CN(t) >= 0, (CN(t) >= 1) == ne(t)), patterns=[CN(t)])); E.assume(z3.ForAll([t, i], z3.Implies(z3.And(i >= 0, i < CN(t)), z3.And(COV(ELM(t, i)) == t, SPAN(ELM(t, i)))), patterns=[ELM(t, i)]))
    def __getitem__(self, f):
        if not isinstance(f, FSet): raise Unsupported("key")
        return ListG(self, f.t)
    def __contains__(self, f): return bool(mk(self.ne(f.t)))
class ListG:
    def __init__(self, m, t):
        self.m, self.key = m, t; self.CN, self.ELM = m.CN, m.ELM
    def __vc_len__(self): return mk(self.CN(self.key))
    def vc_seq(self): t, ELM = self.key, self.ELM; return Seq(mk(self.CN(t)), lambda i: Mv(ELM(t, lift(i))))
    def vc_list(self): s = self.vc_seq(); return PList([("s", s.n, s.item)])
    def __getitem__(self, i):
        self.m.c.ob("index within the list of measurements", z3.And(lift(i) >= 0, lift(i) < self.CN(self.key))); return Mv(self.ELM(self.key, lift(i)))
    def put(self, x):
        c = self.m.c
        if isinstance(x, SArr): x = self.m.conv(x)
        if not c.ob("a measurement is filed", isinstance(x, Mv)): raise PathEnd()
        c.ob("filed under the errors it detects", COV(x.t) == self.key); c.ob("a sum of the allowed checks", SPAN(x.t))
    def mark(self, g):
        m = self.m; old, t = m.ne, self.key; m.havoc(lambda q: z3.Or(z3.And(q == t, g), old(q)))
    def append(self, x): self.put(x); self.mark(z3.BoolVal(True))
    def extend(self, xs):
        p = seqs.as_plist(xs); some = []
        def go(segs, g):
            for s in segs:
                if s[0] == "c": self.put(s[1]); some.append(z3.And(*g) if g else z3.BoolVal(True)); continue
                k = fresh("xk"); E.ctxs.append(core.Ctx([]))
                try:
                    if s[0] == "n":
                        E.assume(z3.And(s[2] >= 0, s[2] < lift(s[1]))); go(s[3], g + [lift(s[1]) > 0]); continue
                    E.assume(z3.And(k >= 0, k < lift(s[1])))
                    if s[0] == "f": E.assume(to_bool(lift(s[2](V(k))))); self.put(s[3](V(k)))
                    else: self.put(s[2](V(k))); some.append(z3.And(*g, lift(s[1]) > 0))
                finally: E.ctxs.pop()
        go(p.segs, []); self.mark(z3.Or(*some) if some else z3.BoolVal(False))
    def __iadd__(self, xs): self.extend(xs); return self
def pick(c, xs, key=None, best=None):
    """max/min with a key: some member (its key is at least/most that of the members in question)"""
    if isinstance(xs, ListG) or isinstance(xs, PList):
        p = xs.vc_list() if isinstance(xs, ListG) else xs; i = fresh("pi"); n = lift(p.vc_len()); c.ob("not empty", n >= 1); E.assume(z3.And(i >= 0, i < n)); return p.get(V(i))
    raise Unsupported("max/min")
def sums(c, xs): return V(fresh("total"))
@contract("C16", SP + ":_covers")
def covers(c):
    nf, n = Nat("nf"), Nat("n", 1); md = c.mod(SP); s = binvec("s", n); F = binmat("F", nf, n); fl = Filt(c); fl.wh = []; md.np = fl; S0, F0 = s.snapshot(), F.snapshot()
    def frz(x):
        if not isinstance(x, SArr) or not hasattr(x, "back"): raise Unsupported("frozenset")
        return ("frozen", x)
    md.frozenset = frz
    def post(r):
        if not c.ob("a set of errors", isinstance(r, tuple) and r[0] == "frozen"): return
        x = r[1]; k, e = fresh("k"), fresh("e"); det = lambda e: par(0, n.t, lambda q: z3.And(lift(S0.at(q)) == 1, lift(F0.at(e, q)) == 1))
        E.ctxs.append(core.Ctx([])); E.assume(z3.And(k >= 0, k < lift(x._shape[0]))); v = lift(x.at(k)); c.ob("only errors that are detected", z3.And(v >= 0, v < nf.t, det(v))); E.ctxs.pop()
        E.assume(z3.And(e >= 0, e < nf.t, det(e))); j = x.back(e); c.ob("all errors that are detected", z3.And(j >= 0, j < lift(x._shape[0]), lift(x.at(j)) == e))
    c.run(lambda: c.fn()(s, F), post)
@contract("C16", SP + ":_covers", "detection is linear; sums with a check that detects nothing detect the same (lemma)")
def linear(c):
    n = Nat("n"); a, b, f = (z3.Function(x, I, B) for x in ("av", "bv", "fv")); det = lambda v: par(0, n.t, lambda q: z3.And(v(q), f(q)))
    k0 = fresh("k"); c.ob("entry by entry", z3.And(z3.Xor(a(k0), b(k0)), f(k0)) == z3.Xor(z3.And(a(k0), f(k0)), z3.And(b(k0), f(k0))))
    k = z3.Int("lk"); c.ob("linear", core._par(z3.IntVal(0), n.t, k, xor(z3.And(a(k), f(k)), z3.And(b(k), f(k)))) == xor(det(a), det(b)))
    c.run(lambda: None, lambda r: None)
def setup16(c):
    md = c.mod(SP); C_CUR[0] = c; PTS.clear(); ORDERS.clear(); mvlaws()
    class NX:
        def __getattr__(s, a): return getattr(np, a)
        def sum(s, x, *a, **k): return V(fresh("weight")) if isinstance(x, (ListG, Mv)) else np.sum(x, *a, **k)
    md.np = NX(); md.sum = lambda x: sums(c, x); return md
@contract("C16", SP + ":_set_cover")
def setcover(c):
    n = Nat("n"); md = setup16(c); C0 = z3.Function("CANDS", FSS, B); WC = z3.Function("WC", I, FSS); x0 = z3.Int("x0")
    E.assume(z3.ForAll([x0], z3.Implies(z3.And(x0 >= 0, x0 < n.t), z3.And(C0(WC(x0)), MEM(WC(x0), x0))), patterns=[WC(x0)])); cands = GS(lambda t: C0(t)); mapping = MapG(c, lambda t: C0(t)); mapping.laws(); st = {}
    def mkset(x=None):
        if x is None: return GS()
        if isinstance(x, (IdxSet, GS)): return x.copy()
        m = getattr(x, "n", None)
        if m is None or not E.entails(lift(m) == n.t): raise Unsupported("set")
        return IS(lambda q: z3.And(q >= 0, q < n.t))
    md.set = mkset
    def lex(a, b):
        a, b = ([lift(y) for y in (v if isinstance(v, tuple) else (v,))] for v in (a, b)); r = z3.BoolVal(True)
        for p, q in reversed(list(zip(a, b))): r = z3.Or(p > q, z3.And(p == q, r))
        return r
    def mx(xs, key=None):
        if xs is not cands and not isinstance(xs, GS): raise Unsupported("max")
        b = fresh("best", FSS); E.assume(xs.mem(b)); kb = key(FSet(b)) if key else V(fresh("kb"))
        c.ob("some set to choose from", z3.Or(*[xs.mem(WC(p)) for p in PTS if True]) if PTS else z3.BoolVal(False))
        for p in list(PTS):
            w = WC(p); E.ctxs[-1]; kw = key(FSet(w)) if key else V(fresh("kw")); E.assume(z3.Implies(xs.mem(w), lex(kb, kw)))
        return FSet(b)
    md.max = mx
    def two(vals, h):
        vs = list({**h.free, **vals}.values()); u = [v for v in vs if isinstance(v, IdxSet)]; k = [v for v in vs if isinstance(v, GS) and v is not cands]
        if not c.ob("the errors left and the sets chosen", len({id(v) for v in u}) == 1 and len({id(v) for v in k}) == 1): raise PathEnd()
        return u[0], k[0]
    def inv(u, k, CW, x, t):
        return z3.And(z3.Implies(z3.And(x >= 0, x < n.t), z3.Or(u(x), z3.And(k(CW(x)), MEM(CW(x), x)))), z3.Implies(u(x), z3.And(x >= 0, x < n.t)), z3.Implies(k(t), C0(t)))
    def init(vals):
        u, k = two(vals, h); x, t = fresh("x"), fresh("t", FSS); c.ob("all errors are left", u.mem(x) == z3.And(x >= 0, x < n.t)); c.ob("nothing is chosen", z3.Not(k.mem(t)))
    def havoc(vals):
        u, k = two(vals, h); q = next(CNT); U, K, CW = z3.Function(f"LEFT{q}", I, B), z3.Function(f"CHOSEN{q}", FSS, B), z3.Function(f"BY{q}", I, FSS); E.touch(u); E.touch(k); st.update(U=U, K=K, CW=CW)
        x, t = z3.Int("hx"), z3.Const("ht", FSS); PTS.clear()
        E.assume(z3.ForAll([x], z3.Implies(U(x), z3.And(x >= 0, x < n.t)), patterns=[U(x)])); E.assume(z3.ForAll([t], z3.Implies(K(t), C0(t)), patterns=[K(t)])); E.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n.t), z3.Or(U(x), z3.And(K(CW(x)), MEM(CW(x), x)))), patterns=[CW(x)]))
        out = {}
        for nm, v in vals.items():
            if v is u: out[nm] = IS(lambda x: U(x)); st["uo"] = out[nm]
            if v is k: out[nm] = GS(lambda t: K(t))
        if not any(v is u for v in vals.values()): u.mem = lambda x: U(x)
        if not any(v is k for v in vals.values()): k.mem = lambda t: K(t)
        return out
    def step(old, new):
        u, k = two(new, h); x, t = fresh("x"), fresh("t", FSS); U, K, CW = st["U"], st["K"], st["CW"]; best = [q for q in (BEST(k.mem, t, K))]
        E.ctxs.append(core.Ctx([])); E.assume(z3.And(x >= 0, x < n.t)); E.assume(z3.Implies(U(x), U(x))); lem = z3.Or(U(x), z3.And(K(CW(x)), MEM(CW(x), x))); E.assume(lem)
        c.ob("an error leaves only when a chosen set contains it", z3.Or(u.mem(x), z3.And(k.mem(CW(x)), MEM(CW(x), x)), *[z3.And(k.mem(b), MEM(b, x)) for b in best])); E.ctxs.pop()
        c.ob("only errors not covered before", z3.Implies(u.mem(x), U(x))); c.ob("chosen among the candidates", z3.Implies(k.mem(t), C0(t)))
        c.ob("every pass covers a further error", z3.Or(*[z3.And(U(p), z3.Not(u.mem(p))) for p in PTS]) if PTS else False)
    def BEST(mem, t, K):
        """terms compared with t in the membership condition: the sets just added"""
        out = []
        def go(e):
            if z3.is_app(e):
                if z3.is_eq(e) and e.arg(0).sort() == FSS:
                    for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                        if a.eq(t): out.append(b)
                for a in e.children(): go(a)
        go(mem(t)); return out
    h = WhileHook(c, "_set_cover", init, havoc, step)
    def post(r):
        if not c.ob("a set of sets", isinstance(r, GS)): return
        x, t = fresh("x"), fresh("t", FSS); E.assume(z3.And(x >= 0, x < n.t)); CW = st["CW"]; PTS.append(x); U = st["U"]; E.assume(z3.Or(U(x), z3.And(st["K"](CW(x)), MEM(CW(x), x))))
        c.ob("only candidates", z3.Implies(r.mem(t), C0(t))); c.ob("every error is in a chosen set", z3.And(r.mem(CW(x)), MEM(CW(x), x)))
    c.run(lambda: (PTS.clear(), st.clear(), c.fn()(n, cands, mapping))[2], post)
@contract("C16", SP + ":_extend_covering_sets")
def extend(c):
    md = setup16(c); lim = Nat("lim"); C0 = z3.Function("CANDS", FSS, B); cands = GS(lambda t: C0(t)); st = {}; mapping = MapG(c)
    md.set = lambda x=None: GS() if x is None else x.copy() if isinstance(x, GS) else (_ for _ in ()).throw(Unsupported("set"))
    md.frozenset = lambda x: x if isinstance(x, FSet) else (_ for _ in ()).throw(Unsupported("frozenset"))
    NE0 = z3.Function("NE0", FSS, B); t0 = z3.Const("t0", FSS); E.assume(z3.ForAll([t0], z3.Implies(C0(t0), NE0(t0)), patterns=[C0(t0)])); mapping.havoc(lambda t: NE0(t))
    def sets(vals, h): return list({id(v): v for v in {**h.free, **vals}.values() if isinstance(v, GS) and v is not cands and getattr(v, "_vc_born", 0) < st.get("born", 10 ** 18)}.values())
    def checks(h, name, ss, NE):
        t = fresh("t", FSS); E.assume(z3.Implies(C0(t), NE0(t)))
        c.ob(name + ": lists only grow", z3.Implies(NE(t), mapping.ne(t)))
    def mk_h(inner):
        s2 = {}
        def init(vals, cnt): s2["ss"] = sets(vals, h); s2["base"] = mapping.ne
        def havoc(vals, k):
            u = next(CNT); NE = z3.Function(f"NE{u}", FSS, B); t = z3.Const("t0", FSS); E.assume(z3.ForAll([t], z3.Implies(s2["base"](t), NE(t)), patterns=[NE(t)])); E.assume(z3.ForAll([t], z3.Implies(C0(t), NE(t)), patterns=[C0(t), NE(t)])); mapping.havoc(lambda q: NE(q)); s2["NE"] = NE; s2["S"] = []
            for v in s2["ss"]:
                S_ = z3.Function(f"SET{next(CNT)}", FSS, B); E.touch(v); v.mem = lambda q, S_=S_: S_(q); s2["S"].append((v, S_)); E.assume(z3.ForAll([t], z3.Implies(S_(t), NE(t)), patterns=[S_(t)]))
            return {nm: v for nm, v in vals.items() if any(v is w for w in s2["ss"])}
        def step(old, new, k, how):
            t = fresh("t", FSS); NE = s2["NE"]; E.assume(z3.Implies(C0(t), NE(t)))
            for v, S_ in s2["S"]: E.assume(z3.Implies(S_(t), NE(t))); c.ob("every set that is noted has a measurement that detects exactly its errors", z3.Implies(v.mem(t), mapping.ne(t)))
            c.ob("measurements are only added", z3.Implies(NE(t), mapping.ne(t)))
        h = LoopHook(c, "_extend_covering_sets", init, havoc, step, inner=inner, brk=None if inner is not None else (lambda vals, k: z3.BoolVal(True)))
        return h
    class Nest:
        """comprehensions as nested segments inside the hooked loops"""
    h2 = mk_h(None); h1 = mk_h(h2); nl = NestLoops(c)
    for h in (h1, h2):
        h.get = lambda lid, d=None, h=h: (lambda *a: nl.comprule(lid, *a)) if lid.endswith("comp") else h.rule
    comp_only = type("CompOnly", (), {"get": lambda s, lid, d=None: (lambda *a: nl.comprule(lid, *a)) if lid.endswith("comp") else None})()
    h2.inner = comp_only; E.loops = h1
    def post(r):
        if not c.ob("a set of sets", isinstance(r, GS)): return
        t = fresh("t", FSS); E.assume(z3.Implies(C0(t), NE0(t)))
        for v, S_ in getattr(h1, "_last", []) or []: pass
        for s in HS(h1) + HS(h2):
            for v, S_ in s.get("S", []): E.assume(z3.Implies(S_(t), s["NE"](t)))
            if "NE" in s: E.assume(z3.Implies(s["base"](t), s["NE"](t)))
        c.ob("the candidates stay", z3.Implies(C0(t), r.mem(t))); c.ob("every set has a measurement", z3.Implies(r.mem(t), mapping.ne(t)))
    def HS(h): return [cell.cell_contents for cell in (h.init.__closure__ or ()) if isinstance(cell.cell_contents, dict) and "ss" in cell.cell_contents]
    def thunk():
        for s in HS(h1) + HS(h2): s.clear()
        return c.fn()(cands, lim, mapping)
    c.run(thunk, post, modifies=[mapping])
class Rec(PList):
    """list filled one entry per iteration"""
    def _vc_save(s): return (list(s.segs), list(getattr(s, "w", [])))
    def _vc_load(s, v):
        if isinstance(v, tuple): s.segs, s.w = list(v[0]), list(v[1])
        else: s.__class__ = PList; s.segs = list(v)
    def append(s, x): E.touch(s); s.w = s.w + [x]
def permuted(p):
    """the list after sorting: the same entries in some order"""
    old = PList(list(p.segs)); n = old.vc_len(); u = next(CNT); PM = z3.Function(f"PM{u}", I, I); i = z3.Int("pi"); E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift(n)), z3.And(PM(i) >= 0, PM(i) < lift(n))), patterns=[PM(i)])); return PList([("s", n, lambda i: old.get(V(PM(lift(i)))))])
for lead in (True, False):
    def mkl(lead):
        @contract("C16", SP + ":_heuristic_layer", f"the measurements are sums of checks and every error is detected ({'reduced by checks that detect nothing' if lead else 'not reduced'})")
        def f(c):
            M, nf, n, lim = Nat("M"), Nat("nf", 1), Nat("n", 1), Nat("lim"); md = setup16(c); CH, FF = z3.Function("CH", I, I, B), z3.Function("FF", I, I, B); st = {}; mapping = []
            ck, fa = SArr((M, n), lambda i, q: b01(CH(i, q)), "i"), SArr((nf, n), lambda i, q: b01(FF(i, q)), "i"); ck._vc_born = fa._vc_born = born()
            det = lambda i, e: par(0, n.t, lambda q: z3.And(CH(i, q), FF(e, q))); D = z3.Function("DETECTOR", I, I); CVI = z3.Function("CVI", I, FSS); MVI = z3.Function("MVI", I, MS); x0, i0 = z3.Ints("x0 i0"); DET = z3.Function("DET", I, I, B)
            # CVI(i): the errors that check i detects; MVI(i): check i as a measurement
            E.assume(z3.ForAll([i0, x0], MEM(CVI(i0), x0) == z3.And(x0 >= 0, x0 < nf.t, DET(i0, x0)), patterns=[MEM(CVI(i0), x0)]))
            E.assume(z3.ForAll([i0], z3.And(COV(MVI(i0)) == CVI(i0), SPAN(MVI(i0))), patterns=[MVI(i0)]))
            E.assume(z3.ForAll([x0], z3.Implies(z3.And(x0 >= 0, x0 < nf.t), z3.And(D(x0) >= 0, D(x0) < M.t, DET(D(x0), x0))), patterns=[D(x0)]))
            fl = Filt(c); fl.wh = []; base = md.np
            class NX:
                def __getattr__(s, a): return getattr(base, a)
                def where(s, cond, *r): 
                    w = fl.where(cond, *r); st.setdefault("wh", []).append((cond.snapshot(), w[0])); return w
                def flatnonzero(s, cond): return s.where(cond)[0]
                def any(s, x, *a, **k): return quantified(x, False, *a, **k)
                def all(s, x, *a, **k): return quantified(x, True, *a, **k)
            ANYD = z3.Function("ANYD", I, B)
            E.assume(z3.ForAll([i0, x0], z3.Implies(z3.And(x0 >= 0, x0 < nf.t, DET(i0, x0)), ANYD(i0)), patterns=[DET(i0, x0)]))
            def quantified(x, every, axis=None, **k):
                """which checks detect some error (none of them)"""
                if not isinstance(x, SArr) or x.ndim != 2: return (np.all if every else np.any)(x, axis=axis, **k)
                i, e = fresh("i"), fresh("e"); E.ctxs.append(core.Ctx([]))
                try:
                    tr = axis == 0 and bool(E.entails(lift(x._shape[1]) == M.t)); ok = axis in (1, -1) or tr; E.assume(z3.And(i >= 0, i < M.t, e >= 0, e < nf.t)); t = to_bool(lift(x.at(e, i) if tr else x.at(i, e))); E.assume(DET(i, e) == det(i, e)); nn = lift(x._shape[0 if tr else 1])
                    ok = ok and bool(E.entails(z3.And(t == (z3.Not(DET(i, e)) if every else DET(i, e)), nn == nf.t)))
                finally: E.ctxs.pop()
                if not c.ob("checks that detect some error", ok): raise PathEnd()
                return SArr((M,), (lambda i: z3.Not(ANYD(i))) if every else (lambda i: ANYD(i)), "b")
            md.np = NX()
            def rowof(v, name):
                q = fresh("q"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(q >= 0, q < n.t)); t = simp(lift(v.at(q))); i = arg_of(t, CH)
                    if i is None or not E.entails(t == b01(CH(i, q))): i = None
                finally: E.ctxs.pop()
                if not c.ob(name + ": one of the checks", i is not None): raise PathEnd()
                return i
            def cov(s, faults):
                c.ob("errors detected among all errors", faults is fa); return FSet(CVI(rowof(s, "detected errors")))
            md._covers = cov
            conv = lambda v: Mv(MVI(rowof(v, "filed measurement")))
            def dd(*a):
                m = MapG(c); m.conv = conv; mapping.append(m); m.laws(); return m
            md.defaultdict = dd
            md.set = lambda x=None: GS() if x is None else x.copy() if isinstance(x, GS) else (_ for _ in ()).throw(Unsupported("set"))
            def setc(nn, cands, mp):
                x, t = fresh("x"), fresh("t", FSS); c.ob("all errors are to be covered", lift(nn) == nf.t); c.ob("the lists of measurements", len(mapping) == 1 and mp is mapping[0])
                E.ctxs.append(core.Ctx([]))
                E.assume(z3.And(x >= 0, x < nf.t)); w = CVI(D(x)); det_rel(D(x), x); c.ob("every error is in a candidate", z3.And(cands.mem(w), MEM(w, x))); E.ctxs.pop()
                for mm in [cands]: E.assume(z3.BoolVal(True))
                c.ob("every candidate has a measurement", z3.Implies(cands.mem(t), mp.ne(t)))
                u = next(CNT); K, CW = z3.Function(f"COVER{u}", FSS, B), z3.Function(f"BY{u}", I, FSS); tt, xx = z3.Const("t0", FSS), z3.Int("x0"); cm = cands.mem
                E.assume(z3.ForAll([tt], z3.Implies(K(tt), cm(tt)), patterns=[K(tt)])); E.assume(z3.ForAll([xx], z3.Implies(z3.And(xx >= 0, xx < nf.t), z3.And(K(CW(xx)), MEM(CW(xx), xx))), patterns=[CW(xx)])); g = GS(lambda t: K(t)); g.by = CW; return g
            md._set_cover = setc
            def det_rel(i, e):
                """the syndrome of check i and error e"""
                E.assume(DET(i, e) == det(i, e))
                for cond, w in st.get("wh", []): E.assume(fresh("pos") == w.back(i))
            def ext(cands, limit, mp):
                t = fresh("t", FSS); c.ob("the lists of measurements", len(mapping) == 1 and mp is mapping[0]); c.ob("every candidate has a measurement", z3.Implies(cands.mem(t), mp.ne(t)))
                u = next(CNT); R, NE = z3.Function(f"EXT{u}", FSS, B), z3.Function(f"NE{u}", FSS, B); tt = z3.Const("t0", FSS); cm, old = cands.mem, mp.ne
                E.assume(z3.ForAll([tt], z3.Implies(cm(tt), R(tt)), patterns=[R(tt)])); E.assume(z3.ForAll([tt], z3.Implies(R(tt), NE(tt)), patterns=[R(tt)])); E.assume(z3.ForAll([tt], z3.Implies(old(tt), NE(tt)), patterns=[NE(tt)])); mp.havoc(lambda q: NE(q)); return GS(lambda t: R(t))
            md._extend_covering_sets = ext
            def leader(m, gens):
                if not c.ob("a measurement is reduced", isinstance(m, Mv)): raise PathEnd()
                i = fresh("i"); q = fresh("q"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(i >= 0, i < lift(gens._shape[0]), q >= 0, q < n.t)); r = arg_of(simp(lift(gens.at(i, q))), CH)
                    if c.ob("by checks only", r is not None and bool(E.entails(lift(gens.at(i, q)) == b01(CH(r, q))))):
                        e = fresh("e"); E.assume(z3.And(e >= 0, e < nf.t, DET(r, e) == det(r, e))); c.ob("that detect no error", z3.Not(det(r, e)))
                finally: E.ctxs.pop()
                return Mv(LEADM(m.t))
            md._coset_leader = leader
            md.min = lambda xs, key=None: pick(c, xs, key)
            md.sorted = lambda xs, key=None: permuted(seqs.as_plist(xs))
            # loops: filing the candidates, the search for a better cover, reading off the measurements
            nl = NestLoops(c); comps = type("K", (), {"get": lambda s, lid, d=None: comp(lid)})()
            def comp(lid):
                if not lid.endswith("comp"): return None
                def rule(rt, it, body, get, set_, names):
                    fv = freevars(body)
                    if fv.get("kind") == "set":
                        k = fresh("sk"); out = []
                        def run():
                            E.assume(z3.And(k >= 0, k < lift(it.n))); g, el = fv["lam"](it.item(V(k)))
                            if g() is not True: raise Unsupported("condition")
                            return el()
                        E.explore(run, lambda p: out.append(p))
                        if len(out) != 1 or out[0].exc is not None or not isinstance(out[0].result, FSet): raise Unsupported("set comprehension")
                        t0 = out[0].result.t; nn = lift(it.n); u = next(CNT); S_, IX = z3.Function(f"SC{u}", FSS, B), z3.Function(f"SI{u}", FSS, I); t, q = z3.Const("t0", FSS), z3.Int("q0"); at = lambda q: z3.substitute(t0, (k, q))
                        E.assume(z3.ForAll([t], z3.Implies(S_(t), z3.And(IX(t) >= 0, IX(t) < nn, at(IX(t)) == t)), patterns=[S_(t)])); st["sc"] = (S_, at, nn)
                        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nn), S_(at(q))), patterns=[at(q)])); res = fv["res"]; res.__class__ = GS; res.mem = lambda t: S_(t); return loops.CONT
                    if fv.get("kind") == "gen" and not isinstance(it, PList): fv["res"].segs = fv["res"].segs + [("s", it.n, lambda i: V(fresh("gv")))]; return loops.CONT
                    if isinstance(it, PList): raise Unsupported("comprehension")
                    k = fresh("ck"); out = []
                    def run():
                        E.assume(z3.And(k >= 0, k < lift(it.n))); g, el = fv["lam"](it.item(V(k)))
                        if g() is not True: raise Unsupported("condition")
                        return el()
                    E.explore(run, lambda p: out.append(p))
                    if len(out) != 1 or out[0].exc is not None: raise Unsupported("comprehension with several cases")
                    v = out[0].result; pc = [p for p in out[0].pc]; res = fv["res"]; E.touch(res)
                    def fn(i, v=v):
                        i = lift(i); return loops_subst(v, k, i, out[0])
                    res.segs = res.segs + [("s", it.n, fn)]; return loops.CONT
                return rule
            def loops_subst(v, k, i, p):
                """the entry for index i, with what was found out about it (facts of the evaluation)"""
                for g in p.pc: 
                    t = z3.substitute(g, (k, i)); E.assume(t)
                if isinstance(v, tuple): return tuple(loops_subst(x, k, i, EMPTYP) for x in v)
                if isinstance(v, (Mv, FSet)): return v.vc_subst([(k, i)])
                if isinstance(v, V): return mk(z3.substitute(v.t, (k, i)))
                if isinstance(v, SArr):
                    s = v.snapshot(); f = s.fn; return SArr(s._shape, lambda *ix: (lambda ph: z3.substitute(z3.substitute(lift(f(*ph)), (k, i)), *zip(ph, ix)))([fresh("ph") for _ in ix]), s.kind)
                raise Unsupported("entry of a comprehension")
            EMPTYP = type("P", (), {"pc": []})()
            class Hooks:
                def get(s, lid, d=None): return comp(lid) if lid.endswith("comp") else (lambda *a: rule(lid, *a))
            H = Hooks()
            def rule(lid, rt, it, body, get, set_, names):
                if not isinstance(it, Seq): return wh.rule(rt, it, body, get, set_, names)
                fv = freevars(body); loc = dict(zip(names, get()))
                rec = [v for v in {**fv, **loc}.values() if isinstance(v, PList) and v.is_concrete() and not v.segs]
                if not rec: return file.rule(rt, it, body, get, set_, names)
                return read.rule(rt, it, body, get, set_, names)
            def finit(vals, cnt): st["n"] = cnt; t = fresh("t", FSS); c.ob("no measurement yet", len(mapping) == 1); c.ob("empty lists", z3.Not(mapping[0].ne(t)))
            def fhavoc(vals, k):
                u = next(CNT); NE = z3.Function(f"NE{u}", FSS, B); S_ = z3.Function(f"FILED{u}", I, B); mapping[0].havoc(lambda q: NE(q)); q = z3.Int("q0"); st["key"] = st.get("key"); st["NE"] = NE; st["k"] = k
                if st.get("key"):
                    kf = st["key"]; E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), NE(kf(q))), patterns=[kf(q)]))
                return {}
            def fstep(old, new, k, how):
                c.ob("the loop goes on", how == "next"); m = mapping[0]; t = fresh("t", FSS); NE = st["NE"]; c.ob("measurements are only added", z3.Implies(NE(t), m.ne(t))); added = []
                def go(e):
                    if z3.is_app(e):
                        if z3.is_eq(e) and e.arg(0).sort() == FSS:
                            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                                if a.eq(t): added.append(b)
                        for a in e.children(): go(a)
                go(m.ne(t))
                if c.ob("one candidate is filed per pass", len(added) == 1):
                    b = added[0]; c.ob("with its list", m.ne(b)); st["key"] = lambda q, b=b, k=k: z3.substitute(b, (k, lift(q)))
            file = LoopHook(c, "_heuristic_layer", finit, fhavoc, fstep)
            class FileRule:
                pass
            frule = file.rule
            def file_rule(rt, it, body, get, set_, names):
                E.loops = H
                try: return frule(rt, it, body, get, set_, names)
                finally: E.loops = H
            file.rule = file_rule; file.inner = comps
            # --- while: any better cover
            def gsets(vals): return {x: v for x, v in vals.items() if isinstance(v, GS)}
            def good(name, g, x):
                by = getattr(g, "by", None); t = fresh("t", FSS); c.ob(name + ": every set has a measurement", z3.Implies(g.mem(t), mapping[0].ne(t)))
            def isbase(cm):          # candidates contain the sets of all candidate checks
                x = fresh("x"); E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(x >= 0, x < nf.t)); w = CVI(D(x)); return bool(E.entails(z3.And(cm(w), MEM(w, x))))
                finally: E.ctxs.pop()
            def winit(vals):
                gs = gsets({**wh.free, **vals}); st["roles"] = {}
                for x, v in gs.items():
                    t = fresh("t", FSS)
                    c.ob("every set has a measurement", z3.Implies(v.mem(t), mapping[0].ne(t)))
                    st["roles"][x] = "cover" if hasattr(v, "by") else "cand"
                st["base"] = mapping[0].ne
                c.ob("candidates and a cover", sorted(set(st["roles"].values())) == ["cand", "cover"])
                for x, v in gs.items():
                    if st["roles"][x] == "cand": c.ob("the candidates cover every error", isbase(v.mem))
            def whavoc(vals):
                out = {}; u = next(CNT); NE = z3.Function(f"NE{u}", FSS, B); t, x = z3.Const("t0", FSS), z3.Int("x0"); b0 = st["base"]; E.assume(z3.ForAll([t], z3.Implies(b0(t), NE(t)), patterns=[NE(t)])); mapping[0].havoc(lambda q: NE(q))
                for nm, v in vals.items():
                    if nm in st["roles"] or isinstance(v, GS):
                        S_ = z3.Function(f"WS{next(CNT)}", FSS, B); E.assume(z3.ForAll([t], z3.Implies(S_(t), NE(t)), patterns=[S_(t)])); g = GS(lambda q, S_=S_: S_(q)); out[nm] = g
                        if st["roles"].get(nm) == "cover":
                            CW = z3.Function(f"BY{next(CNT)}", I, FSS); g.by = CW; E.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < nf.t), z3.And(S_(CW(x)), MEM(CW(x), x))), patterns=[CW(x)]))
                        else: E.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < nf.t), z3.And(S_(CVI(D(x))), MEM(CVI(D(x)), x))), patterns=[D(x)]))
                    elif isinstance(v, V): out[nm] = V(fresh("wv", v.t.sort()))
                    elif isinstance(v, bool): out[nm] = V(fresh("wb", B))
                    elif isinstance(v, int): out[nm] = V(fresh("wi"))
                return out
            def wstep(old, new):
                for nm, v in new.items():
                    if not isinstance(v, GS): continue
                    t = fresh("t", FSS); r = st["roles"].get(nm); c.ob("every set has a measurement", z3.Implies(v.mem(t), mapping[0].ne(t)))
                    if r == "cover":
                        if c.ob("the cover is one that covers every error", hasattr(v, "by")):
                            x = fresh("x"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(x >= 0, x < nf.t)); w = v.by(x); c.ob("covers every error", z3.And(v.mem(w), MEM(w, x))); E.ctxs.pop()
                    elif r == "cand": c.ob("the candidates cover every error", isbase(v.mem))
            def wbrk(old, new): wstep(old, new)
            wh = WhileHook(c, "_heuristic_layer", winit, whavoc, wstep, leave=(wbrk, whavoc)); wrule = wh.rule
            def while_rule(rt, cond, body, get, set_, names):
                # the inner loops are comprehensions only
                try: return wrule(rt, cond, body, get, set_, names)
                finally: E.loops = H
            wh.rule = while_rule
            # --- reading off: one measurement per chosen set
            def rinit(vals, cnt):
                ls = [v for v in {**read.free, **vals}.values() if isinstance(v, PList) and v.is_concrete() and not v.segs]
                if not c.ob("one list of measurements, empty at first", len({id(v) for v in ls}) == 1): raise PathEnd()
                st["rec"] = ls[0]; st["order"] = ORDERS[-1]; c.ob("all chosen sets", cnt == ORDERS[-1][1].t)
            def rhavoc(vals, k): r = st["rec"]; E.touch(r); r.__class__ = Rec; r.segs, r.w = [], []; return {}
            def rstep(old, new, k, how):
                w = st["rec"].w; c.ob("the loop goes on", how == "next")
                if c.ob("one measurement per chosen set", len(w) == 1 and isinstance(w[0], Mv)): c.ob("detects the errors of the set", COV(w[0].t) == st["order"][2](k)); c.ob("a sum of checks", SPAN(w[0].t))
            read = LoopHook(c, "_heuristic_layer", rinit, rhavoc, rstep, inner=comps)
            E.loops = H
            def post(r):
                cov_ = ORDERS[-1][0]; by = getattr(cov_, "by", None)
                if not c.ob("the measurements of a cover", by is not None): return
                g, nn, EL, IX = ORDERS[-1]; x = fresh("x"); E.assume(z3.And(x >= 0, x < nf.t)); w = by(x)
                c.ob("the error is in a chosen set", z3.And(g.mem(w), MEM(w, x), IX(w) >= 0, IX(w) < nn.t, EL(IX(w)) == w))
                if r is st.get("rec"): return
                p = seqs.as_plist(r); 
                if not c.ob("one measurement per chosen set", len(p.segs) == 1 and p.segs[0][0] == "s" and bool(E.entails(lift(p.segs[0][1]) == nn.t))): return
                k = fresh("k"); E.assume(z3.And(k >= 0, k < nn.t)); m = p.get(V(k))
                if c.ob("a measurement", isinstance(m, Mv)): c.ob("detects the errors of the set", COV(m.t) == EL(k)); c.ob("a sum of checks", SPAN(m.t))
            old_sort = getattr(PList, "sort", None)
            def srt(self, key=None, reverse=False): q = permuted(self); E.touch(self); self.segs = q.segs
            PList.sort = srt
            try: c.run(lambda: (st.clear(), mapping.clear(), ORDERS.clear(), setattr(E, "loops", H), c.fn()(fa, ck, lead, lim))[4], post)
            finally:
                if old_sort is None: del PList.sort
                else: PList.sort = old_sort
    mkl(lead)
# ------------------------------------------------------------------ the searches around it: which results are kept for which errors
class Faults:
    """the errors to be detected for one number of faults; ind: their number"""
    def __init__(self, owner, t): self.owner, self.t = owner, t
    def vc_subst(self, pairs): return Faults(self.owner, z3.substitute(self.t, *pairs))
    def __vc_len__(self): x = self.owner.NF(self.t); E.assume(x >= 0); return mk(x)
    @property
    def shape(self): return (self.__vc_len__(), self.owner.n)
    @property
    def size(self): return self.__vc_len__() * self.owner.n
    def is_(self, k, owner): return self.owner is owner and bool(E.entails(self.t == k))
class FaultSets:
    def __init__(self, c, name, sp, ready=True): self.c, self.name, self.sp, self.n, self.ready = c, name, sp, sp.num_qubits, ready; self.NF = z3.Function(f"NF_{name}", I, I)
    def __getitem__(self, i):
        if not isinstance(i, (V, int)): raise Unsupported("index of a fault set")
        i = lift(i); self.c.ob("a number of faults up to the maximum", z3.And(i >= 0, i <= self.sp.max_errors.t)); self.c.ob("fault sets are computed before they are used", self.ready or self.sp.computed); return Faults(self, i)
    def __vc_len__(self): return self.sp.max_errors + 1
class Mtok:
    """one measurement of a result: DETS: it detects some error, NONZ: it has an entry"""
    def __init__(self, d, a): self.d, self.a = d, a
    def any(self): return mk(self.a)
class Meas:
    """measurements that detect every error of one fault set (the contract of the function that returned them)"""
    def __init__(self, faults): self.faults, self.n = faults, Nat("nmeas"); u = next(CNT); self.D, self.A = z3.Function(f"MD{u}", I, B), z3.Function(f"MA{u}", I, B)
    def __vc_len__(self): return self.n
    def vc_seq(self): s = Seq(self.n, lambda i: Mtok(self.D(lift(i)), self.A(lift(i)))); s.meas = self; return s
    def vc_subst(self, pairs): m = Meas(self.faults.vc_subst(pairs)); return m
class Lay(PList):
    """the list of layers while one entry is filled per pass"""
    def _vc_save(s): return (list(s.segs), list(getattr(s, "w", [])), s.__class__)
    def _vc_load(s, v):
        if len(v) == 3 and isinstance(v, tuple): s.segs, s.w, s.__class__ = list(v[0]), list(v[1]), v[2]
        else: s.__class__ = PList; s.segs = list(v)
    def __setitem__(s, i, x): E.touch(s); s.w = s.w + [(lift(i), x)]
    def append(s, x): E.touch(s); s.w = s.w + [("next", x)]
    def __getitem__(s, i):
        for j, x in reversed(s.w):
            if not isinstance(j, str) and E.entails(lift(i) == j): return x
        raise Unsupported("reading a layer")
class AnyFor:
    """the loop over the numbers of faults: a pass with an arbitrary number, every way to leave it is followed"""
    def __init__(self, c, sp, sets, keep): self.c, self.sp, self.sets, self.keep = c, sp, sets, keep; E.loops = self
    def get(self, lid, d=None): return (lambda *a: self.comp(lid, *a)) if lid.endswith("comp") else self.rule
    def comp(self, lid, rt, it, body, get, set_, names):
        fv = freevars(body); m = getattr(it, "meas", None) or (it if isinstance(it, Meas) else None)
        if m is None:
            E.loops = {}
            try: return rt.for_loop(lid, it, body, get, set_, names)
            finally: E.loops = self
        i = fresh("mi"); E.assume(z3.And(i >= 0, i < m.n.t)); tok = Mtok(m.D(i), m.A(i)); E.assume(z3.Implies(m.D(i), m.A(i))); g, el = fv["lam"](tok)
        with_ = True if g is None else bool(g()) if callable(g) else bool(g)
        if with_:
            self.c.ob("measurements are kept as they are", el() is tok)
        else: self.c.ob("only measurements without effect are dropped", z3.Not(m.D(i)))
        if fv.get("kind") not in ("list", "gen"): raise Unsupported("comprehension over measurements")
        r = Meas(m.faults); res = fv["res"]; res.kept = r
        E.touch(res); res.__class__ = Kept; res.segs = [("s", r.n, lambda i: Mtok(r.D(lift(i)), r.A(lift(i))))]; res.faults, res.meas = m.faults, r; return loops.CONT
    def rule(self, rt, it, body, get, set_, names):
        if not isinstance(it, Seq): return self.while_rule(rt, it, body, get, set_, names)
        c, sp = self.c, self.sp; vals = {**freevars(body), **dict(zip(names, get()))}; self.hit = getattr(self, "hit", 0) + 1
        c.ob("one pass per number of faults", lift(it.n) == sp.max_errors.t)
        ls = [v for v in vals.values() if isinstance(v, PList) and not isinstance(v, Kept)]; ls = list({id(v): v for v in ls}.values())
        if not c.ob("one list of layers", len(ls) == 1): raise PathEnd()
        L = ls[0]; app = L.is_concrete() and not L.segs and not E.entails(sp.max_errors.t == 0)
        if not app:
            k0 = fresh("lk"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(k0 >= 0, k0 < sp.max_errors.t)); x = L.get(V(k0)); c.ob("empty layers at first", z3.And(lift(L.vc_len()) == sp.max_errors.t, z3.BoolVal(isinstance(x, PList) and x.is_concrete() and not x.segs))); E.ctxs.pop()
        E.touch(L); L.__class__ = Lay; L.w = []
        if E.choose(2) == 0:
            k = fresh("k"); E.assume(z3.And(k >= 0, k < sp.max_errors.t)); self.k = k + 1
            set_(tuple(v if v is L else forget(v) for v in get()))
            w, start = watch(), born(); r = body(it.item(V(k))); strays(c, w, start, [L])
            if r is not loops.CONT: return loops.CONT if r is loops.BRK and c.ob("all numbers of faults are treated", False) else r
            if c.ob("at most one layer per number of faults", len(L.w) <= 1 and not (app and not L.w)): self.written(L.w[0] if L.w else (k, PList()), k, app)
            raise PathEnd()
        set_(tuple(v if v is L else forget(v) for v in get())); L.done = True; L.w = []; return loops.CONT
    def written(self, w, k, app):
        c = self.c; i, x = w
        if not isinstance(i, str): c.ob("the layer of this number of faults", i == k)
        F_ = self.sets()
        if isinstance(x, PList) and not isinstance(x, Kept): c.ob("no measurements only if there is nothing to detect", z3.And(z3.BoolVal(x.is_concrete() and not x.segs), F_.NF(k + 1) == 0)); return
        f = getattr(x, "faults", None); c.ob("measurements found for exactly these errors", f is not None and f.is_(k + 1, F_))
    def while_rule(self, rt, cond, body, get, set_, names):
        c = self.c; self.check(dict(zip(names, get())))
        def hv(x, v): return V(fresh("st")) if isinstance(v, (V, int)) and not isinstance(v, bool) else Meas(v.faults) if isinstance(v, (Meas, Kept)) else forget(v)
        def arbitrary(): set_(tuple(hv(x, v) for x, v in zip(names, get())))
        arbitrary()
        if E.choose(2) == 0:
            if not bool(cond()): raise PathEnd()
            w, start = watch(), born(); r = body(); strays(c, w, start)
            if r is loops.CONT: self.check(dict(zip(names, get()))); raise PathEnd()
            return loops.CONT if r is loops.BRK else r
        if bool(cond()): raise PathEnd()
        return loops.CONT
    def check(self, vals):
        F_ = self.sets()
        for v in vals.values():
            if isinstance(v, (Meas, Kept)): self.c.ob("the kept measurements were found for these errors", v.faults.is_(self.k, F_))
class Kept(PList):
    """measurements of a result without some that have no effect"""
    def __vc_len__(self): return self.meas.n
def sp16(c, md, x_err, add):
    class SPG:
        _vc_born = 0
        def _vc_save(s): return s.computed
        def _vc_load(s, v): s.computed = v
        def compute_fault_sets(s, *a, **k): E.touch(s); s.computed = True
        def combine_faults(s, f, x_errors=True):
            if c.ob("the additional errors and the type are handed on", f is s.add): c.ob("errors of the requested type", lift(x_errors) == z3.BoolVal(x_err) if isinstance(x_errors, V) else bool(x_errors) == x_err)
            return s.comb
    s = SPG(); s._vc_born = born(); s.computed = False; s.max_errors, s.num_qubits, s.max_z_measurements, s.max_x_measurements = Nat("maxe", 1), Nat("n", 1), Nat("mz"), Nat("mx"); s.zero_state = Bool("zs")
    s.x_fault_sets, s.z_fault_sets, s.comb = FaultSets(c, "X", s, False), FaultSets(c, "Z", s, False), FaultSets(c, "comb", s); s.add = type("Additional", (), {"__vc_len__": lambda q: Nat("nadd")})(); s.z_checks, s.x_checks = Tok("Z checks"), Tok("X checks")
    class NX:
        def __getattr__(s, a): return getattr(np, a)
        def any(s, x, *a, **k): return x.any() if isinstance(x, Mtok) else np.any(x, *a, **k)
        def sum(s, x, axis=None, **k): return (Nat("total") if axis is None else Tok("weights")) if isinstance(x, Tok) else np.sum(x, axis=axis, **k)
        def min(s, x, *a, **k): return Nat("least") if isinstance(x, Tok) else np.min(x, *a, **k)
        def max(s, x, *a, **k): return Nat("most") if isinstance(x, Tok) else np.max(x, *a, **k)
    md.np = NX(); return s
for xe in (True, False):
    for add in (True, False):
        def mkh(xe, add):
            nm = f"{'X' if xe else 'Z'} errors{', with additional ones' if add else ''}"
            def both(c, fn, call, final):
                md = c.mod(SP); s = sp16(c, md, xe, add); right = s.comb if add else (s.x_fault_sets if xe else s.z_fault_sets); checks = s.z_checks if xe else s.x_checks; h = AnyFor(c, s, lambda: right, None)
                def layer(f, ck, *a, **k):
                    c.ob("the checks of the other type", ck is checks); return Meas(f)
                def stabs(sp, f, na, nc, x_errors=True):
                    c.ob("for this circuit and error type", sp is s and (bool(E.entails(lift(x_errors))) if isinstance(x_errors, V) else bool(x_errors)) == xe); return Meas(f) if E.choose(2) else None
                def its(fun, lo, hi, *a, **k):
                    q = Int("param"); return (fun(q), q) if E.choose(2) else (None, hi)
                def rw(fun, *a, timeout=10): return "timeout" if E.choose(2) else fun(*a)
                md._heuristic_layer, md.verification_stabilizers, md.iterative_search_with_timeout, md._run_with_timeout = layer, stabs, its, rw
                def post(r):
                    if not c.ob("a list", isinstance(r, PList)): return
                    if isinstance(r, Lay): c.ob("all numbers of faults", getattr(r, "done", False))
                    else: c.ob("without a solution: no layers at all", final and r.is_concrete() and not r.segs)
                c.run(lambda: (setattr(E, "loops", h), call(c, s))[1], post, modifies=[s])
            @contract("C16", SP + ":heuristic_verification_stabilizers", nm)
            def f(c): both(c, "heuristic_verification_stabilizers", lambda c, s: c.fn()(s, x_errors=xe, find_coset_leaders=Bool("lead"), **({"additional_faults": s.add} if add else {})), False)
            @contract("C16", SP + ":gate_optimal_verification_stabilizers", nm)
            def g(c): both(c, "gate_optimal_verification_stabilizers", lambda c, s: c.fn()(s, xe, Int("mint"), Int("maxt"), Nat("anc") if E.choose(2) else None, **({"additional_faults": s.add} if add else {})), True)
        mkh(xe, add)
# ------------------------------------------------------------------ the verification circuit: every measurement found is measured
class Bits:
    def __init__(self, n, name, kind): self.n, self.name, self.kind, self.added = lift(n), name, kind, 0; self._vc_born = born()
    def _vc_save(self): return self.added
    def _vc_load(self, v): self.added = v
    def __getitem__(self, i):
        i = lift(i)
        if not bool(mk(z3.And(i >= 0, i < self.n))): raise IndexError("register index")
        return Bit(self, i)
    def __vc_len__(self): return mk(self.n)
class Bit:
    def __init__(self, reg, i): self.reg, self.i = reg, i
    def vc_subst(self, pairs): return Bit(self.reg, z3.substitute(self.i, *pairs))
class Supp:
    """qubits of measurement k"""
    def __init__(self, k, sz): self.k, self.sz = k, sz
    def __vc_len__(self): return mk(self.sz(self.k))
    @property
    def size(self): return self.__vc_len__()
class OneAnc:
    """circuit recorder for one ancilla: couplings in the computational basis read Z, in the Hadamard basis X"""
    F = ("rot", "acc", "out", "all", "regs", "bad")
    def __init__(self, c, xtype): self.c, self.xtype = c, xtype; self._vc_born = born(); self.k = None; self.reset()
    def reset(self): self.rot, self.acc, self.out, self.all, self.regs, self.bad = 0, None, None, [], [], False
    def _vc_save(self): return tuple(list(x) if isinstance(x, list) else x for x in (getattr(self, f) for f in self.F))
    def _vc_load(self, v):
        for f, x in zip(self.F, v): setattr(self, f, list(x) if isinstance(x, list) else x)
    def ob(self, n, g): return self.c.ob(n, g)
    def mine(self, b):
        if not isinstance(b, Bit): raise Unsupported("qubit")
        self.ob("the ancilla of this measurement", b.i == self.k if self.k is not None else False); self.ob("a register of the circuit", any(b.reg is r for r in self.regs)); return b
    def add_register(self, r): E.touch(self); self.regs = self.regs + [r]
    def h(self, b): E.touch(self); self.mine(b); self.ob("no rotation after the measurement", self.out is None); self.rot += 1
    def cx(self, a, b):
        E.touch(self); sup = b if self.xtype else a; anc = a if self.xtype else b
        if not self.ob("the qubits of a measurement", isinstance(sup, Supp)): raise PathEnd()
        l = seqs.as_plist(anc); q = fresh("q"); self.ob("one gate per qubit", lift(l.vc_len()) == sup.sz(sup.k)); E.ctxs.append(core.Ctx([]))
        try: E.assume(z3.And(q >= 0, q < sup.sz(sup.k))); self.mine(l.get(V(q)))
        finally: E.ctxs.pop()
        self.ob("once, before it is read, in the basis of its type", self.acc is None and self.out is None and self.rot == (1 if self.xtype else 0)); self.acc = sup.k
    def measure(self, a, b):
        E.touch(self)
        if isinstance(a, Bits): self.all = self.all + [(a, b)]; self.ob("registers of the circuit", any(a is r for r in self.regs) and any(b is r for r in self.regs)); return
        self.mine(a); self.ob("bit of this measurement", isinstance(b, Bit) and b.reg.kind == "c" and any(b.reg is r for r in self.regs)); self.ob("bit of this measurement", b.i == self.k); self.ob("read in the computational basis", self.rot == (2 if self.xtype else 0)); self.out = a.i
    def flagged(self, stab, a, b, z):
        E.touch(self); self.ob("a fresh ancilla", self.rot == 0 and self.acc is None and self.out is None); self.ob("a measurement of this type", (bool(E.entails(lift(z))) if isinstance(z, V) else bool(z)) == (not self.xtype)); self.mine(a)
        if self.ob("the qubits of a measurement", isinstance(stab, Supp)): self.acc = stab.k
        self.ob("bit of this measurement", isinstance(b, Bit) and b.reg.kind == "c" and any(b.reg is r for r in self.regs)); self.ob("bit of this measurement", b.i == self.k); self.rot = 2 if self.xtype else 0; self.out = a.i
for xt in (True, False):
    for fl_ in (True, False):
        def mkm(xt, flags):
            @contract("C16", SP + (":_measure_ft_x" if xt else ":_measure_ft_z"), f"{'X' if xt else 'Z'} measurements, {'flagged' if flags else 'unflagged'}: every one into a bit of its own")
            def f(c):
                md = c.mod(SP); nm, n = Nat("nm"), Nat("n", 1); MM, SZ = z3.Function("MM", I, I, B), z3.Function("SZ", I, I); q0 = z3.Int("q0"); E.assume(z3.ForAll([q0], SZ(q0) >= 0, patterns=[SZ(q0)])); qc = OneAnc(c, xt); st = {}
                def row(k): k = lift(k); r = SArr((n,), lambda q: b01(MM(k, q)), "i"); r._vc_born = born(); return r
                ms = PList([("s", nm, row)])
                md.AncillaRegister = lambda m, name=None: Bits(m, name, "a"); md.ClassicalRegister = lambda m, name=None: Bits(m, name, "c"); md.QuantumRegister = md.AncillaRegister
                def support(cond):
                    q = fresh("q"); E.ctxs.append(core.Ctx([]))
                    try: E.assume(z3.And(q >= 0, q < n.t)); t = simp(lift(cond.at(q))); k = arg_of(t, MM); ok = k is not None and bool(E.entails(to_bool(lift(cond.at(q))) == MM(k, q)))
                    finally: E.ctxs.pop()
                    if not c.ob("the qubits of a measurement", ok): raise PathEnd()
                    return Supp(k, SZ)
                class NX:
                    def __getattr__(s, a): return getattr(np, a)
                    def where(s, cond, *r): return (support(cond),) if not r else np.where(cond, *r)
                    def flatnonzero(s, cond): return support(cond)
                    def nonzero(s, cond): return (support(cond),)
                md.np = NX()
                def mf(q, stab, a, b, t=1, z_measurement=True, **k): c.ob("in this circuit", q is qc); qc.flagged(stab, a, b, z_measurement)
                md.measure_flagged = mf
                def init(vals, cnt): c.ob("all measurements", cnt == nm.t); c.ob("nothing measured before", qc.acc is None and qc.out is None and not qc.all); st["n"] = cnt
                def havoc(vals, k): E.touch(qc); qc.rot, qc.acc, qc.out = 0, None, None; qc.k = k; return {}
                def step(old, new, k, how):
                    c.ob("the loop goes on", how == "next"); c.ob("the qubits of this measurement are coupled", z3.BoolVal(False) if qc.acc is None else qc.acc == k); c.ob("its ancilla is back in the computational basis", qc.rot == (2 if xt else 0)); st["read"] = qc.out is not None
                h = LoopHook(c, "_measure_ft", init, havoc, step)
                def post(r):
                    if E.entails(nm.t == 0): c.ob("nothing to measure", True); return
                    if not c.ob("all measurements are treated", "n" in st): return
                    a, b = [r for r in qc.regs if r.kind == "a"], [r for r in qc.regs if r.kind == "c"]
                    if c.ob("one ancilla and one bit per measurement", len(a) == 1 and len(b) == 1): c.ob("one ancilla and one bit per measurement", z3.And(a[0].n == nm.t, b[0].n == nm.t)); c.ob("every ancilla is read into its bit", st.get("read", False) or any(x is a[0] and y is b[0] for x, y in qc.all))
                c.run(lambda: (qc.reset(), st.clear(), c.fn()(qc, ms, Nat("t"), flags=flags))[2], post, modifies=[qc])
        mkm(xt, fl_)
class Lists(PList):
    """layers as they were returned"""
def vlayers(tag, n):
    u = next(CNT); CT = z3.Function(f"CT{u}", I, I); q = z3.Int("q0"); E.assume(z3.ForAll([q], CT(q) >= 0, patterns=[CT(q)]))
    l = Lists([("s", n, lambda i: PList([("s", mk(CT(lift(i))), lambda j, i=i: VM(tag, lift(i), lift(j)))]))]); l.tag, l.ct, l.num = tag, CT, n; return l
class VM:
    def __init__(self, tag, i, j): self.tag, self.i, self.j = tag, i, j
    def vc_subst(self, pairs): return VM(self.tag, z3.substitute(self.i, *pairs), z3.substitute(self.j, *pairs))
def flat_of(c, name, l, lay):
    """all measurements of all layers, in order"""
    ok = isinstance(l, PList) and len(l.segs) == 1 and l.segs[0][0] == "n" and len(l.segs[0][3]) == 1 and l.segs[0][3][0][0] == "s"
    if not c.ob(name, ok): return False
    _, n, k, segs = l.segs[0]; _, m, fn = segs[0]; j = fresh("j"); E.ctxs.append(core.Ctx([]))
    try: E.assume(z3.And(k >= 0, k < lift(lay.num), j >= 0, j < lay.ct(k))); v = fn(V(j)); return c.ob(name, z3.And(lift(n) == lift(lay.num), lift(m) == lay.ct(k), z3.BoolVal(isinstance(v, VM) and v.tag == lay.tag), v.i == k, v.j == j))
    finally: E.ctxs.pop()
for full in (True, False):
    def mkvc(full):
        @contract("C16", SP + ":_verification_circuit", "all measurements of both searches are measured, or the search has failed" if full else "all measurements of the first search are measured, or it has failed")
        def f(c):
            md = c.mod(SP); s = sp16(c, md, True, False); calls, hook, out, lays = [], Tok("hook errors"), [], {}; res = Tok("circuit")
            def fun(sp, z, add=None):
                i = len(calls); calls.append((sp, z, add)); n = s.max_errors if E.choose(2) == 0 else 0; l = vlayers(i, n) if not isinstance(n, int) else PList(); lays[i] = l; return l
            def he(l): flat_of(c, "hook errors of the measurements of the first search", l, lays[0]); out.append("hook"); return hook
            def mfs(sp, x, z, full_fault_tolerance=True): out.append((sp, x, z, full_fault_tolerance)); return res
            md._hook_errors, md._measure_ft_stabs = he, mfs; NestLoops(c)
            def zero(): return bool(E.entails(s.zero_state.t))
            def post(r):
                c.ob("the circuit with the measurements", r is res); m = [o for o in out if o != "hook"]
                if not c.ob("one circuit", len(m) == 1 and len(calls) == (2 if full else 1)): return
                c.ob("both searches had a solution", all(isinstance(l, Lists) for l in lays.values())); z0 = s.zero_state.t; tb = lambda v: to_bool(lift(v))
                c.ob("first search: the errors that matter for the state", z3.And(z3.BoolVal(calls[0][0] is s and calls[0][2] is None), tb(calls[0][1]) == z0))
                if full: c.ob("second search: the other errors and the hook errors", z3.And(z3.BoolVal(calls[1][0] is s and calls[1][2] is hook), tb(calls[1][1]) == z3.Not(z0)))
                sp, x, z, ff = m[0]; c.ob("for the circuit", sp is s); c.ob("both kinds are measured if both were searched", tb(ff) == z3.BoolVal(full)); zs = zero(); first, second = (z, x) if zs else (x, z); c.ob("the state is known", zs or bool(E.entails(z3.Not(z0))))
                flat_of(c, "measurements of the first search", first, lays[0])
                if full: flat_of(c, "measurements of the second search", second, lays[1])
                else: c.ob("no second search", isinstance(second, PList) and second.is_concrete() and not second.segs)
            def raises(e):
                c.ob("only a failed search is reported", isinstance(e, RuntimeError) and any(not isinstance(l, Lists) for l in lays.values())); c.ob("no circuit", not [o for o in out if o != "hook"])
            c.run(lambda: (calls.clear(), out.clear(), lays.clear(), setattr(E, "loops", NestLoops(c)), c.fn()(s, fun, full_fault_tolerance=full))[4], post, raises=raises)
    mkvc(full)
for nm, fn in (("gate_optimal_verification_circuit", "gate_optimal_verification_stabilizers"), ("heuristic_verification_circuit", "heuristic_verification_stabilizers")):
    def mkw(nm, fn):
        @contract("C16", SP + ":" + nm, "the search for the given circuit, type and additional errors")
        def f(c):
            md = c.mod(SP); sp, add, res = Tok("circuit"), Tok("additional"), Tok("result"); got, calls = [], []; ff, z = Bool("full"), Bool("z"); fun0 = getattr(md, fn)
            import inspect
            def stabs(*a, **k): got.append((a, k)); return res
            def vc(s, fun, full_fault_tolerance=True):
                calls.append((s, full_fault_tolerance)); r = fun(s, z, add); c.ob("the layers found", r is res); r = fun(s, z, None); c.ob("the layers found", r is res); return res
            setattr(md, fn, stabs); md._verification_circuit = vc; pos = {"sp_circ": 0, "x_errors": 1, "additional_faults": 5 if nm.startswith("gate") else 4}
            def arg(call, name): a, k = call; return k[name] if name in k else a[pos[name]] if len(a) > pos[name] else None
            def post(r):
                if not c.ob("one circuit", r is res and len(calls) == 1 and len(got) == 2): return
                c.ob("for the circuit", calls[0][0] is sp and all(arg(g, "sp_circ") is sp for g in got)); c.ob("of the requested type", z3.And(*[to_bool(lift(arg(g, "x_errors"))) == z.t for g in got])); c.ob("with the additional errors", arg(got[0], "additional_faults") is add and arg(got[1], "additional_faults") is None); c.ob("fault tolerance as requested", to_bool(lift(calls[0][1])) == ff.t)
            c.run(lambda: (got.clear(), calls.clear(), c.fn()(sp, full_fault_tolerance=ff))[2], post)
    mkw(nm, fn)
for full in (True, False):
    def mks(full):
        @contract("C16", SP + ":_measure_ft_stabs", f"the preparation, then all measurements{' of both types' if full else ' of the first type'}")
        def f(c):
            md = c.mod(SP); circ, xs, zs = Tok("preparation"), Tok("X measurements"), Tok("Z measurements"); s = sp16(c, md, True, False); s.circ = circ; s.max_x_errors, s.max_z_errors = Nat("mxe"), Nat("mze"); log = []
            class QCk:
                def __init__(q, *regs): q._vc_born = born(); log.append(("new", regs))
                def _vc_save(q): return None
                def _vc_load(q, v): pass
                def compose(q, o, *a, inplace=False, **k):
                    if not inplace: raise Unsupported("compose")
                    log.append(("prep", q, o))
            md.QuantumCircuit = QCk; md.QuantumRegister = lambda n, name=None: Bits(n, name, "q")
            def rec(kind):
                def f(q, ms, t=None, flags=False): log.append((kind, q, ms, t, flags))
                return f
            md._measure_ft_x, md._measure_ft_z = rec("X"), rec("Z")
            def post(r):
                if not c.ob("a circuit on the qubits of the code", isinstance(r, QCk) and [l[0] for l in log[:2]] == ["new", "prep"] and len(log[0][1]) == 1): return
                g = log[0][1][0]; c.ob("a circuit on the qubits of the code", (g.n if isinstance(g, Bits) else lift(g)) == s.num_qubits.t); c.ob("starts with the preparation", log[1][1] is r and log[1][2] is circ)
                z0 = bool(E.entails(s.zero_state.t)); c.ob("the state is known", z0 or bool(E.entails(z3.Not(s.zero_state.t)))); want = (["Z", "X"] if z0 else ["X", "Z"])[:2 if full else 1]; c.ob("the measurements", [l[0] for l in log[2:]] == want and all(l[1] is r and l[2] is (xs if l[0] == "X" else zs) for l in log[2:]))
                if len(log) == 4: c.ob("the second measurements are flagged, for the number of errors of the type of their hook errors", z3.And(z3.BoolVal(log[3][4] is True), lift(log[3][3]) == (s.max_x_errors.t if log[3][0] == "X" else s.max_z_errors.t)))
            c.run(lambda: (log.clear(), c.fn()(s, xs, zs, full_fault_tolerance=full))[1], post)
    mks(full)
@contract("C16", SP + ":naive_verification_circuit", "all checks of the code are measured")
def naive(c):
    md = c.mod(SP); n, mx, mz = Nat("n", 1), Nat("mx", 1), Nat("mz", 1); Hx, Hz = binmat("Hx", mx, n), binmat("Hz", mz, n); X0, Z0 = Hx.snapshot(), Hz.snapshot(); s = sp16(c, md, True, False); s.code = c.obj("codes.css_code", "CSSCode", Hx=Hx, Hz=Hz); got = []; res = Tok("circuit")
    def mfs(sp, x, z, full_fault_tolerance=True): got.append((sp, x, z, full_fault_tolerance)); return res
    md._measure_ft_stabs = mfs
    def post(r):
        if not c.ob("one circuit", r is res and len(got) == 1 and got[0][0] is s and got[0][3] is True): return
        for nm, l, R_, m in (("X", got[0][1], X0, mx), ("Z", got[0][2], Z0, mz)):
            l = seqs.as_plist(l); k, q = fresh("k"), fresh("q"); E.ctxs.append(core.Ctx([])); L = lift(l.vc_len()); c.ob(nm + " checks, once per number of faults", L == s.max_errors.t * m.t)
            E.assume(z3.And(k >= 0, k < m.t, q >= 0, q < n.t)); E.assume(s.max_errors.t * m.t >= m.t); v = l.get(V(k)); c.ob("every " + nm + " check is measured", z3.And(k < L, lift(v.at(q)) == lift(R_.at(k, q)))); E.ctxs.pop()
            j = fresh("j"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(j >= 0, j < L, q >= 0, q < n.t)); v = l.get(V(j)); c.ob("nothing but " + nm + " checks", lift(v.at(q)) == lift(R_.at(j % m.t, q))); E.ctxs.pop()
    c.run(lambda: (got.clear(), c.fn()(s))[1], post)
