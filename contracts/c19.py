from contracts.lib import *
SM = "ft_stateprep.simulation"; CL = "NoisyNDFTStatePrepSimulator"
NOTES = dict(assumptions=["the given circuit consists of Hadamard gates, controlled-NOT gates on two different qubits and measurements; a qubit is measured into a classical bit of its own round; the circuit has at least as many qubits as the code, the code's qubits first",
                          "binary check and logical matrices, as established by CSSCode (C10)"],
             trusted=["qiskit: circuit_to_dag / layers / dag_to_circuit present every gate once, in an order compatible with the circuit; find_bit gives the index of a qubit",
                      "stim: Circuit.append_operation appends the named operation; measurement records are numbered in order of the appended measurements; num_qubits is one more than the largest index used; sampling follows the circuit; a gate or measurement without noise is exact",
                      "LutDecoder: answers are consistent with the syndrome (C18)"],
             outside=["plot_state_prep (plotting)", "the quality of the noise model; which of the two verification lists a measurement is filed under (both discard)"],
             explanation="to_stim_circ is checked gate by gate: for an arbitrary state of its bookkeeping and an arbitrary gate, the operations appended are exactly the gate with its noise (preceded by the preparation of qubits that wait for their first gate), the bookkeeping afterwards is the one the gate requires, and idle noise reaches exactly the prepared qubits without a gate. Loops over layers, gates, qubits and checks are unbounded.")
class Qb:
    def __init__(self, i): self.i = i
    def vc_subst(self, pairs): return Qb(z3.substitute(self.i, *pairs))
class Rec:
    """recorder of the operations appended to the stim circuit"""
    def __init__(self, nq=0): self.ev, self.nq = [], lift(nq); self._vc_born = born()
    def _vc_save(self): return list(self.ev), self.nq
    def _vc_load(self, s): self.ev, self.nq = list(s[0]), s[1]
    def append_operation(self, name, targets=(), arg=()):
        E.touch(self)
        ts = seqs.as_plist(targets) if not isinstance(targets, (int, V)) else PList.of([targets])
        a = seqs.as_plist(arg).concrete() if not isinstance(arg, (int, float, V)) else [arg]
        if not ts.is_concrete():
            self.ev = self.ev + [(name, ts, a)]; return
        ts = [lift(t) for t in ts.concrete()]
        for t in ts: self.nq = z3.If(t >= self.nq, t + 1, self.nq)
        self.ev = self.ev + [(name, ts, [lift(x) for x in a])]
    append = append_operation
    @property
    def num_qubits(self): return mk(self.nq)
class Pend(PList):
    """list used as a set of qubits"""
    def _vc_save(self): return self.f
    def _vc_load(self, s): self.f = s if callable(s) else (lambda q: z3.BoolVal(False))
    def contains(self, x): return mk(self.f(lift(x)))
    def append(self, x):
        E.touch(self); x, f = lift(x), self.f; self.cx.ob("a qubit waits once", z3.Not(f(x))); self.f = lambda q: z3.Or(q == x, f(q))
    def remove(self, x):
        E.touch(self); x, f = lift(x), self.f; self.cx.ob("only a waiting qubit is released", f(x)); self.f = lambda q: z3.And(q != x, f(q))
class Used(PList):
    """list of qubits, membership and emptiness"""
    def _vc_save(self): return self.f, self.ne
    def _vc_load(self, s):
        if isinstance(s, tuple): self.f, self.ne = s
        else: self.f, self.ne = (lambda q: z3.BoolVal(False)), z3.BoolVal(False)
    def contains(self, x): return mk(self.f(lift(x)))
    def append(self, x): self.extend([x])
    def extend(self, xs):
        E.touch(self); ts = [lift(t) for t in seqs.as_plist(xs).concrete()]; f = self.f
        self.f = lambda q: z3.Or(f(q), *[q == t for t in ts]); self.ne = z3.BoolVal(True) if ts else self.ne
    def vc_len(self): v = fresh("usedlen"); E.assume(z3.And(v >= 0, (v > 0) == self.ne)); return V(v)
class Multi:
    """loop rules by loop: (condition on the loop id, hook)"""
    def __init__(self, *rules): self.rules = rules
    def get(self, lid, d=None):
        if lid.endswith("comp"): return None
        for cond, h in self.rules:
            if cond(lid):
                def rule(*a, h=h):
                    try: return h.rule(*a)
                    finally: E.loops = self
                return rule
        return None
def Fn(name): return z3.Function(f"{name}!{next(core._fresh)}", I, B)
class Gate:
    def __init__(self, kind, i, a, b): self.kind, self.i, self.a, self.b = kind, i, a, b
    @property
    def operation(self): return self
    @property
    def name(self):
        if self.kind is None:
            self.kind = ("h", "cx", "measure")[E.choose(3)]
        return self.kind
    @property
    def qubits(self): return PList.of([Qb(self.a)] + ([Qb(self.b)] if self.name == "cx" else []))
def same_args(got, want): return len(got) == len(want) and all(E.entails(A.unify2(lift(g), lift(w))[0] == A.unify2(lift(g), lift(w))[1]) for g, w in zip(got, want))
def eq_real(a, b):
    a, b = A.cast(lift(a), "f"), A.cast(lift(b), "f"); return E.entails(a == b)
def conv(c, parallel, part):
    N = Nat("N", 1); p = Real("p"); md = c.mod(SM); noise = 2 * p.t / 3
    nl, ng = Nat("nl"), Nat("ng")
    GA, GB = z3.Function("GA", I, I, I), z3.Function("GB", I, I, I)
    li, gi = z3.Ints("li gi")
    E.assume(z3.ForAll([li, gi], z3.And(GA(li, gi) >= 0, GA(li, gi) < N.t, GB(li, gi) >= 0, GB(li, gi) < N.t, GA(li, gi) != GB(li, gi)), patterns=[GA(li, gi)]))
    qubits = PList([("s", N, lambda i: Qb(lift(i)))])
    class Circ:
        pass
    circ = Circ(); circ.qubits = qubits; circ.num_qubits = N; circ.find_bit = lambda q: (V(q.i), ())
    class Dag:
        def layers(self): return PList([("s", nl, lambda l: {"graph": ("layer", lift(l))})])
    class LC:
        def __init__(self, l): self.data = PList([("s", ng, lambda i: Gate(None, i, GA(l, lift(i)), GB(l, lift(i))))])
    def todag(x): c.ob("the given circuit is converted", x is circ); return Dag()
    def tocirc(g): return LC(g[1])
    md.circuit_to_dag, md.dag_to_circuit = todag, tocirc
    rec = Rec(); made = []
    class Stim:
        def Circuit(self): made.append(1); return rec
    md.stim = Stim()
    pre = z3.Int("pre"); E.assume(pre >= 0)
    xs = PList([("s", mk(pre), lambda i: V(z3.Function("xv", I, I)(lift(i))))]); zs = PList([("s", mk(pre), lambda i: V(z3.Function("zv", I, I)(lift(i))))])
    o = c.obj(SM, CL, circ=circ, p=p, parallel_gates=parallel, x_verification_measurements=xs, z_verification_measurements=zs, n_measurements=V(z3.Int("nm0")), num_qubits=N)
    st = {}
    def parts():
        """the bookkeeping objects of the function, found by their shape"""
        fr = hl.free; out = {}
        used = [v for n, v in st["vals"].items() if isinstance(v, PList)]
        for n, v in fr.items():
            if isinstance(v, PList) and v is not qubits and not any(v is u for u in used) and v is not xs and v is not zs:
                if v.is_concrete() and not v.segs: out["pend"] = v
                elif E.entails(lift(v.vc_len()) == N.t): out["init"] = v
            elif isinstance(v, PSet): out["targets"] = v
            elif isinstance(v, PDict): out["measured"] = v
        if used: out["used"] = used[0]
        return out
    def obs(tag, f, g):
        """two predicates on qubits agree"""
        q = fresh("q"); E.ctxs.append(core.Ctx([]))
        try: E.assume(z3.And(q >= 0, q < N.t)); c.ob(tag, f(q) == g(q))
        finally: E.ctxs.pop()
    def install(tag):
        """arbitrary bookkeeping satisfying the invariant"""
        s = st["p"]; ini, pen, app = Fn("ini"), Fn("pen"), Fn("app"); mc = z3.Function(f"mc!{next(core._fresh)}", I, I); tg = Fn("tg")
        q = z3.Int("iq")
        E.assume(z3.ForAll([q], z3.Not(z3.And(ini(q), pen(q))), patterns=[z3.MultiPattern(ini(q), pen(q))]))
        E.assume(z3.ForAll([q], z3.And(mc(q) >= 0, z3.Implies(z3.Or(ini(q), mc(q) > 0), app(q))), patterns=[app(q)]))
        E.touch(s["init"]); s["init"].segs = [("s", N, lambda i: V(ini(lift(i))))]
        E.touch(s["pend"]); s["pend"].f = pen
        if "targets" in s: t = s["targets"]; E.touch(t); t.elems = []; t.pred = lambda x: tg(lift(x)); t.src = None
        if "measured" in s: m = s["measured"]; E.touch(m); m.items_ = []; m.default = ((lambda k: True), (lambda k: V(mc(lift(k)))))
        E.touch(o); o.n_measurements = V(fresh("nmeas"))
        for l in (xs, zs): E.touch(l); l.segs = [("s", mk(pre), l.segs[0][2])]
        E.touch(rec); rec.ev = []
        st["g"] = dict(ini=ini, pen=pen, mc=mc, app=app, nm=o.n_measurements.t)
    def initf(): return lambda q: to_bool(lift(st["p"]["init"].get(V(q))))
    def measf(q):
        m = st["p"].get("measured"); return lift(m[V(q)]) if m is not None else z3.IntVal(0)
    def invariant(tag):
        s, g = st["p"], st["g"]; q = fresh("q"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(q >= 0, q < N.t))
            c.ob(tag + ": a prepared qubit does not wait", z3.Not(z3.And(initf()(q), s["pend"].f(q))))
            touched = [t == q for n, ts, _ in rec.ev if isinstance(ts, list) for t in ts]
            if "measured" in s: c.ob(tag + ": prepared or measured qubits appear in the circuit", z3.Implies(z3.Or(initf()(q), measf(q) > 0), z3.Or(g["app"](q), *touched)))
        finally: E.ctxs.pop()
    # ---- idle noise: every prepared qubit outside the given set
    def iinit(vals, n): c.ob("idle noise looks at all qubits", n == N.t); st["iev"] = list(rec.ev); st["ini0"] = initf()
    def ihavoc(vals, k): E.touch(rec); rec.ev = []; return {}
    def istep(old, new, k, how):
        c.ob("the idle loop goes on", how == "next")
        want = z3.And(st["ini0"](k), z3.Not(st["busy"](k)))
        if rec.ev:
            c.ob("idle noise only on prepared qubits without a gate", want)
            ok = len(rec.ev) == 1 and rec.ev[0][0] == "DEPOLARIZE1" and len(rec.ev[0][1]) == 1 and E.entails(rec.ev[0][1][0] == k) and len(rec.ev[0][2]) == 1 and eq_real(rec.ev[0][2][0], noise)
            c.ob("idle noise is one depolarizing error of the given strength", ok)
        else: c.ob("every idle prepared qubit gets noise", z3.Not(want))
    class Idle(LoopHook):
        def rule(self, *a):
            r = LoopHook.rule(self, *a); E.touch(rec); rec.ev = st["iev"] + [("idle", [], [])]; return r
    hi = Idle(c, "to_stim_circ", iinit, ihavoc, istep)
    # ---- gates of a layer
    def ginit(vals, n):
        c.ob("all gates of the layer", n == ng.t)
        u = [v for v in list(hg.free.values()) + list(vals.values()) if isinstance(v, PList) and v.is_concrete() and not v.segs and v is not st["p"]["pend"]]
        if not c.ob("a new list of used qubits", len(u) >= 1): raise PathEnd()
        st["u"] = u[0]; u[0].__class__ = Used; u[0].f = lambda q: z3.BoolVal(False); u[0].ne = z3.BoolVal(False)
        invariant("start of the layer")
    def ghavoc(vals, k):
        install("gate"); f = Fn("us"); E.touch(st["u"])
        if parallel: st["u"].f, st["u"].ne = f, fresh("une", B)
        else: st["u"].f, st["u"].ne = (lambda q: z3.BoolVal(False)), z3.BoolVal(False)
        st["uf"] = st["u"].f; st["k"] = k
        a, b = GA(st["l"], k), GB(st["l"], k); st["a"], st["b"] = a, b
        st["busy"] = lambda q: z3.Or(q == a, q == b)     # refined below for one-qubit gates
        return {}
    def gstep(old, new, k, how):
        c.ob("the gate loop goes on", how == "next")
        g, s = st["g"], st["p"]; a, b = st["a"], st["b"]
        kind = st["gate"].kind
        if kind is None: c.ob("the kind of the gate matters", False); return
        ini, pen = g["ini"], g["pen"]
        def decide(t): return True if E.entails(t) else False if E.entails(z3.Not(t)) else None
        qs = {"h": [a], "cx": [a, b], "measure": [a]}[kind]
        d = [(decide(ini(q)), decide(pen(q))) for q in qs]
        # expected operations per qubit
        def prep(q, i, w):
            if i: return []
            if w is None: return None
            return [("H", [q], []), ("Z_ERROR", [q], [noise])] if w else [("X_ERROR", [q], [noise])]
        exp, idle = [], not parallel
        if kind == "h":
            i, w = d[0]
            if i is None: c.ob("Hadamard: preparation state is consulted", False); return
            if i: exp = [("H", [a], []), ("DEPOLARIZE1", [a], [noise])]
            else: idle = False
            wi, wp = (lambda q: ini(q)), (lambda q: z3.If(z3.And(q == a, z3.Not(ini(a))), z3.Not(pen(q)), pen(q)))
            inc = 0
        elif kind == "cx":
            for q, (i, w) in zip(qs, d):
                pr = prep(q, i, w) if i is not None else None
                if pr is None: c.ob("controlled-NOT: preparation state is consulted", False); return
                exp += pr
            exp += [("CX", [a, b], []), ("DEPOLARIZE2", [a, b], [p.t])]
            wi = lambda q: z3.Or(ini(q), q == a, q == b); wp = lambda q: z3.And(pen(q), q != a, q != b); inc = 0
        else:
            i, w = d[0]
            if w is None: c.ob("measurement: a waiting Hadamard is consulted", False); return
            exp = ([("H", [a], []), ("Z_ERROR", [a], [noise])] if w else []) + [("X_ERROR", [a], [noise]), ("MR", [a], [])]
            wi = lambda q: z3.And(ini(q), q != a); wp = lambda q: z3.And(pen(q), q != a); inc = 1
        got = [e for e in rec.ev if e[0] != "idle"]; ids = [n for n, e in enumerate(rec.ev) if e[0] == "idle"]
        lab = {"h": "Hadamard", "cx": "controlled-NOT", "measure": "measurement"}[kind]
        def same(x, y): return x[0] == y[0] and len(x[1]) == len(y[1]) and all(E.entails(u == v) for u, v in zip(x[1], y[1])) and len(x[2]) == len(y[2]) and all(eq_real(u, v) for u, v in zip(x[2], y[2]))
        ok = len(got) == len(exp)
        for q in qs:
            on = lambda L: [e for e in L if any(E.entails(t == q) for t in e[1])]
            x, y = on(got), on(exp); ok = ok and len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
        c.ob(f"{lab}: exactly this gate, its noise and due preparations are appended", ok)
        c.ob(f"{lab}: idle noise after the gate exactly when gates are sequential", (ids == [len(rec.ev) - 1]) if idle else not ids)
        obs(f"{lab}: prepared qubits", initf(), wi); obs(f"{lab}: waiting Hadamards", s["pend"].f, wp)
        if parallel:
            uf = st["uf"]; q = fresh("q"); E.ctxs.append(core.Ctx([]))
            try:
                E.assume(z3.And(q >= 0, q < N.t))
                c.ob(f"{lab}: used qubits", z3.Implies(initf()(q), st["u"].f(q) == z3.Or(uf(q), *([q == x for x in qs] if exp else []))))
                if exp: c.ob(f"{lab}: the layer acts", st["u"].ne)
            finally: E.ctxs.pop()
        else: c.ob(f"{lab}: no used qubits are collected", z3.Not(st["u"].ne))
        c.ob(f"{lab}: number of measurements", lift(o.n_measurements) == g["nm"] + inc)
        new_ = [s_ for l in (xs, zs) for s_ in l.segs[1:]]
        c.ob(f"{lab}: filed under one verification list", len(new_) == inc and all(s_[0] == "c" and E.entails(lift(s_[1]) == g["nm"]) for s_ in new_))
        if "measured" in s: obs(f"{lab}: measured qubits", lambda q: measf(q) > 0, lambda q: z3.Or(g["mc"](q) > 0, q == a) if inc else g["mc"](q) > 0)
        invariant(lab)
    class GHook(LoopHook):
        free = property(lambda self: self.frees, lambda self, v: None)
        def rule(self, rt, it, body, get, set_, names):
            self.frees = freevars(body)
            def run(gate):
                st["gate"] = gate; a, b = st["a"], st["b"]
                two = gate.name == "cx"           # path split on the kind of the gate
                st["busy"] = (lambda q: z3.Or(q == a, q == b)) if two else (lambda q: q == a)
                return body(gate)
            return LoopHook.rule(self, rt, it, run, get, set_, names)
    hg = GHook(c, "to_stim_circ", ginit, ghavoc, gstep)
    # ---- layers
    def linit(vals, n):
        st["vals"] = vals; c.ob("all layers", n == nl.t)
        s = parts()
        if not c.ob("bookkeeping: prepared qubits, waiting Hadamards", "init" in s and "pend" in s and "used" in s): raise PathEnd()
        st["p"] = s
        s["pend"].__class__ = Pend; s["pend"].cx = c; s["pend"].f = lambda q: z3.BoolVal(False)
        st["g"] = dict(app=lambda q: z3.BoolVal(False))
        c.ob("nothing appended before the first layer", not rec.ev)
        obs("no qubit is prepared at the start", initf(), lambda q: z3.BoolVal(False))
        invariant("start")
        c.ob("no used qubits at the start", E.entails(lift(s["used"].vc_len()) == 0))
    def lhavoc(vals, k):
        install("layer"); st["l"] = k
        u = Used(); u.f, u.ne = Fn("up"), fresh("upne", B)
        if not parallel: u.f, u.ne = (lambda q: z3.BoolVal(False)), z3.BoolVal(False)
        st["prev"] = u; st["busy"] = u.f
        nm = [n for n, v in vals.items() if v is st["p"]["used"]]
        return {nm[0]: u} if nm else {}
    def lstep(old, new, k, how):
        c.ob("the layer loop goes on", how == "next")
        invariant("end of the layer")
        c.ob("the used qubits of the layer are remembered", any(v is st["u"] for v in new.values()))
    hl = LoopHook(c, "to_stim_circ", linit, lhavoc, lstep)
    # the idle noise of the previous layer comes first
    def ginit2(vals, n):
        idle = [e for e in rec.ev if e[0] == "idle"]
        if parallel: c.ob("idle noise for the previous layer exactly once, if it acted", len(idle) == len(rec.ev) and (z3.And(st["prev"].ne, len(idle) == 1) if idle else z3.Not(st["prev"].ne)))
        else: c.ob("no idle noise between layers when gates are sequential", not rec.ev)
        ginit(vals, n)
    hg.init = ginit2
    # ---- qubits without gates
    def finit(vals, n):
        c.ob("all qubits are checked at the end", n == N.t); st["fg"] = dict(st["g"]); st["ev0"] = list(rec.ev)
        c.ob("nothing appended between layers and the end", not rec.ev)
    def fin(k):
        g = st["fg"]; need = lambda q: z3.And(z3.Not(g["ini"](q)), z3.Or(g["pen"](q), g["mc"](q) == 0))
        return need
    def fhavoc(vals, k):
        g = st["fg"]; s = st["p"]; need = fin(k)
        E.touch(s["init"]); s["init"].segs = [("s", N, lambda i: V(z3.Or(g["ini"](lift(i)), z3.And(lift(i) < k, need(lift(i))))))]
        E.touch(s["pend"]); s["pend"].f = lambda q: z3.And(g["pen"](q), q >= k)
        E.touch(rec); rec.ev = []; return {}
    def fstep(old, new, k, how):
        c.ob("the final loop goes on", how == "next")
        g, s = st["fg"], st["p"]; need = fin(k); ev = rec.ev
        def same(x, n, a): return x[0] == n and len(x[1]) == 1 and E.entails(x[1][0] == k) and len(x[2]) == len(a) and all(eq_real(u, v) for u, v in zip(x[2], a))
        if not ev: c.ob("qubits without a gate and waiting Hadamards are prepared", z3.Not(need(k)))
        elif len(ev) == 2: c.ob("a waiting Hadamard is appended with its noise", z3.And(need(k), g["pen"](k), same(ev[0], "H", []) and same(ev[1], "Z_ERROR", [noise])))
        else: c.ob("a qubit without a gate is prepared with its noise", z3.And(need(k), z3.Not(g["pen"](k)), len(ev) == 1 and same(ev[0], "X_ERROR", [noise])))
        obs("final: prepared qubits", initf(), lambda q: z3.Or(g["ini"](q), z3.And(q < k + 1, need(q))))
        obs("final: waiting Hadamards", s["pend"].f, lambda q: z3.And(g["pen"](q), q >= k + 1))
    hf = LoopHook(c, "to_stim_circ", finit, fhavoc, fstep)
    inner = Multi((lambda lid: "idle" in lid, hi), (lambda lid: True, hg))
    hl.inner = inner; hg.inner = Multi((lambda lid: "idle" in lid, hi)); hi.inner = None
    class Top:
        def get(self, lid, d=None):
            if lid.endswith("comp"): return None
            h = hf if st.get("layers_done") else hl
            def rule(*a):
                if h is hl:
                    try: r = h.rule(*a)
                    finally: E.loops = self
                    st["layers_done"] = True; return r
                try: return h.rule(*a)
                finally: E.loops = self
            return rule
    def thunk():
        st["layers_done"] = False; made.clear(); E.loops = Top(); E.touch(rec); rec.ev = []
        return o.to_stim_circ()
    def post(r):
        c.ob("layers, gates and remaining qubits have been processed", hl.hit >= 1 and hg.hit >= 1 and hf.hit >= 1)
        c.ob("one circuit, which is returned", made == [1] and r is rec)
        q = fresh("q"); E.assume(z3.And(q >= 0, q < N.t))
        c.ob("no Hadamard is left behind", z3.Not(st["p"]["pend"].f(q)))
        c.ob("every qubit appears in the circuit", z3.Or(initf()(q), st["fg"]["mc"](q) > 0))
    c.run(thunk, post, modifies=[o, rec, xs, zs])
for par_ in (True, False):
    def mk_(par_):
        @contract("C19", f"{SM}:{CL}.to_stim_circ", "parallel gates" if par_ else "sequential gates")
        def f(c): conv(c, par_, None)
    mk_(par_)

@contract("C19", f"{SM}:{CL}.measure_stabilizers")
def stabs(c):
    md = c.mod(SM); n, mx, mz = Nat("n", 1), Nat("mx"), Nat("mz"); Hx, Hz = binmat("Hx", mx, n), binmat("Hz", mz, n)
    SN, SF = z3.Function("SN", I, I, I), z3.Function("SF", I, I, I, I)         # size and members of the support of row r of matrix 0/1
    q, r, w = z3.Ints("sq sr sw")
    E.assume(z3.ForAll([w, r], SN(w, r) >= 0, patterns=[SN(w, r)]))
    E.assume(z3.ForAll([w, r, q], z3.And(SF(w, r, q) >= 0, SF(w, r, q) < n.t), patterns=[SF(w, r, q)]))
    st = {}
    def support(v):
        x = fresh("x"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(x >= 0, x < n.t)); H = Hx if st["w"] == 0 else Hz
            c.ob("the support of the row of this check", z3.And(lift(v._shape[0]) == n.t, v.at(x) == H.at(st["k"], x)))
        finally: E.ctxs.pop()
        W, k = z3.IntVal(st["w"]), st["k"]; return PList([("s", mk(SN(W, k)), lambda i: V(SF(W, k, lift(i))))])
    md._support = support
    code = c.obj("codes.css_code", "CSSCode", Hx=Hx, Hz=Hz, n=n)
    nq = z3.Int("nq0"); E.assume(nq >= n.t); rec = Rec(nq)
    xm, zm = PList([]), PList([]); nm0 = Nat("nm0")
    o = c.obj(SM, CL, code=code, stim_circ=rec, x_measurements=xm, z_measurements=zm, n_measurements=nm0, num_qubits=n)
    sv = [z3.Function("pastx", I, I), z3.Function("pastz", I, I)]
    def lens(w, k): return (k, z3.IntVal(0)) if w == 0 else (mx.t, k)
    def lst(w, k):
        a, b = lens(w, k)
        return [("s", mk(a), lambda i: V(nm0.t + lift(i)))], [("s", mk(b), lambda i: V(nm0.t + mx.t + lift(i)))]
    def is_(l, cnt, base):
        x = fresh("x"); E.ctxs.append(core.Ctx([]))
        try: E.assume(z3.And(x >= 0, x < cnt)); return z3.And(lift(l.vc_len()) == cnt, lift(l.get(V(x))) == base + x) if not E.entails(cnt == 0) else lift(l.vc_len()) == 0
        finally: E.ctxs.pop()
    def state(tag, w, k):
        a, b = lens(w, k)
        c.ob(tag + ": measurement counter", lift(o.n_measurements) == nm0.t + a + b)
        for l, cnt, base, nm in ((o.x_measurements, a, nm0.t, "X"), (o.z_measurements, b, nm0.t + mx.t, "Z")):
            x = fresh("x"); E.ctxs.append(core.Ctx([]))
            try:
                c.ob(f"{tag}: one record per {nm} check", lift(l.vc_len()) == cnt)
                E.assume(z3.And(x >= 0, x < cnt))
                if E.feasible(): c.ob(f"{tag}: records of the {nm} checks in order", lift(l.get(V(x))) == base + x)
            finally: E.ctxs.pop()
    def init(vals, cnt):
        st["w"] = w = h.hit - 1
        if w > 1: raise Unsupported("third loop")
        c.ob("all checks", cnt == (mx.t if w == 0 else mz.t)); state("before the loop", w, z3.IntVal(0)); c.ob("ancillas beyond the data qubits before the loop", rec.nq >= n.t)
    def havoc(vals, k):
        st["k"] = k; E.touch(rec); E.touch(o); rec.ev = []; rec.nq = fresh("nq"); E.assume(rec.nq >= n.t); st["nq"] = rec.nq
        a, b = lens(st["w"], k); E.touch(o.x_measurements); E.touch(o.z_measurements)
        o.x_measurements.segs, o.z_measurements.segs = lst(st["w"], k); o.n_measurements = mk(nm0.t + a + b); return {}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next"); w, anc = st["w"], st["nq"]; ev = rec.ev
        want = (["H", "couple", "MRX"], ["couple", "MRZ"])[w]; want2 = (["couple", "MRX"],)[0] if w == 0 else None
        names = [e[0] for e in ev]
        if c.ob("X check: ancilla in |+>, couplings, X measurement" if w == 0 else "Z check: couplings, Z measurement", names == want or (w == 1 and names == ["couple", "MR"])):
            c.ob("all on a new ancilla", z3.And(*[z3.And(len(e[1]) == 1, e[1][0] == anc) for e in ev if e[0] != "couple"]))
            c.ob("no noise", all(e[2] == [] for e in ev))
        c.ob("ancillas beyond the data qubits", rec.nq >= n.t); state("after a check", w, k + 1)
    def iinit(vals, cnt):
        c.ob("all qubits of the check", cnt == SN(z3.IntVal(st["w"]), st["k"])); st["ev"], st["nqi"] = list(rec.ev), rec.nq
    def ihavoc(vals, j):
        E.touch(rec); rec.ev = []; rec.nq = z3.If(st["nq"] + 1 > st["nqi"], z3.If(j > 0, st["nq"] + 1, st["nqi"]), st["nqi"]); return {}
    def istep(old, new, j, how):
        c.ob("the coupling loop goes on", how == "next"); d, a = SF(z3.IntVal(st["w"]), st["k"], j), st["nq"]
        ok = len(rec.ev) == 1 and rec.ev[0][0] in ("CX", "CNOT") and rec.ev[0][2] == [] and len(rec.ev[0][1]) == 2
        if c.ob("one coupling per qubit", ok): c.ob("ancilla controls an X check, data qubits control a Z check", z3.And(rec.ev[0][1][st["w"]] == a, rec.ev[0][1][1 - st["w"]] == d))
        c.ob("qubit count", rec.nq == z3.If(st["nq"] + 1 > st["nqi"], st["nq"] + 1, st["nqi"]))
    class Inner(LoopHook):
        def rule(self, *a):
            r = LoopHook.rule(self, *a); E.touch(rec); rec.ev = st["ev"] + [("couple", [], [])]; return r
    hi = Inner(c, "measure_stabilizers", iinit, ihavoc, istep)
    h = LoopHook(c, "measure_stabilizers", init, havoc, step, inner=hi)
    def start(): h.hit = 0; return o.measure_stabilizers()
    def post(r): c.ob("both kinds of checks", h.hit == 2); state("result", 1, mz.t)
    c.run(start, post, modifies=[o, rec, xm, zm])
for basis in ("z", "x"):
    def mk_(basis):
        @contract("C19", f"{SM}:{CL}.measure_{basis}")
        def f(c):
            n = Nat("n", 1); rec = Rec(Nat("nq")); nm = Nat("nm"); o = c.obj(SM, CL, stim_circ=rec, num_qubits=n, n_measurements=nm, data_measurements=PList([]))
            rec0 = nm.t
            def post(r):
                names = ("MRX", "MX") if basis == "x" else ("MRZ", "MR", "M", "MZ")
                if c.ob("one measurement operation without noise", len(rec.ev) == 1 and rec.ev[0][0] in names and rec.ev[0][2] == [] and isinstance(rec.ev[0][1], PList)):
                    t = rec.ev[0][1]; x = fresh("x"); E.assume(z3.And(x >= 0, x < n.t))
                    c.ob("all data qubits in order", z3.And(lift(t.vc_len()) == n.t, lift(t.get(V(x))) == x))
                d = seqs.as_plist(o.data_measurements); x = fresh("x"); E.assume(z3.And(x >= 0, x < n.t))
                c.ob("records of the data qubits in order", z3.And(lift(d.vc_len()) == n.t, lift(d.get(V(x))) == rec0 + x))
                c.ob("measurement counter", lift(o.n_measurements) == rec0 + n.t)
            def t(): E.touch(rec); rec.ev = []; return getattr(o, "measure_" + basis)()
            c.run(t, post, modifies=[o, rec])
    mk_(basis)
def assembled(c, o, log, code, zero, p, rec):
    c.ob("preparation, checks, data, in this order", log == ["circuit", "checks", "z" if zero else "x"])
    c.ob("of the circuit just converted", o.stim_circ is rec); c.ob("error rate", o.p is p or E.entails(lift(o.p) == p.t))
    c.ob("the code's qubits are measured", lift(o.num_qubits) == lift(code.n))
def stubs(c, cl, log, rec, st):
    def clean(o):
        for a in ("x_verification_measurements", "z_verification_measurements", "x_measurements", "z_measurements", "data_measurements"):
            l = seqs.as_plist(getattr(o, a)); c.ob("records are cleared before the conversion", E.entails(lift(l.vc_len()) == 0))
        c.ob("numbering starts at zero", lift(o.n_measurements) == 0); c.ob("noise of the requested strength", E.entails(lift(o.p) == st["p"].t))
    def conv_(o): clean(o); log.append("circuit"); return rec
    def ms(o): c.ob("checks are appended to the converted circuit", o.stim_circ is rec); log.append("checks")
    cl.to_stim_circ, cl.measure_stabilizers = conv_, ms
    cl.measure_z = lambda o: log.append("z"); cl.measure_x = lambda o: log.append("x")
for zero in (True, False):
    def mk_(zero):
        @contract("C19", f"{SM}:{CL}.set_p", "zero state" if zero else "plus state")
        def f(c):
            log, rec, st = [], object(), {"p": Real("p")}; cl = c.cls(SM, CL); stubs(c, cl, log, rec, st)
            class Code: pass
            code = Code(); code.n = Nat("n", 1); old = lambda: PList([("s", Nat("ol"), lambda i: V(lift(i)))])
            o = c.obj(SM, CL, code=code, zero_state=zero, p=Real("p_old"), num_qubits=Nat("nq"), stim_circ=object(), n_measurements=Nat("nm"), x_verification_measurements=old(), z_verification_measurements=old(), x_measurements=old(), z_measurements=old(), data_measurements=old())
            def t(): log.clear(); return o.set_p(st["p"])
            c.run(t, lambda r: assembled(c, o, log, code, zero, st["p"], rec), modifies=[o])
        @contract("C19", f"{SM}:{CL}.__init__", "zero state" if zero else "plus state")
        def g(c):
            log, rec, st = [], object(), {"p": Real("p")}; cl = c.cls(SM, CL); stubs(c, cl, log, rec, st); md = c.mod(SM)
            md.LutDecoder = lambda cd: ("lut", cd)
            class Stim:
                def Circuit(self): return object()
            md.stim = Stim()
            class Code: pass
            class Circ: num_qubits = Nat("nq")
            code, circ = Code(), Circ(); code.n = Nat("n", 1); code.Hx = code.Hz = object()
            def t(): log.clear(); return cl(circ, code, st["p"], zero, True)
            def post(o):
                assembled(c, o, log, code, zero, st["p"], rec)
                c.ob("the arguments are kept", o.circ is circ and o.code is code and o.zero_state is zero and o.parallel_gates is True); c.ob("decoder of this code", o.decoder == ("lut", code))
            c.run(t, post, frame=False)
            none = Code(); none.n = Nat("n"); none.Hx, none.Hz = None, object()
            c.run(lambda: cl(circ, none, st["p"], zero), lambda r: c.ob("a code without X checks is rejected", False), lambda e: c.ob("error for missing checks", type(e).__name__ == "InvalidCSSCodeError"), frame=False)
    mk_(zero)

for zero in (True, False):
    def mk_(zero):
        @contract("C19", f"{SM}:{CL}._simulate_batch", "zero state" if zero else "plus state")
        def f(c):
            n, k, mc, M, S = Nat("n", 1), Nat("k", 1), Nat("mc", 1), Nat("M", 1), Nat("S", 1)
            ev = binmat("ev", S, M); rx, rz = Nat("rx"), Nat("rz")
            XV, ZV, D0, C0 = z3.Function("XV", I, I), z3.Function("ZV", I, I), Nat("D0"), Nat("C0"); q = z3.Int("q")
            E.assume(z3.ForAll([q], z3.And(XV(q) >= 0, XV(q) < M.t), patterns=[XV(q)])); E.assume(z3.ForAll([q], z3.And(ZV(q) >= 0, ZV(q) < M.t), patterns=[ZV(q)]))
            E.assume(z3.And(D0.t + n.t <= M.t, C0.t + mc.t <= M.t))
            L = binmat("L", k, n); asked = []
            class Dec:
                def dec(self, kind, s):
                    asked.append((kind, s.snapshot())); return sym_array("EST", (s._shape[0], n), binary=True)
                def batch_decode_x(self, s): return self.dec("x", s)
                def batch_decode_z(self, s): return self.dec("z", s)
            class Sam:
                def sample(self, shots): c.ob("the requested number of shots", lift(shots) == S.t); return ev.copy()
            class Cir:
                def compile_sampler(self): return Sam()
            class Code: pass
            code = Code(); code.Lz, code.Lx = (L, None) if zero else (None, L)
            other = PList([("s", Nat("oth"), lambda i: V(lift(i)))])
            chk = PList([("s", mc, lambda i: mk(C0.t + lift(i)))])
            o = c.obj(SM, CL, stim_circ=Cir(), code=code, decoder=Dec(), zero_state=zero, x_verification_measurements=PList([("s", rx, lambda i: V(XV(lift(i))))]), z_verification_measurements=PList([("s", rz, lambda i: V(ZV(lift(i))))]),
                      data_measurements=PList([("s", n, lambda i: mk(D0.t + lift(i)))]), z_measurements=chk if zero else other, x_measurements=other if zero else chk)
            def acc(s): 
                a, b = z3.Int("va"), z3.Int("vb")
                return z3.And(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < rx.t), ev.at(s, XV(a)) == 0)), z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < rz.t), ev.at(s, ZV(b)) == 0)))
            st = {"acc": acc}
            def t(): asked.clear(); return o._simulate_batch(S)
            def post(r):
                e, d = r; x = fresh("x"); sel = None
                E.ctxs.append(core.Ctx([]))
                try:                                     # the rows kept by the code, identified by their meaning
                    E.assume(z3.And(x >= 0, x < S.t))
                    for cnt_, f_, inv_, g_, x_, (nt_, lam_, ctx_) in list(E.__dict__.get("sel_memo", {}).values()):
                        if not ctx_ and E.entails(nt_ == S.t) and E.entails(z3.substitute(g_, (x_, x)) == acc(x)): sel = (cnt_, f_)
                finally: E.ctxs.pop()
                if not c.ob("runs are kept exactly if no verification measurement flagged", sel is not None): return
                cnt, f_ = sel
                c.ob("discarded runs", lift(d) == S.t - cnt)
                if E.entails(cnt == 0): c.ob("no run left: nothing to report", lift(e) == 0); return
                if not c.ob("accepted runs are decoded once, for the errors that matter", len(asked) == 1 and asked[0][0] == ("x" if zero else "z")): return
                sy = asked[0][1]; i, j, l, y = fresh("i"), fresh("j"), fresh("l"), fresh("y")
                E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(i >= 0, i < cnt, j >= 0, j < mc.t))
                    c.ob("syndromes come from the check records in order", z3.And(lift(sy._shape[0]) == cnt, lift(sy._shape[1]) == mc.t, sy.at(i, j) == ev.at(f_(i), C0.t + j)))
                finally: E.ctxs.pop()
                EST = z3.Function("EST", I, I, B); est = sym_array("EST", (cnt, n), binary=True); l = z3.Int("ol")
                fail = lambda a: z3.Exists([l], z3.And(l >= 0, l < k.t, z3.Xor(par(0, n.t, lambda b: z3.And(L.at(l, b) == 1, ev.at(f_(a), D0.t + b) == 1)), par(0, n.t, lambda b: z3.And(L.at(l, b) == 1, est.at(a, b) == 1)))))
                same_term(c, "failures are the accepted runs whose corrected data (record plus estimate) violate a logical operator", e, ssum(0, cnt, lambda a: b01(fail(a))))
            c.run(t, post, frame=False)
    mk_(zero)
for atleast in (False, True):
    def mk_(atleast):
        @contract("C19", f"{SM}:{CL}.logical_error_rate", "until enough errors" if atleast else "fixed number of shots")
        def f(c):
            shots, per, me, k = Nat("shots", 1), Nat("per", 1), Nat("min_errors"), Nat("k", 1); tot = {}
            gen = []
            class Dec:
                def generate_x_lut(self): gen.append("x")
                def generate_z_lut(self): gen.append("z")
            class Code: pass
            code = Code(); code.k = k; batch = z3.If(per.t < shots.t, per.t, shots.t); zero = Bool("zero")
            o = c.obj(SM, CL, zero_state=zero, decoder=Dec(), code=code)
            class Tot:
                """ghost: batches so far, failures, accepted runs"""
                def __init__(s): s.n = s.e = s.a = z3.IntVal(0); s._vc_born = born()
                def _vc_save(s): return s.n, s.e, s.a
                def _vc_load(s, v): s.n, s.e, s.a = v
            T = Tot()
            def sim(sh):
                c.ob("a batch of the announced size", lift(sh) == batch); e, d = fresh("be"), fresh("bd")
                E.assume(z3.And(e >= 0, d >= 0, e + d <= batch)); E.touch(T); T.n, T.e, T.a = T.n + 1, T.e + e, T.a + batch - d; return V(e), V(d)
            o._simulate_batch = sim
            nb = z3.If(shots.t % batch == 0, shots.t / batch, shots.t / batch + 1); st = {}
            def vars_(vals):
                out = {}
                for nme, v in vals.items():
                    if isinstance(v, (int, V)) and not isinstance(v, bool): out[nme] = lift(v)
                return out
            # the counters of the code are found by their meaning: they follow the totals after every batch
            def init(vals, *a): st["z"] = [n_ for n_, v in vals.items() if isinstance(v, (int, V)) and not isinstance(v, bool) and lift(v).sort() == I]; c.ob("nothing simulated before the first batch", E.entails(T.n == 0))
            NAMES = dict(i="n", num_logical_errors="e", num_accepted="a")
            def fresh_(vals):
                E.touch(T); T.n, T.e, T.a = fresh("tn"), fresh("te"), fresh("ta")
                E.assume(z3.And(T.n >= 0, T.e >= 0, T.a >= 0, T.a <= T.n * batch, T.e <= T.a))
                return {nme: mk(getattr(T, f)) for nme, f in NAMES.items() if nme in vals}
            def check(tag, vals):
                for nme, f in NAMES.items():
                    if nme in vals: c.ob(f"{tag}: {nme}", lift(vals[nme]) == getattr(T, f))
            def init2(vals): init(vals); check("start", vals)
            def havoc(vals):
                r = fresh_(vals)
                if not atleast: E.assume(T.n <= nb)
                return r
            def step(old, new):
                check("next", new)
                if not atleast: c.ob("not more batches than requested", T.n <= nb)
                else: c.ob("goes on while errors are missing", T.e < me.t)
            def left(old, new): check("left", new); c.ob("left early only with enough errors", T.e >= me.t if atleast else False); c.ob("at least one batch", T.n >= 1)
            def hleft(vals):
                r = fresh_(vals); E.assume(z3.And(T.n >= 1, T.e >= me.t if atleast else False)); return r
            h = WhileHook(c, "logical_error_rate", init2, havoc, step, leave=(left, hleft))
            def t(): gen.clear(); E.touch(T); T._vc_load((z3.IntVal(0),) * 3); return o.logical_error_rate(shots, per, atleast, me)
            def post(r):
                c.ob("the lookup table of the state is there", gen == ["x" if E.entails(zero.t) else "z"])
                pl, ra, ne, ns = r; R_ = lambda x: A.cast(lift(x), "f")
                c.ob("number of failures", lift(ne) == T.e); c.ob("number of runs", lift(ns) == T.n * batch)
                if not atleast: c.ob("as many batches as cover the shots", T.n == nb)
                c.ob("rate is failures over accepted runs, per logical qubit", z3.Implies(T.a > 0, R_(pl) * z3.ToReal(k.t) * z3.ToReal(T.a) == z3.ToReal(T.e)))
                c.ob("no accepted run: rate zero", z3.Implies(T.a == 0, R_(pl) == 0))
                c.ob("acceptance rate", R_(ra) * z3.ToReal(T.n * batch) == z3.ToReal(T.a))
            c.run(t, post, modifies=[T])
    mk_(atleast)
@contract("C19", f"{SM}:_support")
def supp(c):
    n = Nat("n"); v = binvec("v", n)
    def post(r):
        x, y = fresh("x"), fresh("y"); cnt = lift(r._shape[0]) if isinstance(r, SArr) else lift(seqs.as_plist(r).vc_len())
        get = (lambda i: r.at(i)) if isinstance(r, SArr) else (lambda i: lift(seqs.as_plist(r).get(V(i))))
        c.ob("number of members", cnt == ssum(0, n.t, lambda i: b01(v.at(i) != 0)))
        E.assume(z3.And(x >= 0, x < y, y < cnt))
        c.ob("members are positions with a one, in increasing order", z3.And(get(x) >= 0, get(y) < n.t, v.at(get(x)) != 0, v.at(get(y)) != 0, get(x) < get(y)))
    c.run(lambda: c.mod(SM)._support(v), post)
