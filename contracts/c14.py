from contracts.lib import *
SP = "ft_stateprep.state_prep"
NOTES = dict(
    trusted=["qiskit QuantumCircuit.h/cx/num_qubits, DAG depth: recorded as ghost operations", "z3 (as used by the code): a formula is its truth value under the returned model; entries that occur in no constraint stay unassigned (None); Solver.check/model", "ldpc.mod2.rank, row_echelon", "numpy masked arrays: argmin over the unmasked entries, .all over the mask", "multiprocess.Process/Queue: the child puts at most one result"],
    assumptions=["adding column i to column j of the checks is the action of one CNOT on the check space; the recorded additions undone in reverse order give the circuit", "when only rank-many columns of the reduced checks are non-zero, the row space consists of all vectors supported there (dimension count)", "disjoint additions of one layer may be applied one after the other", "no more than n qubits can be used in one layer (pigeonhole)", "gate-optimal search: at least two qubits"],
    outside=["optimality of the circuits (only correctness of the returned circuit is a property)", "termination of the search (the time limit is the caller's)"],
    explanation="the heuristic loop is proved with a ghost history of column additions: every change of the matrix is one addition and is recorded as one CNOT; the loop may only end when the remaining columns are as many as the rank; the circuit builder is proved to put Hadamards exactly on the free columns and the CNOTs in reverse. The optimal synthesis is proved on the constraints it hands to z3: any model of them is a sequence of column additions that ends in a matrix with rank-many non-zero columns, and the extraction of the model yields exactly these CNOTs.")
class Hist(PList):
    """ghost list: in the loop only its set of entries (distinct, in range) and its length are known"""
    def setup(self, n):
        self.n = n; self.new = []; U = z3.Function(fresh("U").decl().name(), I, B); self.U = U; self.ln = fresh("len"); q0 = fresh("q0"); q1 = fresh("q1"); q = z3.Int("hq")
        E.assume(z3.And(self.ln >= 0, self.ln <= n))
        # distinct entries from 0..n-1: all of them are there exactly if the length is n, none exactly if it is 0
        E.assume(z3.Implies(self.ln != n, z3.And(q0 >= 0, q0 < n, z3.Not(U(q0)))))
        E.assume(z3.Implies(self.ln != 0, z3.And(q1 >= 0, q1 < n, U(q1))))
        E.assume(z3.Implies(self.ln == n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), U(q)), patterns=[U(q)])))
        E.assume(z3.Implies(self.ln == 0, z3.ForAll([q], z3.Not(U(q)), patterns=[U(q)])))
        self.gone = [q0]
        return self
    def _vc_save(self): return list(self.segs), list(self.new)
    def _vc_load(self, s):
        if isinstance(s, tuple): self.segs, self.new = list(s[0]), list(s[1])
        else: self.__class__ = PList; self.segs = list(s)
    def vc_len(self):
        if self.new: raise Unsupported("length after an append")
        return V(self.ln)
    __vc_len__ = vc_len
    def __bool__(self): return bool(mk(self.ln > 0))
    def vc_member(self, t):
        if self.new: raise Unsupported("use after an append")
        return self.U(t)
    def append(self, x): E.touch(self); self.new = self.new + [x]
    def extend(self, xs):
        for x in seqs.as_plist(xs).concrete(): self.append(x)
    def get(self, i): raise Unsupported("entry of a ghost list")
class Masked:
    def __init__(self, a, m): self.a, self.m = a.snapshot(), m.snapshot()
    def __ge__(self, v): return Geq(self, v)
class Geq:
    def __init__(self, ma, v): self.ma, self.v = ma, v
class Arg:
    def __init__(self, ma): self.ma = ma
def masked_np(n):
    """numpy with masked arrays: all(), argmin()"""
    base = np
    class MA:
        @staticmethod
        def array(a, mask=None): return Masked(a, mask)
        masked_array = array
    class NPX:
        ma = MA
        def __getattr__(self, a): return getattr(base, a)
        @staticmethod
        def all(x, axis=None):
            if not isinstance(x, Geq): return base.all(x, axis)
            ma = x.ma; r = fresh("allge", B); a, b, e, f = (fresh(t) for t in "abef"); v = lift(x.v)
            un = lambda i, j: z3.And(i >= 0, i < n, j >= 0, j < n, z3.Not(to_bool(ma.m.at(i, j))))
            w = un(e, f)         # (e, f): an unmasked position if there is any
            E.assume(z3.ForAll([a, b], z3.Implies(un(a, b), w)))
            ma.any = w; ma.wit = []
            for q in MEMB: E.assume(z3.Implies(un(q, q), w))
            E.assume(z3.Implies(r, z3.And(w, z3.ForAll([a, b], z3.Implies(un(a, b), ma.a.at(a, b) >= v)))))
            s, t = fresh("s"), fresh("t"); ma.wit.append((s, t))
            E.assume(z3.Implies(z3.Not(r), z3.Or(z3.Not(w), z3.And(un(s, t), ma.a.at(s, t) < v))))
            ma.un = un
            return mk(r)
        @staticmethod
        def argmin(x):
            if not isinstance(x, Masked): return base.argmin(x)
            return Arg(x)
        @staticmethod
        def unravel_index(x, shape):
            if not isinstance(x, Arg): return base.unravel_index(x, shape)
            ma = x.ma; i, j = fresh("mi"), fresh("mj"); a, b = fresh("a"), fresh("b")
            un = lambda i, j: z3.And(i >= 0, i < n, j >= 0, j < n, z3.Not(to_bool(ma.m.at(i, j))))
            E.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            for s, t in getattr(ma, "wit", []): E.assume(z3.Implies(un(s, t), z3.And(un(i, j), ma.a.at(i, j) <= ma.a.at(s, t))))
            E.assume(z3.ForAll([a, b], z3.Implies(un(a, b), z3.And(un(i, j), ma.a.at(i, j) <= ma.a.at(a, b)))))
            return (V(i), V(j))
    return NPX()
MEMB = []
def same_mat(c, name, got, m, n, spec):
    return arr_is(c, name, got, (V(m), V(n)), spec)
def heur(zero, depth):
    @contract("C14", SP + ":heuristic_prep_circuit", f"every step is a column addition recorded as a CNOT ({'zero' if zero else 'plus'} state, {'depth' if depth else 'gates'})")
    def f(c):
        MEMB.clear()
        md = c.mod(SP); m, n = Nat("m", 1), Nat("n", 1); H = binmat("H", m, n); other = binmat("Hother", Nat("m2", 1), n)
        H0 = H.snapshot(); md.np = masked_np(n.t); reech = []; built = []; spc = []
        class M2:
            def __getattr__(self, a): return getattr(mod2, a)
            def rank(self, M): return mod2.rank(M)
            def row_echelon(self, M, full=False):
                E.trust("ldpc.mod2.row_echelon(M, full)[0]: a matrix of the same shape and row space as M (columns in place)")
                R = binmat(fresh("ech").decl().name(), *M._shape); reech.append((M.snapshot(), R, R.snapshot())); return (R, models.Opaque("rank"), models.Opaque("t"), models.Opaque("p"))
        md.mod2 = M2(); code = c.obj("codes.css_code", "CSSCode", Hx=H if zero else other, Hz=other if zero else H)
        class Out: pass
        def build(cnots, checks, zero_state=True): built.append((cnots, checks.snapshot(), zero_state)); return Out
        md._build_circuit_from_list_and_checks = build
        def sp(circ, code_, zero_state=True, error_detection_code=False): spc.append((circ, code_, zero_state, error_detection_code)); return ("prep", len(spc))
        md.StatePrepCircuit = sp
        st = {}
        def mats(vals):
            out = {}
            for k, v in list(vals.items()) + [(k, v) for k, v in h.free.items() if k not in vals]:
                if isinstance(v, SArr) and v.ndim == 2: out[k] = v
            return out
        def dims(v, a, b): return bool(E.entails(z3.And(lift(v._shape[0]) == a, lift(v._shape[1]) == b)))
        def diag1(name, v):
            q = fresh("dq"); E.ctxs.append(core.Ctx([]))
            try: E.assume(z3.And(q >= 0, q < n.t)); c.ob(name, lift(v.at(q, q)) == 1)
            finally: E.ctxs.pop()
        def init(vals):
            ms = mats(vals); ck = [k for k, v in ms.items() if v.kind == "i" and dims(v, m.t, n.t)]; cs = [k for k, v in ms.items() if v.kind == "i" and dims(v, n.t, n.t)]
            if not c.ob("a working copy of the checks and the costs", len(ck) == 1 and len(cs) <= 1): raise PathEnd()
            st["ck"], st["cs"] = ck[0], cs
            if not c.ob("the checks of the code are not modified", ms[ck[0]] is not H and ms[ck[0]].root() is not H): raise PathEnd()
            same_mat(c, "it starts as the checks", ms[ck[0]], m.t, n.t, lambda i, j: H0.at(i, j))
            for k in cs: diag1("costs on the diagonal", ms[k])
            st["lists"] = {k: v for k, v in list(vals.items()) + list(h.free.items()) if isinstance(v, PList) and v.is_concrete()}
            c.ob("nothing recorded before the first step", all(len(v.segs) == 0 for v in st["lists"].values()))
        def havoc(vals):
            out = {}; X = z3.Function(fresh("CK").decl().name(), I, I, B); cst = z3.Function(fresh("COST").decl().name(), I, I, I); st["M"] = X
            fs = {st["ck"]: (lambda i, j: z3.If(X(i, j), z3.IntVal(1), z3.IntVal(0)))}
            for k in st["cs"]: fs[k] = lambda i, j: z3.If(i == j, z3.IntVal(1), cst(i, j))
            ms = mats(vals)
            for k, fn in fs.items():
                if k in vals: out[k] = SArr(ms[k]._shape, fn, "i")
                else: ms[k].update(lambda idx, old, fn=fn: fn(*idx))
            st["h"] = {}
            for k, v in st["lists"].items():
                if k in vals: g = PList(); out[k] = g
                else: g = v
                E.touch(g); g.__class__ = Hist; g.setup(n.t); st["h"][k] = g; MEMB.extend(g.gone)
            reech.clear()
            return out
        def step(old, new):
            M = st["M"]; ms = mats(new); ck = ms[st["ck"]]; cn = []
            for k, g in st["h"].items():
                cur = new.get(k, g)
                if cur is not g:
                    c.ob("only the list of used qubits is emptied", isinstance(cur, PList) and len(cur.segs) == 0 and not isinstance(cur, Hist) and not g.new and k != st.get("cnots"))
                    continue
                pairs = [x for x in g.new if isinstance(x, tuple)]; ints = [x for x in g.new if not isinstance(x, tuple)]
                if not c.ob("one kind of entry per list", not (pairs and ints)): return
                if pairs: cn += pairs; st["cnots"] = k
                seen = []
                for x in ints:
                    if not c.ob("qubit indices", isinstance(x, (V, int))): return
                    c.ob("a used qubit is a new one", z3.And(rng(x, n), z3.Not(g.U(lift(x))), *[lift(x) != lift(y) for y in seen])); seen.append(x)
            for k in st["cs"]:
                if isinstance(ms.get(k), SArr): diag1("costs on the diagonal after the step", ms[k])
            if not c.ob("at most one CNOT per step", len(cn) <= 1): return
            ez = lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0))
            if cn:
                i, j = cn[0]
                c.ob("a CNOT joins two different qubits", z3.And(rng(i, n), rng(j, n), lift(i) != lift(j)))
                c.ob("no other change of the checks in a CNOT step", not reech)
                same_mat(c, "a CNOT i -> j is recorded with the addition of column i to column j", ck, m.t, n.t, lambda a, b: ez(z3.Xor(M(a, b), z3.And(b == lift(j), M(a, lift(i))))))
            elif reech:
                if not c.ob("one row reduction", len(reech) == 1): return
                src, R, r0 = reech[0]
                same_mat(c, "of the current checks", src, m.t, n.t, lambda a, b: ez(M(a, b)))
                same_mat(c, "row reduction keeps the row space", ck, m.t, n.t, lambda a, b: r0.at(a, b))
            else: same_mat(c, "the checks change only with a CNOT or a row reduction", ck, m.t, n.t, lambda a, b: ez(M(a, b)))
        h = WhileHook(c, "heuristic_prep_circuit", init, havoc, step)
        def post(r):
            c.ob("the loop has run", h.hit == 1); M = st["M"]
            if not c.ob("one circuit is built", len(built) == 1 and len(spc) == 1): return
            cn, ck, z = built[0]
            c.ob("from the recorded CNOTs", isinstance(cn, Hist) and any(cn is g for k, g in st["h"].items() if k == st.get("cnots", k)) and not cn.new)
            same_mat(c, "and the final checks", ck, m.t, n.t, lambda a, b: z3.If(M(a, b), z3.IntVal(1), z3.IntVal(0)))
            c.ob("for the requested state", E.entails(to_bool(lift(z)) == z3.BoolVal(zero)))
            circ, cd, z, ed = spc[0]
            c.ob("the result is the circuit for this code and state", r == ("prep", 1) and circ is Out and cd is code and bool(E.entails(to_bool(lift(z)) == z3.BoolVal(zero))))
            zc = lambda q: z3.Not(z3.Exists([z3.Int("ra")], z3.And(z3.Int("ra") >= 0, z3.Int("ra") < m.t, M(z3.Int("ra"), q))))
            c.ob("as many columns are left as the rank of the checks", ssum(0, n.t, lambda q: b01(zc(q))) == n.t - lift(gf2.rank(H0)))
        c.run(lambda: c.fn()(code, depth, zero), post, frame=True)
for zero in (True, False):
    for depth in (True, False): heur(zero, depth)
class Circ:
    """recording circuit: ops is the list of (name, first, second) in order"""
    def __init__(self, n): self.n = n; self.ops = PList([])
    num_qubits = property(lambda s: s.n)
    def h(self, q): self.ops.append(("h", q, q))
    def cx(self, a, b): self.ops.append(("cx", a, b))
    cnot = cx
for zero in (True, False):
    def mkb(zero):
        @contract("C14", SP + ":_build_circuit_from_list_and_checks", f"Hadamards, then the recorded CNOTs backwards ({'zero' if zero else 'plus'} state)")
        def f(c):
            md = c.mod(SP); m, n, L = Nat("m", 1), Nat("n", 1), Nat("L"); K = binmat("K", m, n); ci, cj = z3.Function("ci", I, I), z3.Function("cj", I, I)
            q = z3.Int("q"); E.assume(z3.ForAll([q], z3.And(ci(q) >= 0, ci(q) < n.t, cj(q) >= 0, cj(q) < n.t, ci(q) != cj(q)), patterns=[ci(q)]))
            E.assume(z3.ForAll([q], z3.And(cj(q) >= 0, cj(q) < n.t, ci(q) != cj(q)), patterns=[cj(q)]))
            md.QuantumCircuit = lambda k: Circ(k)
            cn = PList([("s", L, lambda i: (V(ci(lift(i))), V(cj(lift(i)))))])
            nz = lambda x: z3.Exists([z3.Int("ra")], z3.And(z3.Int("ra") >= 0, z3.Int("ra") < m.t, bit(K.at(z3.Int("ra"), x))))
            def post(r):
                if not c.ob("a circuit", isinstance(r, Circ)): return
                c.ob("on the qubits of the code", lift(r.n) == n.t)
                segs = [s for s in r.ops.segs if not (s[0] != "c" and E.entails(lift(s[1]) == 0))]
                item = lambda s, k: s[1] if s[0] == "c" else s[-1](V(k))
                kinds = [item(s, fresh("k"))[0] for s in segs]
                if "cx" not in kinds: c.ob("the recorded CNOTs", L.t == 0)
                nh = kinds.index("cx") if "cx" in kinds else len(kinds)
                if not c.ob("one layer of Hadamards, then CNOTs", nh == 1 and all(k == "cx" for k in kinds[nh:]) and segs[0][0] in "sf"): return
                s = segs[0]; k, k2, x = fresh("k"), fresh("k2"), fresh("x"); N = lift(s[1])
                on = lambda t: z3.And(t >= 0, t < N, to_bool(lift(s[2](V(t)))) if s[0] == "f" else z3.BoolVal(True)); val = lambda t: lift(s[-1](V(t))[1])
                want = (lambda t: nz(t)) if zero else (lambda t: z3.Not(nz(t)))
                def col(t):                     # column t has a one exactly if its sum is positive
                    S = ssum(0, m.t, lambda a: lift(K.at(a, t))); a = fresh("a")
                    E.assume(z3.Implies(S >= 1, nz(t))); E.assume(z3.Implies(nz(t), S >= 1))
                E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(on(k)); col(val(k)); c.ob("Hadamards only where the state has a free X value", z3.And(rng(V(val(k)), n), want(val(k))))
                    E.assume(on(k2)); c.ob("no second Hadamard on a qubit", z3.Implies(val(k) == val(k2), k == k2))
                finally: E.ctxs.pop()
                E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(rng(V(x), n)); E.assume(want(x)); col(x)
                    c.ob("every such qubit gets one", z3.Or(z3.And(on(x), val(x) == x), z3.Exists([k], z3.And(on(k), val(k) == x))))
                finally: E.ctxs.pop()
                if kinds[nh:]:
                    tot = sum((1 if y[0] == "c" else lift(y[1])) for y in segs[nh:])
                    if not c.ob("the CNOTs are one sequence", len(segs) == nh + 1 and segs[nh][0] == "s"): return
                    t = fresh("t"); E.assume(z3.And(t >= 0, t < L.t)); _, a, b = item(segs[nh], t); i, j = ci(L.t - 1 - t), cj(L.t - 1 - t)
                    c.ob("as many CNOTs as recorded", lift(segs[nh][1]) == L.t)
                    c.ob("the last recorded CNOT first, with the direction of the state", z3.And(lift(a) == (i if zero else j), lift(b) == (j if zero else i)))
            c.run(lambda: c.fn()(cn, K, zero), post)
    mkb(zero)
# ---- formulas: every z3 object is represented by its meaning under an arbitrary assignment of its variables
class G:
    __hash__ = None
    def __init__(self, t): self.t = t
    def __eq__(self, o): return G(self.t == gt(o))
    def __ne__(self, o): return G(self.t != gt(o))
    def __bool__(self): raise Unsupported("truth value of a formula")
    def vc_subst(self, pairs): return G(z3.substitute(self.t, *pairs))
def gt(x):
    if isinstance(x, G): return x.t
    if isinstance(x, (bool, V)): return to_bool(lift(x))
    raise Unsupported(f"not a formula: {type(x).__name__}")
def glist(xs):
    if len(xs) == 1 and not isinstance(xs[0], (G, V, bool)): xs = xs[0]
    return seqs.as_plist(xs) if not isinstance(xs, (Slots, tuple)) else xs
def quant(xs, univ):
    xs = glist(xs)
    if isinstance(xs, Slots): return xs.all(univ)
    if isinstance(xs, tuple): xs = PList.of(list(xs))
    out = []
    for s in xs.segs:
        if s[0] == "c": out.append(gt(s[1])); continue
        k = fresh("bq"); g = z3.And(k >= 0, k < lift(s[1]), *([to_bool(lift(s[2](V(k))))] if s[0] == "f" else [])); b = gt(s[-1](V(k)))
        out.append(z3.ForAll([k], z3.Implies(g, b)) if univ else z3.Exists([k], z3.And(g, b)))
    return (z3.And if univ else z3.Or)(*out) if out else z3.BoolVal(univ)
class Z3:
    """the z3 API used by the synthesis"""
    class BoolRef: pass
    def Not(self, a): return G(z3.Not(gt(a)))
    def Xor(self, a, b): return G(z3.Xor(gt(a), gt(b)))
    def And(self, *xs): return G(quant(xs, True))
    def Or(self, *xs): return G(quant(xs, False))
    def Implies(self, a, b): return G(z3.Implies(gt(a), gt(b)))
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return models.Opaque("z3." + a)
class Vec:
    """vector of formulas and truth values: entry i means val(i); isb(i): it is a plain truth value"""
    def __init__(self, n, val, isb, c): self.n, self.val, self.isb, self.c = n, val, isb, c
    def __vc_len__(self): return self.n
    def __getitem__(self, i):
        t = lift(i)
        if not self.c.ob("index within the vector", rng(i, self.n)): raise PathEnd()
        return V(self.val(t)) if bool(mk(self.isb(t))) else G(self.val(t))
    def __setitem__(self, i, x):
        if isinstance(x, G): self.c.ob("entries keep their kind", False)
        else: self.c.ob("the arguments keep their meaning", z3.And(self.isb(lift(i)), to_bool(lift(x)) == self.val(lift(i))))
    def vc_seq(self): return Seq(self.n, lambda i: G(self.val(lift(i))))
class Slots(PList):
    """list whose entries are set one after the other"""
    def _vc_save(self): return (list(self.segs), list(getattr(self, "w", [])))
    def _vc_load(self, s):
        if isinstance(s, tuple): self.segs, self.w = list(s[0]), list(s[1])
        else: self.__class__ = PList; self.segs = list(s)
    def __setitem__(self, i, x): E.touch(self); self.w = self.w + [(lift(i), x)]
    def get(self, i): raise Unsupported("entry of a list under construction")
    def all(self, univ):
        k = fresh("bq"); g = z3.And(k >= 0, k < lift(self.n)); b = self.means(k)
        return z3.ForAll([k], z3.Implies(g, b)) if univ else z3.Exists([k], z3.And(g, b))
def vecfun(fname):
    for same in (False, True):
        @contract("C14", SP + ":" + fname, fname + (": a vector with itself" if same else ": entry by entry, for formulas and plain truth values mixed"))
        def f(c, same=same):
            md = c.mod(SP); md.z3 = Z3(); n = Nat("n", 0)
            a, b = z3.Function("va", I, B), z3.Function("vb", I, B); ka, kb = z3.Function("ka", I, B), z3.Function("kb", I, B)
            v = Vec(n, a, ka, c); w = v if same else Vec(n, b, kb, c)
            if same: b = a
            spec = (lambda i: z3.Xor(a(i), b(i))) if fname == "_symbolic_vector_add" else (lambda i: a(i) == b(i))
            class NPX:
                def __getattr__(s, x): return getattr(np, x)
                @staticmethod
                def array(x, *r, **k): return x if isinstance(x, Slots) else np.array(x, *r, **k)
            md.np = NPX(); st = {}
            def init(vals, cnt):
                c.ob("all entries", cnt == n.t); ls = []
                for x in list(vals.values()) + list(h.free.values()):
                    if isinstance(x, PList) and not any(x is y for y in ls): ls.append(x)
                if not c.ob("one result list, of the length of the vectors", len(ls) == 1 and bool(E.entails(lift(ls[0].vc_len()) == n.t))): raise PathEnd()
                st["r"] = ls[0]
            def havoc(vals, k):
                r = st["r"]; E.touch(r); r.__class__ = Slots; r.w = []; r.segs = [("s", n, lambda i: False)]; r.n = n; r.means = spec; return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); w_ = st["r"].w
                if c.ob("entry k is set", len(w_) == 1): c.ob("to its meaning", z3.And(w_[0][0] == k, gt(w_[0][1]) == spec(k)))
            h = LoopHook(c, fname, init, havoc, step)
            def post(r):
                c.ob("one loop", h.hit == 1)
                if fname == "_symbolic_vector_add": c.ob("the vector of sums", isinstance(r, Slots) and r is st["r"])
                else:
                    q = fresh("q")
                    if c.ob("a formula", isinstance(r, G)): c.ob("all entries are equal", r.t == z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), spec(q))))
            c.run(lambda: c.fn()(v, w), post)
for fname in ("_symbolic_vector_add", "_symbolic_vector_eq"): vecfun(fname)
# ---- loops that only add constraints: the constraint of a generic iteration, for all iterations
class Sol:
    """z3.Solver: fs are the added constraints"""
    def __init__(self): self.fs = []; self._vc_born = born()
    def _vc_save(self): return list(self.fs)
    def _vc_load(self, s): self.fs = list(s)
    def add(self, *fs):
        E.touch(self)
        for f in fs:
            if isinstance(f, (PList, list, tuple)): self.fs = self.fs + [quant([f], True)]
            else: self.fs = self.fs + [gt(f)]
    append = add
    def check(self): return "sat" if E.choose(2) == 0 else ("unsat" if E.choose(2) == 0 else "unknown")
    def model(self): return Mdl()
class Conjs(PList):
    """list of formulas known only up to the meaning of their conjunction"""
    def vc_len(self): raise Unsupported("length of a list of constraints")
    def get(self, i): raise Unsupported("entry of a list of constraints")
class Mdl:
    """the model is the assignment under which formulas are read (unassigned variables read as false)"""
    def __getitem__(self, v):
        if isinstance(v, BV): return MV(v)
        if not isinstance(v, G): raise Unsupported("model value")
        t = v.t
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            if E.entails(t.arg(0)): t = t.arg(1)
            elif E.entails(z3.Not(t.arg(0))): t = t.arg(2)
            else: break
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: raise Unsupported("model value of a formula")
        return V(t)
class MV:
    def __init__(self, b): self.b = b
    def as_long(self): return V(self.b.t)
    def vc_subst(self, pairs): return MV(subst_bv(self.b, pairs))
class BV:
    """bit vector variable with value t, of PW(nb) values"""
    __hash__ = None
    def __init__(self, t, nb): self.t, self.nb = t, nb
    def vc_subst(self, pairs): return BV(z3.substitute(self.t, *pairs), self.nb)
    def other(self, o):
        if isinstance(o, BV): return o.t
        E.oblige_rt("constant fits the bit vector", z3.And(lift(o) >= 0, lift(o) < PW(lift(self.nb)))); return lift(o)
    def __eq__(self, o): return G(self.t == self.other(o))
    def __ne__(self, o): return G(self.t != self.other(o))
PW = z3.Function("PW", I, I)
BITAND = z3.Function("BITAND", I, I, I)
def fits(o, nb):
    c = C_CUR[0]; c.ob("constant fits the bit vector", z3.And(lift(o) >= 0, lift(o) < PW(lift(nb))))
C_CUR = [None]
class ConjLoops:
    """E.loops: summarise loops whose bodies only add constraints (to solvers or lists of constraints)"""
    def __init__(self, c): self.c = c; E.loops = self
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        seg = None
        if isinstance(it, PList): raise Unsupported("loop over a list")
        k = fresh("it"); out = {}; n = lift(it.n)
        def lose(): set_(tuple(v if isinstance(v, (PList, Sol)) else forget(v) for v in get()))
        def run():
            E.assume(z3.And(k >= 0, k < n)); lose(); return body(it.item(V(k)))
        def on(p):
            if p.exc is not None: self.c.ob("constraint loop: no exception", False); return
            if p.result is not loops.CONT: raise Unsupported("constraint loop left early")
            for q, (obj, old) in list(E.ctxs[-1].journal.items()):
                new = obj.fs if isinstance(obj, Sol) else obj.segs if isinstance(obj, PList) else None
                oldl = old
                if new is None: 
                    if isinstance(obj, SArr) and getattr(obj, "_vc_born", 0) > born0: continue
                    raise Unsupported(f"constraint loop changes {type(obj).__name__}")
                if getattr(obj, "_vc_born", 0) > born0: continue          # made in the body
                if len(new) < len(oldl) or any(a is not b for a, b in zip(new, oldl)): raise Unsupported("constraint loop removes constraints")
                add = new[len(oldl):]
                fs = add if isinstance(obj, Sol) else [quant([PList([s])], True) for s in add]
                g = z3.And(*p.pc[0:]) if p.pc else z3.BoolVal(True)
                out.setdefault(q, (obj, []))[1].append((list(p.pc), fs))
        born0 = born()
        E.explore(run, on); lose()
        for obj, alts in out.values():
            x = z3.Int(f"cj{next(CNT)}"); parts = []
            for pc, fs in alts:
                g = [t for t in pc if not z3.is_true(t)]
                b = z3.And(*fs) if len(fs) != 1 else fs[0]
                parts.append(z3.Implies(z3.And(*g), b) if g else b)
            b = z3.And(*parts) if len(parts) != 1 else parts[0]
            t = z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.substitute(b, (k, x))))
            E.touch(obj)
            if isinstance(obj, Sol): obj.fs = obj.fs + [t]
            else: obj.segs = obj.segs + [("c", G(t))]; obj.__class__ = Conjs
        return loops.CONT
import itertools
CNT = itertools.count()
def ground(t, cands, pos=True):
    """facts implied by t (ground instances of its universal quantifiers at the candidate terms)"""
    if z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1:
        out = []
        for x in cands: out += ground(z3.substitute_vars(t.body(), x), cands)
        return out
    if z3.is_and(t): return [f for a in t.children() for f in ground(a, cands)]
    if z3.is_implies(t): return [z3.Implies(t.arg(0), f) for f in ground(t.arg(1), cands)]
    return [t]
def occurrences(t, f, guards=()):
    """(guards, arguments) of every occurrence of f in t"""
    out = []
    if z3.is_quantifier(t):
        x = fresh("oq"); return occurrences(z3.substitute_vars(t.body(), x), f, guards)
    if not z3.is_app(t): return out
    if t.decl().eq(f): out.append((guards, t.children()))
    if z3.is_implies(t):
        out += occurrences(t.arg(0), f, guards); out += occurrences(t.arg(1), f, guards + (t.arg(0),)); return out
    if z3.is_and(t):
        ch = t.children(); free = [a for a in ch if not occurrences(a, f)]
        for a in ch: out += occurrences(a, f, guards + tuple(b for b in free if b is not a))
        return out
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        out += occurrences(t.arg(0), f, guards); out += occurrences(t.arg(1), f, guards + (t.arg(0),)); out += occurrences(t.arg(2), f, guards + (z3.Not(t.arg(0)),)); return out
    for a in t.children(): out += occurrences(a, f, guards)
    return out
class GArr:
    """array of formulas: fn gives the meaning of an entry"""
    __array_ufunc__ = None
    def __init__(self, shape, fn): self.shape, self.fn = tuple(shape), fn; self._vc_born = born()
    def _vc_save(self): return self.fn
    def _vc_load(self, s): self.fn = s
    def idx(self, k, d):
        t = lift(k); n = lift(self.shape[d])
        if z3.is_int_value(t) and t.as_long() < 0: t = simp(n + t)
        C_CUR[0].ob("index within the array of variables", z3.And(t >= 0, t < n)); return t
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = key + (slice(None),) * (len(self.shape) - len(key)); pos = []; shp = []
        for d, k in enumerate(key):
            if isinstance(k, slice):
                if k != slice(None): raise Unsupported("slice of variables")
                pos.append(None); shp.append(self.shape[d])
            else: pos.append(self.idx(k, d))
        f = self.fn
        def g(*ix):
            it = iter(ix); return f(*[next(it) if p is None else p for p in pos])
        if not shp: return G(f(*pos))
        return GArr(shp, g)
    def __setitem__(self, key, val):
        if not isinstance(key, tuple): key = (key,)
        key = key + (slice(None),) * (len(self.shape) - len(key)); fix = [(d, self.idx(k, d)) for d, k in enumerate(key) if not (isinstance(k, slice) and k == slice(None))]
        free = [d for d, k in enumerate(key) if isinstance(k, slice)]
        if not isinstance(val, SArr) or val.ndim != len(free): raise Unsupported("assignment of variables")
        val = val.snapshot(); C_CUR[0].ob("shape of the assigned matrix", z3.And(*[lift(a) == lift(self.shape[d]) for a, d in zip(val._shape, free)]))
        old = self.fn; E.touch(self)
        self.fn = lambda *ix: z3.If(z3.And(*[ix[d] == t for d, t in fix]), to_bool(val.at(*[ix[d] for d in free])), old(*ix)) if fix else to_bool(val.at(*ix))
    def __vc_len__(self): return self.shape[0]
    def vc_list(self):
        if len(self.shape) == 1: return PList([("s", mk(lift(self.shape[0])), lambda i: G(self.fn(lift(i))))])
        raise Unsupported("list of an array of variables")
    def vc_seq(self):
        if len(self.shape) != 1: raise Unsupported("iteration over an array of variables")
        return Seq(mk(lift(self.shape[0])), lambda i: G(self.fn(lift(i))))
    def vc_subst(self, pairs):
        f = self.fn
        def g(*idx):
            ph = [fresh("ph") for _ in idx]; return z3.substitute(z3.substitute(f(*ph), *pairs), *zip(ph, idx))
        return GArr(self.shape, g)
class Z3S(Z3):
    """variables by name, pseudo-Boolean constraints and the solver"""
    sat, unsat, unknown = "sat", "unsat", "unknown"
    def __init__(self): self.sols = []; self.vars = {}
    def key(self, name):
        p = text(name); ints = [lift(x[0]) for x in p if not isinstance(x, str)]
        pat = tuple(x if isinstance(x, str) else 0 for x in p)
        if any(a == 0 and b == 0 for a, b in zip(pat, pat[1:])) or pat[:1] == (0,) or any(isinstance(x, str) and x[-1:].isdigit() for x in pat): raise Unsupported(f"variable names {pat} may coincide")
        for q in self.vars:
            if q != pat and [x for x in q if x != 0][:1] == [x for x in pat if x != 0][:1] : raise Unsupported("variable names may coincide")
        return pat, ints
    def fun(self, name, srt):
        pat, ints = self.key(name); f = z3.Function("var:" + "#".join(str(x) for x in pat), *([I] * len(ints)), srt); self.vars[pat] = f; return f(*ints)
    def Bool(self, name): return G(self.fun(name, B))
    def BitVec(self, name, nb):
        if not WIDTH: WIDTH.append(nb)
        if WIDTH[0] is not nb and not E.entails(lift(WIDTH[0]) == lift(nb)): raise Unsupported("bit vectors of different width")
        return BV(self.fun(name, I), nb)
    def ULT(self, a, b):
        fits(b, a.nb); return G(a.t < lift(b))
    def Solver(self): s = Sol(); self.sols.append(s); return s
    def pb(self, xs):
        xs = glist(xs if isinstance(xs, tuple) else (xs,)); segs = []
        for s in xs.segs:
            if s[0] == "c": xs_ = [s]
            segs.append(s)
        def ent(s, k):
            v = s[1] if s[0] == "c" else s[-1](V(k))
            if not isinstance(v, tuple) or not E.entails(lift(v[1]) == 1): raise Unsupported("weighted constraint")
            return gt(v[0])
        def on(s, k): return z3.BoolVal(True) if s[0] == "c" else z3.And(k >= 0, k < lift(s[1]), *([to_bool(lift(s[2](V(k))))] if s[0] == "f" else []))
        return segs, ent, on
    def PbEq(self, xs, r):
        segs, ent, on = self.pb(xs); tot = z3.IntVal(0)
        for s in segs:
            if s[0] == "c": tot = tot + b01(ent(s, None))
            else: tot = tot + ssum(0, s[1], lambda q, s=s: b01(z3.And(to_bool(lift(s[2](V(q)))), ent(s, q)) if s[0] == "f" else ent(s, q)))
        return G(tot == lift(r))
    def PbLe(self, xs, r):
        if not E.entails(lift(r) == 1): raise Unsupported("bound other than one")
        segs, ent, on = self.pb(xs); out = []; k, l = (z3.Int(f"pb{next(CNT)}") for _ in "ab")
        for a in range(len(segs)):
            for b in range(a, len(segs)):
                ne = [k != l] if a == b else []
                if a == b and segs[a][0] == "c": continue
                out.append(z3.ForAll([k], z3.ForAll([l], z3.Implies(z3.And(*ne, on(segs[a], k), on(segs[b], l)), z3.Not(z3.And(ent(segs[a], k), ent(segs[b], l)))))))
        return G(z3.And(*out))
def garr_of(x):
    """array of formulas from nested lists of formulas, or None"""
    dims = []; y = x
    while isinstance(y, PList):
        if isinstance(y, Conjs) or not y.segs: return None
        dims.append(y.vc_len()); y = y.probe()
    if isinstance(y, GArr): return None
    if not isinstance(y, G): return None
    def fn(*idx):
        y = x
        for i in idx: y = y.get(V(i))
        return gt(y)
    return GArr(dims, fn)
def setup14(c, n):
    md = c.mod(SP); z = Z3S(); md.z3 = z; C_CUR[0] = c
    class NPX:
        def __getattr__(s, x): return getattr(np, x)
        @staticmethod
        def array(x, *r, **k):
            g = garr_of(x) if isinstance(x, PList) else x if isinstance(x, GArr) else None
            return g if g is not None else np.array(x, *r, **k)
        @staticmethod
        def delete(x, idx, axis=None):
            if not isinstance(x, GArr): return np.delete(x, idx, axis)
            j = seqs.as_plist(idx).get(0) if isinstance(idx, (PList, list)) else idx; jt = x.idx(j, 0)
            return PList([("f", mk(lift(x.shape[0])), lambda i: mk(lift(i) != jt), lambda i: G(x.fn(lift(i))))])
        @staticmethod
        def log2(x):
            if not isinstance(x, V): return np.log2(x)
            nb = fresh("nbits"); t = x.t; E.assume(z3.And(nb >= 0, PW(nb) >= t, z3.Implies(t >= 2, nb >= 1), z3.Implies(BITAND(t, t - 1) == 0, z3.Or(t == 0, PW(nb) == t)), z3.Implies(PW(nb) == t, BITAND(t, t - 1) == 0)))
            return Log(nb)
        @staticmethod
        def ceil(x): return V(x.nb) if isinstance(x, Log) else np.ceil(x)
    md.np = NPX()
    def add(v, w):
        c.ob("vectors of equal length", lift(v.shape[0]) == lift(w.shape[0])); f, g = v.fn, w.fn; return GArr(v.shape, lambda i: z3.Xor(f(i), g(i)))
    def eq(v, w):
        c.ob("vectors of equal length", lift(v.shape[0]) == lift(w.shape[0])); x = z3.Int(f"ve{next(CNT)}"); return G(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < lift(v.shape[0])), v.fn(x) == w.fn(x))))
    md._symbolic_vector_add, md._symbolic_vector_eq = add, eq
    return md, z
class Log:
    def __init__(self, nb): self.nb = nb
def addspec(X, ADD, m, n, D):
    """what the column addition constraint has to guarantee"""
    def f(d, a, b, i):
        return z3.Implies(z3.And(d >= 0, d < D, a >= 0, a < n, b >= 0, b < n, a != b, i >= 0, i < m, ADD(d, a, b)), z3.And(X(d + 1, i, b) == z3.Xor(X(d, i, a), X(d, i, b)), X(d + 1, i, a) == X(d, i, a)))
    return f
@contract("C14", SP + ":_column_addition_constraint")
def colad(c):
    m, n, D = Nat("m", 0), Nat("n", 1), Nat("D", 0); md, z = setup14(c, n)
    X = z3.Function("Xc", I, I, I, B); AD = z3.Function("ADDc", I, I, I, B)
    cols, adds = GArr((D + 1, m, n), lambda d, i, j: X(d, i, j)), GArr((D, n, n), lambda d, i, j: AD(d, i, j))
    ConjLoops(c)
    def post(r):
        if not c.ob("a formula", isinstance(r, G)): return
        d, a, b, i = (fresh(x) for x in "dabi")
        for f in ground(r.t, [d, d + 1, a, b, b - a - 1, a - b - 1, i]): E.assume(f)
        c.ob("an addition a -> b adds column a to column b and keeps column a", addspec(X, AD, m.t, n.t, D.t)(d, a, b, i))
        for g, (e, u, v) in occurrences(r.t, AD): c.ob("no variable of a column added to itself", z3.Implies(z3.And(*g), u != v))
    c.run(lambda: c.fn()(cols, adds), post)
@contract("C14", SP + ":_final_matrix_constraint")
def fin(c):
    m, n, D = Nat("m", 0), Nat("n", 1), Nat("D", 1); md, z = setup14(c, n); X = z3.Function("Xc", I, I, I, B); r = Nat("r")
    cols = GArr((D + 1, m, n), lambda d, i, j: X(d, i, j)); ConjLoops(c)
    def post(g):
        a = z3.Int("za")
        if c.ob("a formula", isinstance(g, G)): c.ob("as many columns are not zero as the given rank", g.t == (ssum(0, n.t, lambda q: b01(z3.Not(z3.Exists([a], z3.And(a >= 0, a < m.t, X(D.t, a, q)))))) == n.t - r.t))
    c.run(lambda: c.fn()(cols, r), post)
class NestLoops(ConjLoops):
    """additionally: nested comprehensions become nested segments ("n", n, k, segments in k)"""
    def get(self, lid, d=None): return (lambda *a: self.comprule(lid, *a)) if lid.endswith("comp") else self.rule
    def comprule(self, lid, rt, it, body, get, set_, names):
        fv = freevars(body)
        if not fv.get("flat") or fv.get("kind") not in ("list", "gen") or isinstance(it, PList):
            E.loops = {}
            try: return rt.for_loop(lid, it, body, get, set_, names)
            finally: E.loops = self
        k = fresh("nk"); out = []
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); g, el = fv["lam"](it.item(V(k)))
            if g() is not True: raise Unsupported("condition of an outer comprehension")
            v = el()
            if not isinstance(v, PList): raise Unsupported("nested comprehension")
            return list(v.segs)
        E.explore(run, lambda p: out.append(p))
        if len(out) != 1 or out[0].exc is not None: raise Unsupported("nested comprehension with several cases")
        res = fv["res"]; E.touch(res); res.segs = res.segs + [("n", it.n, k, out[0].result)]; return loops.CONT
def forall(xs, b):
    """nested bounded quantifiers: xs = [(variable, bound), ...]"""
    for x, n in reversed(xs): b = z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), b))
    return b
def inst(fs, cands):
    """ground instances of bounded quantifiers; cands: [(bound, terms)]"""
    out = []
    def go(t):
        if z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1:
            x = fresh("iq"); b = z3.substitute_vars(t.body(), x); terms = None
            if z3.is_implies(b):
                for g in (b.arg(0).children() if z3.is_and(b.arg(0)) else [b.arg(0)]):
                    if z3.is_lt(g) and g.arg(0).eq(x):
                        terms = next((ts for n, ts in cands if g.arg(1).eq(n)), None) or next((ts for n, ts in cands if E.entails(g.arg(1) == n)), None)
            if terms is None: terms = [u for _, ts in cands for u in ts]
            return [f for u in terms for f in go(z3.substitute_vars(t.body(), u))]
        if z3.is_and(t): return [f for a in t.children() for f in go(a)]
        if z3.is_implies(t): return [z3.Implies(t.arg(0), f) for f in go(t.arg(1))]
        return [t]
    for t in fs: out += go(t)
    return out
def nested(c, segs, ranges):
    """one nest of loops over the given ranges: (index variables, guard, value) or None"""
    ks = []
    for r, n in enumerate(ranges):
        if not c.ob("one nest of loops", len(segs) == 1 and segs[0][0] == ("n" if r < len(ranges) - 1 else segs[0][0]) and segs[0][0] in "nsf"): return None
        s = segs[0]; c.ob("range of the loop", lift(s[1]) == lift(n))
        if s[0] == "n": ks.append(s[2]); segs = s[3]
        else:
            k = fresh("lk"); ks.append(k); g = to_bool(lift(s[2](V(k)))) if s[0] == "f" else z3.BoolVal(True); return ks, g, s[-1](V(k))
    return None
@contract("C14", SP + ":_generate_circ_with_bounded_depth")
def bdepth(c):
    m, n, D = Nat("m", 1), Nat("n", 1), Int("D"); md, z = setup14(c, n); H = binmat("H", m, n); H0 = H.snapshot(); calls = []; built = []; zero = Bool("zero"); rk = []
    class M2:
        def rank(s, M): rk.append(M.snapshot()); return V(z3.Int("RK"))
    md.mod2 = M2()
    def coladd(columns, adds):
        calls.append(("add", columns, columns.fn, adds)); X, A_ = columns.fn, adds.fn; d, a, b, i = (z3.Int(f"ca{next(CNT)}") for _ in "dabi")
        c.ob("dimensions of the variables", z3.And(lift(columns.shape[0]) == D.t + 1, lift(columns.shape[1]) == m.t, lift(columns.shape[2]) == n.t, lift(adds.shape[0]) == D.t, lift(adds.shape[1]) == n.t, lift(adds.shape[2]) == n.t))
        return G(forall([(d, D.t), (a, n.t), (b, n.t), (i, m.t)], addspec(X, A_, m.t, n.t, D.t)(d, a, b, i)))
    def final(columns, rank):
        calls.append(("final", columns, columns.fn, rank)); return G(FINAL)
    FINAL = z3.Bool("FINAL")
    md._column_addition_constraint, md._final_matrix_constraint = coladd, final
    class Out: pass
    def build(cnots, checks, zero_state=True): built.append((cnots, checks, zero_state)); return Out
    md._build_circuit_from_list_and_checks = build
    NestLoops(c)
    def post(r):
        if not built: c.ob("no circuit without a solution", r is None); return
        if not c.ob("one circuit, one solver", len(built) == 1 and len(z.sols) == 1 and r is Out and len(calls) == 2 and {x[0] for x in calls} == {"add", "final"}): return
        ca = dict((x[0], x) for x in calls); cols, adds = ca["add"][1], ca["add"][3]; X = cols.fn
        c.ob("the constraints are about the same variables", ca["final"][1] is cols and ca["add"][2] is X and ca["final"][2] is X)
        if c.ob("the rank of the checks", len(rk) >= 1 and ca["final"][3] is not None): c.ob("final rank", lift(ca["final"][3]) == z3.Int("RK")); same_mat(c, "rank of the checks", rk[-1], m.t, n.t, lambda i, j: H0.at(i, j))
        conj = z3.And(*z.sols[0].fs); A_ = adds.fn
        d, a, b, a2, b2, i, q = (fresh(x) for x in ("d", "a", "b", "a2", "b2", "i", "q")); AD = A_(d, a, b).decl()
        if not c.ob("additions are plain variables", A_(d, a, b).eq(AD(d, a, b)) and AD.kind() == z3.Z3_OP_UNINTERPRETED): return
        for g, (e, u, v) in occurrences(conj, AD): c.ob("a column is never added to itself", z3.Implies(z3.And(*g), u != v))
        E.assume(d >= 0); E.assume(d < D.t)
        for t in (a, b, a2, b2, q): E.assume(z3.And(t >= 0, t < n.t))
        E.assume(z3.And(i >= 0, i < m.t))
        # variables that do not occur in the constraints stay unassigned, which reads as false
        for u in (a, b, a2, b2, q): E.assume(z3.Not(AD(d, u, u)))
        fs = inst(z.sols[0].fs, [(D.t, [d]), (n.t, [a, b, a2, b2, q]), (m.t, [i])])
        for f in fs: E.assume(f)
        c.ob("the final constraint is imposed", any(f.eq(FINAL) for f in fs))
        M = lambda e, x, y: X(e, x, y)
        c.ob("layer 0 are the checks", M(z3.IntVal(0), i, a) == (lift(H0.at(i, a)) == 1))
        c.ob("an addition is carried out", z3.Implies(z3.And(a != b, AD(d, a, b)), z3.And(M(d + 1, i, b) == z3.Xor(M(d, i, a), M(d, i, b)), M(d + 1, i, a) == M(d, i, a))))
        c.ob("a qubit takes part in one addition per layer", z3.Implies(z3.And(AD(d, a, b), AD(d, a2, b2), z3.Or(a == a2, a == b2, b == a2, b == b2)), z3.And(a == a2, b == b2)))
        x = z3.Int("nx"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n.t), z3.And(z3.Not(AD(d, x, q)), z3.Not(AD(d, q, x))))))
            c.ob("a column without an addition stays", M(d + 1, i, q) == M(d, i, q))
        finally: E.ctxs.pop()
        cn, ck, zr = built[0]
        c.ob("for the requested state", to_bool(lift(zr)) == zero.t)
        c.ob("the final columns", isinstance(ck, SArr) and ck.ndim == 2)
        arr_is(c, "final checks", ck, (m, n), lambda x, y: (M(D.t, x, y) if ck.kind == "b" else b01(M(D.t, x, y))))
        nst = nested(c, cn.segs, [D, n, n]) if isinstance(cn, PList) else None
        if not c.ob("the CNOTs of all layers in order", nst is not None): return
        (k0, k1, k2), g, v = nst
        if not c.ob("pairs", isinstance(v, tuple) and len(v) == 2): return
        E.assume(z3.And(k0 >= 0, k0 < D.t, k1 >= 0, k1 < n.t, k2 >= 0, k2 < n.t)); u, w = lift(v[0]), lift(v[1])
        c.ob("every pair once per layer", z3.Or(E.entails(z3.And(u == k1, w == k2)), E.entails(z3.And(u == k2, w == k1))))
        c.ob("a CNOT for exactly the additions of the layer", g == AD(k0, u, w))
    def th():
        for l in (calls, built, rk, z.sols): l.clear()
        z.vars.clear(); return c.fn()(H, D, zero)
    c.run(th, post, raises=lambda e: c.ob("only depths below one are refused", isinstance(e, AssertionError) and bool(E.entails(D.t <= 0))))

@contract("C14", SP + ":_generate_circ_with_bounded_gates")
def bgates(c):
    m, n, D = Nat("m", 1), Nat("n", 2), Nat("D", 1); md, z = setup14(c, n); H = binmat("H", m, n); H0 = H.snapshot(); calls = []; built = []; zero = Bool("zero"); rk = []
    orig = V.__and__
    def and_(s, o):
        try: return orig(s, o)
        except Unsupported: return mk(BITAND(lift(s), lift(o)))
    V.__and__ = and_
    class M2:
        def rank(s, M): rk.append(M.snapshot()); return V(z3.Int("RK"))
    md.mod2 = M2(); FINAL = z3.Bool("FINAL")
    def coladd(columns, adds):
        calls.append(("add", columns, columns.fn, adds)); X, A_ = columns.fn, adds.fn; d, a, b, i = (z3.Int(f"ca{next(CNT)}") for _ in "dabi")
        c.ob("dimensions of the variables", z3.And(lift(columns.shape[0]) == D.t + 1, lift(columns.shape[1]) == m.t, lift(columns.shape[2]) == n.t, lift(adds.shape[0]) == D.t, lift(adds.shape[1]) == n.t, lift(adds.shape[2]) == n.t))
        return G(forall([(d, D.t), (a, n.t), (b, n.t), (i, m.t)], addspec(X, A_, m.t, n.t, D.t)(d, a, b, i)))
    def final(columns, rank): calls.append(("final", columns, columns.fn, rank)); return G(FINAL)
    md._column_addition_constraint, md._final_matrix_constraint = coladd, final
    class Out: pass
    def build(cnots, checks, zero_state=True): built.append((cnots, checks, zero_state)); return Out
    md._build_circuit_from_list_and_checks = build
    def post(r):
        if not built: c.ob("no circuit without a solution", r is None); return
        if not c.ob("one circuit, one solver", len(built) == 1 and len(z.sols) == 1 and r is Out and len(calls) == 2 and {x[0] for x in calls} == {"add", "final"}): return
        ca = dict((x[0], x) for x in calls); cols, adds = ca["add"][1], ca["add"][3]; X = cols.fn
        c.ob("the constraints are about the same variables", ca["final"][1] is cols and ca["add"][2] is X and ca["final"][2] is X)
        if c.ob("the rank of the checks", len(rk) >= 1 and ca["final"][3] is not None): c.ob("final rank", lift(ca["final"][3]) == z3.Int("RK")); same_mat(c, "rank of the checks", rk[-1], m.t, n.t, lambda i, j: H0.at(i, j))
        cn, ck, zr = built[0]; d, a, b, i, q = (fresh(x) for x in "dabiq")
        nst = nested(c, cn.segs, [D]) if isinstance(cn, PList) else None
        if not c.ob("one CNOT per step", nst is not None): return
        (k0,), g, v = nst
        if not c.ob("pairs", isinstance(v, tuple) and len(v) == 2): return
        E.assume(z3.And(d >= 0, d < D.t, i >= 0, i < m.t, q >= 0, q < n.t)); sub = lambda t: z3.substitute(lift(t), (k0, d))
        u, w = sub(v[0]), sub(v[1]); c.ob("no step is left out", g)
        for f in z.vars.values():                          # bit vector variables have values of their width
            if f.range() == I: E.assume(z3.And(f(d) >= 0, f(d) < PW(lift(WIDTH[0]))))
        fs = inst(z.sols[0].fs, [(D.t, [d]), (m.t, [i])])
        fs = inst([f for f in fs if not z3.is_quantifier(f)] , []) if False else inst(z.sols[0].fs, [(D.t, [d]), (n.t, [u, w, q]), (m.t, [i])])
        cut = lambda t: z3.And(t >= 0, t < n.t)
        for f in inst(z.sols[0].fs, [(D.t, [d]), (n.t, [q]), (m.t, [i])]): E.assume(f)
        if not c.ob("valid qubits, control and target different", z3.And(cut(u), cut(w), u != w)): return
        for f in fs: E.assume(f)
        c.ob("the final constraint is imposed", any(f.eq(FINAL) for f in fs)); M = X
        c.ob("layer 0 are the checks", M(z3.IntVal(0), i, q) == (lift(H0.at(i, q)) == 1))
        c.ob("the addition of the control column to the target column", M(d + 1, i, w) == z3.Xor(M(d, i, u), M(d, i, w)))
        c.ob("the other columns stay", z3.Implies(q != w, M(d + 1, i, q) == M(d, i, q)))
        c.ob("for the requested state", to_bool(lift(zr)) == zero.t)
        c.ob("the final columns", isinstance(ck, SArr) and ck.ndim == 2)
        arr_is(c, "final checks", ck, (m, n), lambda x, y: (M(D.t, x, y) if ck.kind == "b" else b01(M(D.t, x, y))))
    def th():
        for l in (calls, built, rk, z.sols, WIDTH): l.clear()
        z.vars.clear(); return c.fn()(H, D, zero)
    NestLoops(c); c.run(th, post)
WIDTH = []
# ---- search drivers: whatever is returned was produced by the synthesis function for the checks of the code and the requested state
class AnyWhile:
    """while loops with an arbitrary integer state: every way to leave them is followed"""
    known = ()
    def __init__(self, c, keep=None): self.c, self.keep = c, keep; E.loops = self
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, cond, body, get, set_, names):
        def hv(x, v):
            if self.keep is not None and x not in () and self.keep(v): return self.keep(v)
            return V(fresh("st")) if isinstance(v, (V, int)) and not isinstance(v, bool) else forget(v)
        def arbitrary(): set_(tuple(hv(x, v) for x, v in zip(names, get())))
        arbitrary(); start = born()
        if E.choose(2) == 0:
            if not bool(cond()): raise PathEnd()
            w = watch(); r = body(); strays(self.c, w, start, [v for v in self.known])
            if r is loops.CONT:
                self.iter(dict(zip(names, get()))); raise PathEnd()
            return loops.CONT if r is loops.BRK else r
        if bool(cond()): raise PathEnd()
        return loops.CONT
    def iter(self, vals): pass
class Cand:
    """circuit returned by the synthesis function"""
@contract("C14", SP + ":iterative_search_with_timeout")
def itsearch(c):
    md = c.mod(SP); calls = []; p = [Int(x) for x in ("minp", "maxp", "mint", "maxt")]
    def fun(x): raise Unsupported("direct call")
    def rw(f, *args, timeout=10):
        c.ob("the given function is run", f is fun and len(args) == 1); k = E.choose(3); r = None if k == 0 else "timeout" if k == 1 else Cand(); calls.append((args[0], r)); return r
    md._run_with_timeout = rw; AnyWhile(c)
    def post(r):
        if not c.ob("a pair", isinstance(r, tuple) and len(r) == 2): return
        if r[0] is None: c.ob("no result: the last parameter", lift(r[1]) == p[1].t)
        else: c.ob("the result of a run and its parameter", isinstance(r[0], Cand) and any(x[1] is r[0] and bool(E.entails(lift(x[0]) == lift(r[1]))) for x in calls))
    c.run(lambda: (calls.clear(), c.fn()(fun, *p))[1], post)
@contract("C14", SP + ":_run_with_timeout")
def runto(c):
    md = c.mod(SP); E.trust("multiprocess: the child either appends the value of the call to the shared list and ends, or dies, or is still alive after the timeout")
    state = {}
    class Proc:
        def __init__(s, target=None): s.t = target
        def start(s): state["started"] = True
        def join(s, t=None):
            s.k = E.choose(3)
            if s.k == 0: s.t()
        def is_alive(s): return s.k == 2
        def terminate(s): state["term"] = True
    class Man:
        def list(s): return PList([])
    class MP:
        Process = Proc
        Manager = staticmethod(lambda: Man())
    md.multiprocess = MP; tok = Cand(); args = []
    def fun(*a): args.append(a); return tok
    x = Int("x"); to = Int("to")
    def post(r): c.ob("the value of the call, or a timeout", (r is tok and args == [(x,)]) or r == "timeout")
    c.run(lambda: (args.clear(), c.fn()(fun, x, timeout=to))[1], post, raises=lambda e: c.ob("a dead child gives no result", isinstance(e, IndexError) and not args))
for zero in (True, False):
    def mko(zero):
        @contract("C14", SP + ":_optimal_circuit", f"only circuits synthesised for the checks of the {'zero' if zero else 'plus'} state")
        def f(c):
            md = c.mod(SP); Hx, Hz = binmat("Hx", Nat("mx", 1), Nat("n", 1)), binmat("Hz", Nat("mz", 1), Nat("n", 1)); code = c.obj("codes.css_code", "CSSCode", Hx=Hx, Hz=Hz); got = []
            X0, Z0 = Hx.snapshot(), Hz.snapshot(); a = [Int(x) for x in ("minp", "maxp", "mint", "maxt")]; spc = []
            def prep(checks, param, zero_state=True):
                ref = X0 if zero else Z0
                same_mat(c, "the checks of the requested state", checks, lift(ref._shape[0]), lift(ref._shape[1]), lambda i, j: ref.at(i, j)); c.ob("the requested state", E.entails(to_bool(lift(zero_state)) == z3.BoolVal(zero)))
                r = Cand(); got.append(r); return r if E.choose(2) else None
            def its(fun, *p, **k):
                q = Int("param"); r = fun(q) if E.choose(2) else None
                return (r, q)
            def rw(fun, *args, timeout=10): return "timeout" if E.choose(2) else fun(*args)
            md.iterative_search_with_timeout, md._run_with_timeout = its, rw
            md.StatePrepCircuit = lambda circ, cd, z=True, *r: (spc.append((circ, cd, z)), ("prep", circ))[1]
            h = AnyWhile(c, lambda v: (lambda r: (got.append(r), r)[1])(Cand()) if isinstance(v, Cand) else None)
            h.iter = lambda vals: [c.ob("the kept circuit was synthesised", v in got or v is None) for v in vals.values() if isinstance(v, (Cand, type(None)))]
            def post(r):
                if r is None: return
                c.ob("the circuit of a synthesis run for this code and state", isinstance(r, tuple) and r[1] in got and spc[-1][1] is code and bool(E.entails(to_bool(lift(spc[-1][2])) == z3.BoolVal(zero))))
            c.run(lambda: (got.clear(), spc.clear(), c.fn()(code, prep, zero, *a))[2], post)
    mko(zero)
for nm, fn in (("depth_optimal_prep_circuit", "_generate_circ_with_bounded_depth"), ("gate_optimal_prep_circuit", "_generate_circ_with_bounded_gates")):
    def mkw(nm, fn):
        @contract("C14", SP + ":" + nm)
        def f(c):
            md = c.mod(SP); a = [Int(x) for x in ("minp", "maxp", "mint", "maxt")]; code = Tok("code"); zero = Bool("zero"); got = []; gen = getattr(md, fn); res = Tok("result")
            def oc(*x): got.append(x); return res
            md._optimal_circuit = oc
            def post(r):
                if c.ob("one search", len(got) == 1 and len(got[0]) == 7 and r is res):
                    x = got[0]; c.ob("for the code with its synthesis function", x[0] is code and x[1] is gen); c.ob("for the state and within the limits", z3.And(to_bool(lift(x[2])) == zero.t, *[lift(p) == q.t for p, q in zip(x[3:], a)]))
            c.run(lambda: (got.clear(), c.fn()(code, zero, *a))[1], post)
    mkw(nm, fn)
