from contracts.lib import *
from contracts.c14 import SP, G, gt, GArr, Z3S, NestLoops, setup14, Sol, Mdl, C_CUR, inst, CNT, garr_of
NOTES = dict(
    trusted=["qiskit circuit_to_dag: topological_op_nodes lists the CNOTs in an order compatible with the circuit, qargs are control and target", "z3.Optimize: check/model return an optimal assignment; z3.Sum of Booleans is the number of true ones; Bool names denote distinct variables", "ldpc.mod2.rank (rank grows by one exactly outside the row space)", "numpy.unique(axis=0): the same set of rows"],
    assumptions=["preparation circuits consist of Hadamards followed by CNOTs (C14)", "distance of each error type at least the distance of the code (enforced by CSSCode)", "at least one stabilizer row when equivalent faults are removed"],
    outside=["codes of distance one (no error to consider)"],
    explanation="propagation is proved against the action of every later CNOT on the error; a lemma shows that every fault of a gate is, from the next gate on that uses the qubit as control (target), the error in front of that gate or stays on one qubit, so the computed set is complete; sets of faults are compared as sets, reductions by the coset-leader contract")
VS = z3.DeclareSort("Vec"); VADD = z3.Function("VADD", VS, VS, VS)
class Row:
    def __init__(self, t): self.t = t
    def vc_subst(self, pairs): return Row(z3.substitute(self.t, *pairs))
class Rows:
    """array of faults as a set of rows: segments (bounds, guard, row) over index tuples"""
    __array_ufunc__ = None; __hash__ = None
    def __init__(self, segs, n, mod=False, three=False): self.segs, self.n, self.mod, self.three = list(segs), n, mod, three; self._vc_born = born(); self.m = Nat("rows")
    @property
    def shape(self): return (self.m, self.n)
    @property
    def size(self): return self.m * self.n
    def __vc_len__(self): return self.m
    def copy(self): return Rows(self.segs, self.n, self.mod)
    def astype(self, *a, **k): return self
    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 3 and key[1] is None and key[0] == slice(None) and key[2] == slice(None): return Rows(self.segs, self.n, self.mod, True)
        if isinstance(key, tuple) and len(key) == 3 and key[0] is None and key[1] == slice(None) and key[2] == slice(None): return self
        raise Unsupported("entry of a set of faults")
    def comb(self, o):
        if not isinstance(o, Rows) or self.three == o.three or self.mod or o.mod: raise Unsupported("sum of sets of faults")
        segs = []
        for b, g, f in self.segs:
            for b2, g2, f2 in o.segs:
                m = len(b)
                segs.append((b + b2, lambda *i, g=g, g2=g2, m=m: z3.And(g(*i[:m]), g2(*i[m:])), lambda *i, f=f, f2=f2, m=m: VADD(f(*i[:m]), f2(*i[m:]))))
        return Rows(segs, self.n, True)
    __add__ = __radd__ = comb
    def __xor__(self, o): r = self.comb(o); r.mod = False; return r
    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        if len(s) != 2 or not (isinstance(s[0], int) and s[0] == -1 or s[0] is self.m) or not E.entails(lift(s[1]) == lift(self.n)): raise Unsupported("reshape of a set of faults")
        return Rows(self.segs, self.n, self.mod)
    def __mod__(self, o):
        if not (isinstance(o, int) and o == 2): raise Unsupported("modulus")
        return Rows(self.segs, self.n)
    def elems(self, k):
        b, g, f = self.segs[k]; i = [fresh("re") for _ in b]
        return i, z3.And(*[z3.And(x >= 0, x < lift(n)) for x, n in zip(i, b)], g(*i)), f(*i)
def subset(c, name, A, B_, more=()):
    """every row of A is a row of B (index tuples are matched position by position, or tried with more)"""
    for k in range(len(A.segs)):
        i, g, v = A.elems(k); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(g); alts = []
            for b, g2, f in B_.segs:
                for j in [i] + [list(m) for m in more]:
                    if len(j) == len(b): alts.append(z3.And(*[z3.And(x >= 0, x < lift(n)) for x, n in zip(j, b)], g2(*j), f(*j) == v))
            c.ob(name, z3.Or(*alts) if alts else z3.BoolVal(False))
        finally: E.ctxs.pop()
def same_set(c, name, A, B_):
    if not c.ob(name + ": a set of faults", isinstance(A, Rows) and not A.mod and not A.three): return
    subset(c, name + ": only these", A, B_); subset(c, name + ": all of these", B_, A)
T_ = lambda *i: z3.BoolVal(True)
class NPR:
    """numpy on sets of rows"""
    def __init__(self, c): self.c = c
    def __getattr__(self, a): return getattr(np, a)
    def array(self, x, *r, **k):
        if isinstance(x, Rows): return x.copy()
        if isinstance(x, (list, PList)):
            p = seqs.as_plist(x); n = None
            try: el = p.probe() if p.segs else None
            except Exception: el = None
            if isinstance(el, Row):
                segs = []
                for s in p.segs:
                    if s[0] == "c": segs.append(((), T_, lambda v=s[1]: v.t))
                    elif s[0] == "s": segs.append(((s[1],), T_, lambda i, s=s: s[2](V(i)).t))
                    else: segs.append(((s[1],), lambda i, s=s: to_bool(lift(s[2](V(i)))), lambda i, s=s: s[3](V(i)).t))
                return Rows(segs, self.n)
        return np.array(x, *r, **k)
    def vstack(self, xs):
        xs = list(A.list_items(xs))
        if not any(isinstance(x, Rows) for x in xs): return np.vstack(xs)
        return Rows([s for x in xs for s in x.segs], self.n)
    concatenate = vstack
    def unique(self, x, axis=None):
        self.c.ob("rows are compared", axis == 0); return x.copy()
    def eye(self, n, *a, **k):
        self.c.ob("one error on every qubit", lift(n) == lift(self.n)); return Rows([((n,), T_, lambda p: UNIT(p))], n)
    identity = eye
UNIT = z3.Function("UNIT", I, VS); FAULT = z3.Function("FAULT", I, VS)
# ------------------------------------------------------------------ propagation
class Qb:
    def __init__(self, i): self._index = V(i)
class Op:
    def __init__(self, n): self.name = n
class Node:
    """CNOT number k of the circuit (or Hadamard k)"""
    def __init__(self, k, h=False):
        self.k, self.h = k, h; self.name = "h" if h else "cx"; self.op = Op(self.name)
        self.qargs = [Qb(HQ(k))] if h else [Qb(CT(k)), Qb(TG(k))]
    def vc_subst(self, pairs): return Node(z3.substitute(self.k, *pairs), self.h)
CT, TG, HQ = z3.Function("CONTROL", I, I), z3.Function("TARGET", I, I), z3.Function("HQ", I, I)
def circuit_pre(L, n):
    q = z3.Int("q"); E.assume(z3.ForAll([q], z3.And(CT(q) >= 0, CT(q) < n.t, TG(q) >= 0, TG(q) < n.t, CT(q) != TG(q)), patterns=[CT(q)]))
    E.assume(z3.ForAll([q], z3.And(TG(q) >= 0, TG(q) < n.t, CT(q) != TG(q)), patterns=[TG(q)]))
def through(x, k, e):
    """the error e after CNOT k"""
    if x: return lambda q: z3.Xor(e(q), z3.And(q == TG(k), e(CT(k))))
    return lambda q: z3.Xor(e(q), z3.And(q == CT(k), e(TG(k))))
for xe in (True, False):
    def mkp(xe):
        @contract("C15", SP + ":_propagate_error", f"{'X' if xe else 'Z'} error in front of the first gate, carried through all gates")
        def f(c):
            L, n = Nat("L", 1), Nat("n", 2); circuit_pre(L, n); ERR = z3.Function("ERR", I, I, B); st = {}
            first = CT(0) if xe else TG(0)
            E.assume(z3.ForAll([z3.Int("q")], ERR(0, z3.Int("q")) == (z3.Int("q") == first), patterns=[ERR(0, z3.Int("q"))]))
            nodes = PList([("s", L, lambda k: Node(lift(k)))])
            def after(k):       # definition of the error after gate k
                q = z3.Int("q"); E.assume(z3.ForAll([q], ERR(k + 1, q) == through(xe, k, lambda x: ERR(k, x))(q), patterns=[ERR(k + 1, q)]))
            def unfold(a): return a
            def isE(v, k, name):
                if not c.ob(name + ": a vector of all qubits", isinstance(v, SArr) and v.ndim == 1 and bool(E.entails(lift(v._shape[0]) == n.t))): raise PathEnd()
                q = fresh("q"); E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(q >= 0, q < n.t)); c.ob(name, lift(v.at(q)) == b01(ERR(k, q)))
                finally: E.ctxs.pop()
            def find(vals):
                c1 = [x for x in list(vals) + list(h.free) if isinstance((vals.get(x) if x in vals else h.free[x]), SArr)]
                if not c.ob("one error vector", len(set(c1)) == 1): raise PathEnd()
                return vals.get(c1[0], h.free.get(c1[0]))
            def init(vals, cnt):
                st["off"] = L.t - cnt; c.ob("the loop covers the last gates", z3.And(cnt <= L.t, cnt >= L.t - 1)); after(z3.IntVal(0))
                st["v"] = find(vals); isE(st["v"], st["off"], "error on entry")
            def havoc(vals, k):
                v = st["v"]; v.update(lambda idx, old: b01(ERR(k + st["off"], idx[0]))); return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); kk = k + st["off"]; after(kk); isE(find(new), kk + 1, "one more gate")
            h = LoopHook(c, "_propagate_error", init, havoc, step)
            def post(r): c.ob("one loop over the gates", h.hit == 1); isE(r, L.t, "the error at the end of the circuit")
            c.run(lambda: c.fn()(nodes, n, x_errors=xe), post)
    mkp(xe)
@contract("C15", SP + ":_propagate_error", "every fault of a gate is a computed one or stays on one qubit (lemma)")
def lem(c):
    """error on qubit q behind a gate: gates that do not start from q leave it alone; the first one that does sees the error in front of it"""
    n = Nat("n", 2); k, p = z3.Int("k"), z3.Int("p"); circuit_pre(None, n)
    E.assume(z3.And(p >= 0, p < n.t)); q = fresh("q")
    for xe in (True, False):
        e = lambda x: x == p
        src = CT(k) if xe else TG(k)
        c.ob("a gate that does not start from the qubit leaves the error alone", z3.Implies(src != p, through(xe, k, e)(q) == e(q)))
        other = TG(k) if xe else CT(k)
        c.ob("the error in front of a gate that starts from the qubit is the two-qubit fault behind it", z3.Implies(src == p, through(xe, k, e)(q) == z3.Or(q == p, q == other)))
        a, b = z3.Bools("fa fb"); e1, e2 = (lambda x: z3.And(a, x == src)), (lambda x: z3.And(b, x == other))
        u, v = z3.Function("eu", I, B), z3.Function("ev", I, B)
        c.ob("errors add up through a gate", through(xe, k, lambda x: z3.Xor(u(x), v(x)))(q) == z3.Xor(through(xe, k, u)(q), through(xe, k, v)(q)))
    c.run(lambda: None, lambda r: None)
# ------------------------------------------------------------------ fault sets
class Dag:
    """the DAG of a circuit of Hadamards and L CNOTs, some of which may be in the front layer"""
    def __init__(self, c, L, n): self.c, self.L, self.n, self.nh = c, L, n, Nat("nh"); self.noh = False; self._vc_born = born()
    def _vc_save(self): return self.noh
    def _vc_load(self, s): self.noh = s
    def hs(self): return [] if self.noh else [("s", self.nh, lambda k: Node(lift(k), True))]
    def cx(self): return [("s", self.L, lambda k: Node(lift(k)))]
    def front_layer(self): return PList(self.hs() + [("f", self.L, lambda k: V(FRONT(lift(k))), lambda k: Node(lift(k)))])
    def remove_op_node(self, node):
        self.c.ob("only Hadamards are left out", isinstance(node, Node) and node.h); self.noh = True
    def remove_all_ops_named(self, name):
        E.touch(self); self.c.ob("only Hadamards are left out", name == "h"); self.noh = True
    def named_nodes(self, *names): return PList([s for nm, ss in (("h", self.hs()), ("cx", self.cx())) if nm in names for s in ss])
    def topological_op_nodes(self): return PList(self.hs() + self.cx())
    op_nodes = topological_op_nodes
    def num_qubits(self): return self.n
FRONT = z3.Function("FRONT", I, B)
class FL:
    """list of fault sets by number of errors: entries set so far, then the initial ones"""
    def __init__(self, n, dflt): self.n, self.dflt, self.ents = n, dflt, []; self._vc_born = born()
    def _vc_save(self): return list(self.ents)
    def _vc_load(self, s): self.ents = list(s)
    def key(self, i):
        C_CUR[0].ob("number of errors within the list", z3.And(lift(i) >= 0, lift(i) < lift(self.n))); return lift(i)
    def __getitem__(self, i):
        t = self.key(i)
        for k, v in reversed(self.ents):
            if bool(mk(k == t)): return v
        return self.dflt(t)
    def __setitem__(self, i, v): t = self.key(i); E.touch(self); self.ents = self.ents + [(t, v)]
    def __vc_len__(self): return self.n
    def copy(self):
        r = FL(self.n, self.dflt); r.ents = list(self.ents); return r
def spc(c, xe, n, t, init, uninit, **k):
    none = lambda i: None
    a = {f"{p}_fault_sets{u}": FL(t + 1, none) for p in "xz" for u in ("", "_unreduced")}
    p = "x" if xe else "z"
    a[f"{p}_fault_sets"], a[f"{p}_fault_sets_unreduced"] = init, uninit
    return c.obj(SP, "StatePrepCircuit", circ="CIRC", code="CODE", num_qubits=n, max_errors=t, x_checks="XCHECKS", z_checks="ZCHECKS", zero_state=Bool("zero"), **a, **k)
def reduction(c, md, xe, calls, reduce):
    """callees by contract: trivial faults removed, equivalent ones removed (kept as tagged sets)"""
    def triv(faults, stabs, code, x_errors, num_errors):
        c.ob("stabilizers of the error type", stabs == ("XCHECKS" if xe else "ZCHECKS")); c.ob("code and error type", code == "CODE" and bool(x_errors) == xe)
        r = Rows([], faults.n); r.src, r.num, r.kind = faults, num_errors, "trivial"; calls.append(r); return r
    def equiv(faults, stabs):
        c.ob("equivalent up to the stabilizers of the error type", stabs == ("XCHECKS" if xe else "ZCHECKS"))
        c.ob("trivial faults are removed first", getattr(faults, "kind", None) == "trivial")
        r = Rows([], faults.n); r.src, r.num, r.kind = faults.src, faults.num, "equivalent"; calls.append(r); return r
    md._remove_trivial_faults, md._remove_stabilizer_equivalent_faults = triv, equiv
def setup15(c, n):
    md = c.mod(SP); C_CUR[0] = c; npr = NPR(c); npr.n = n; md.np = npr; return md
def result(c, name, r, num, red, spec):
    if not c.ob(name + ": reduced set", isinstance(r, Rows) and getattr(r, "kind", None) in (("trivial", "equivalent") if red is None else (("equivalent",) if red else ("trivial",)))): return
    c.ob(name + ": reduced for this number of errors", lift(r.num) == lift(num)); same_set(c, name, r.src, spec)
for xe in (True, False):
  for red in (True, False):
    def mkc(xe, red):
        @contract("C15", SP + ":StatePrepCircuit.compute_fault_set", f"one {'X' if xe else 'Z'} error: every gate and every single qubit, {'reduced' if red else 'not reduced'}")
        def f(c):
            L, n, t = Nat("L"), Nat("n", 2), Nat("t", 1); md = setup15(c, n); circuit_pre(L, n); calls = []
            a, u = FL(t + 1, lambda i: None), FL(t + 1, lambda i: None); o = spc(c, xe, n, t, a, u); dags = []
            def todag(x):
                c.ob("the circuit's DAG", x == "CIRC"); d = Dag(c, L, n); dags.append(d); return d
            md.circuit_to_dag = todag
            def prop(nodes, nq, x_errors=True):
                p = seqs.as_plist(nodes); first = p.get(0); k = fresh("g"); ln = lift(p.vc_len())
                if not c.ob("gates only", isinstance(first, Node) and not first.h): raise PathEnd()
                i = lift(first.k); c.ob("up to the last gate", ln == L.t - i)
                E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(k >= 0, k < ln)); x = p.get(V(k)); c.ob("all following gates in order", isinstance(x, Node) and not x.h and bool(E.entails(lift(x.k) == i + k)))
                finally: E.ctxs.pop()
                c.ob("all qubits, error type", z3.And(lift(nq) == n.t, z3.BoolVal(bool(x_errors) == xe))); return Row(FAULT(i))
            md._propagate_error = prop; reduction(c, md, xe, calls, red)
            spec = Rows([((L,), T_, lambda i: FAULT(i))], n); spec1 = Rows(spec.segs + [((n,), T_, lambda p: UNIT(p))], n)
            def post(r):
                result(c, "computed errors", r, 1, red, spec)
                c.ob("the result is kept", a[1] is r); un = u[1]
                same_set(c, "single faults", un, spec1)
            c.run(lambda: (calls.clear(), dags.clear(), o.compute_fault_set(1, x_errors=xe, reduce=red))[2], post, modifies=[o, a, u])
        @contract("C15", SP + ":StatePrepCircuit.compute_fault_set", f"several {'X' if xe else 'Z'} errors: all sums, {'reduced' if red else 'not reduced'}")
        def g(c):
            n, t, k = Nat("n", 2), Nat("t", 2), Nat("k", 2); md = setup15(c, n); calls = []; E.assume(k.t <= t.t)
            n1, n2 = Nat("N1"), Nat("N2"); F1, F2 = z3.Function("F1", I, VS), z3.Function("F2", I, VS)
            a, u = FL(t + 1, lambda i: None), FL(t + 1, lambda i: None); o = spc(c, xe, n, t, a, u)
            one, prev = Rows([((n1,), T_, lambda i: F1(i))], n), Rows([((n2,), T_, lambda i: F2(i))], n)
            C_real = o.compute_fault_set
            def rec(num=1, x=True, r=True, *, x_errors=None, reduce=None, num_errors=None):
                x = x if x_errors is None else x_errors; r = r if reduce is None else reduce; num = num if num_errors is None else num_errors
                c.ob("one error less of the same type", z3.And(lift(num) == k.t - 1, z3.BoolVal(bool(x) == xe)))
                if bool(mk(k.t == 2)): u[1] = one
                else: u[1] = one; u[k - 1] = prev
                return None
            o.__dict__["compute_fault_set"] = rec
            reduction(c, md, xe, calls, red)
            def post(r):
                p = one if bool(E.entails(k.t == 2)) else prev
                spec = Rows([((p.segs[0][0][0], n1), T_, lambda i, j: VADD(p.segs[0][2](i), F1(j)))], n)
                result(c, "computed errors", r, k, red, spec); c.ob("the result is kept", a[k] is r)
                same_set(c, "all sums are kept for further errors", u[k], spec)
            c.run(lambda: (calls.clear(), C_real(k, x_errors=xe, reduce=red))[1], post, modifies=[o, a, u])
    mkc(xe, red)
  def mkcached(xe):
        @contract("C15", SP + ":StatePrepCircuit.compute_fault_set", f"computed only once ({'X' if xe else 'Z'})")
        def h(c):
            n, t, k = Nat("n", 2), Nat("t", 1), Nat("k", 1); setup15(c, n); E.assume(k.t <= t.t); have = Rows([], n)
            a, u = FL(t + 1, lambda i: have), FL(t + 1, lambda i: None); o = spc(c, xe, n, t, a, u)
            c.run(lambda: o.compute_fault_set(k, x_errors=xe, reduce=True), lambda r: c.ob("the known set", r is have))
        @contract("C15", SP + ":StatePrepCircuit.compute_fault_sets", f"both types, as many errors as the code corrects ({'X' if xe else 'Z'})")
        def h2(c):
            n, t, red = Nat("n", 2), Nat("t", 1), Bool("red"); setup15(c, n); o = spc(c, xe, n, t, FL(t + 1, lambda i: None), FL(t + 1, lambda i: None)); got = []
            def rec(num=1, x_errors=True, reduce=True): got.append((num, x_errors, reduce))
            o.__dict__["compute_fault_set"] = rec
            def post(r):
                mine = [g for g in got if bool(g[1]) == xe]
                c.ob("largest number of errors, the smaller ones come along", len(mine) == 1 and bool(E.entails(z3.And(lift(mine[0][0]) == t.t, to_bool(lift(mine[0][2])) == red.t))))
            c.run(lambda: (got.clear(), o.compute_fault_sets(red))[1], post)
  mkcached(xe)
# ------------------------------------------------------------------ additional faults
def combine(xe, none):
    @contract("C15", SP + ":StatePrepCircuit.combine_faults", f"{'no additional faults' if none else 'every sum of faults of both kinds'} ({'X' if xe else 'Z'})")
    def f(c):
        n, t, na = Nat("n", 2), Nat("t", 1), Nat("na", 1); md = setup15(c, n); calls = []; reduction(c, md, xe, calls, None)
        N = z3.Function("N", I, I); F = z3.Function("F", I, I, VS); AF = z3.Function("AF", I, VS); W = z3.Function("IN_W", I, VS, B); U = z3.Function("IN_U", I, VS, B)
        add = Rows([] if none else [((na,), T_, lambda i: AF(i))], n); add.m = V(z3.IntVal(0)) if none else na
        base = {}
        def un(i):
            r = base.get(simp(i).get_id())
            if r is None: r = base[simp(i).get_id()] = Rows([((V(N(i)),), T_, lambda q: F(i, q))], n); base[(simp(i).get_id(), 0)] = simp(i)
            return r
        a, u = FL(t + 1, lambda i: base.setdefault("red", Rows([], n))), FL(t + 1, un); o = spc(c, xe, n, t, a, u); st = {"computed": False}
        o.__dict__["compute_fault_sets"] = lambda *x, **k: st.__setitem__("computed", True)
        # W(j, v): v is a sum of j faults of the circuit or additional ones; U(j, v): of the circuit alone
        def inU(j, v): return U(j, v)
        lists = []
        def bag(j): return ((V(z3.Function("NW", I, I)(j)),), T_, lambda q: z3.Function("FW", I, I, VS)(j, q))
        def isset(name, R, mem, at):
            """R is the set given by its membership predicate: every row is in it (the converse by construction, see step)"""
            for s in range(len(R.segs)):
                i, g, v = R.elems(s); E.ctxs.append(core.Ctx([]))
                try: E.assume(g); at(i, v, s); c.ob(name, mem(v))
                finally: E.ctxs.pop()
        def loopset(j):
            """the set of all sums of j faults, as an array"""
            return Rows([bag(j)], n)
        phase = {"n": 0}
        def init(vals, cnt):
            phase["n"] = h.hit
            if h.hit == 1:
                c.ob("all numbers of errors", cnt == t.t - 1); fs = [x for x in list(vals.values()) + list(h.free.values()) if isinstance(x, FL) and x is not a and x is not u]
                if not c.ob("a working copy of the sets of the circuit", len({id(x) for x in fs}) == 1): raise PathEnd()
                phase["fs"] = fs[0]; same_set(c, "single faults: of the circuit or additional", fs[0][1], Rows(un(z3.IntVal(1)).segs + add.segs, n))
                for k_, v_ in fs[0].ents: c.ob("only the single faults are changed before", k_ == 1)
            else:
                c.ob("all numbers of errors", cnt == t.t)
                rs = [x for x in list(vals.values()) + list(h.free.values()) if (isinstance(x, PList) or isinstance(x, FL)) and x not in (a, u, phase["fs"])]
                rs = [x for x in rs if isinstance(x, PList)]
                if not c.ob("one list of results", len(rs) == 1): raise PathEnd()
                phase["res"] = rs[0]
        def havoc(vals, k):
            fs = phase["fs"]
            if h.hit == 1:
                E.touch(fs); i = simp(k + 1); st["k"] = i     # entries 1..i hold all sums, later ones still those of the circuit
                fs.ents = []; fs.dflt = lambda j: loopset(j) if bool(mk(j <= i)) else un(j)
            else:
                calls.clear(); E.touch(fs); fs.ents = []; fs.dflt = lambda j: loopset(j)
                r = phase["res"]; E.touch(r); r.__class__ = Res; r.segs = [("s", t + 1, lambda q: None)]; r.w = []
            return {}
        def step(old, new, k, how):
            fs = phase["fs"]; c.ob("the loop goes on", how == "next")
            if h.hit == 1:
                i = st["k"]
                if not c.ob("one entry is extended", len(fs.ents) == 1): return
                c.ob("the next one", fs.ents[0][0] == i + 1)
                same_set(c, "sums of one fault more", fs.ents[0][1], Rows(un(simp(i + 1)).segs + loopset(i).comb(Rows(add.segs, n, three=True)).segs, n))
            else:
                w = phase["res"].w
                if c.ob("one result", len(w) == 1):
                    c.ob("for this number of errors", w[0][0] == k + 1); r = w[0][1]
                    result(c, "combined errors", r, V(k + 1), None, loopset(simp(k + 1)))
        h = LoopHook(c, "combine_faults", init, havoc, step)
        if none: E.loops = {}
        def post(r):
            c.ob("the sets of the circuit are computed first", st["computed"])
            if none: c.ob("the sets of the circuit", r is a); return
            c.ob("the results", r is phase["res"] and h.hit == 2)
        c.run(lambda: (calls.clear(), phase.clear(), st.update(computed=False), setattr(h, "hit", 0), o.combine_faults(add, xe))[4], post)
class Res(PList):
    """result list of which the entries are set one after the other"""
    def _vc_save(self): return (list(self.segs), list(getattr(self, "w", [])))
    def _vc_load(self, s):
        if isinstance(s, tuple): self.segs, self.w = list(s[0]), list(s[1])
        else: self.__class__ = PList; self.segs = list(s)
    def __setitem__(self, i, x): E.touch(self); self.w = self.w + [(lift(i), x)]
for xe in (True, False):
    for none in (True, False): combine(xe, none)
@contract("C15", SP + ":StatePrepCircuit.combine_faults", "the extended sets are all sums of that many faults (lemma)")
def comlem(c):
    """W(1) = U(1) + additional; W(i+1) := U(i+1) or W(i)+A  equals  W(i) + W(1), given U(i+1) = U(i) + U(1)"""
    U, W = z3.Function("U", I, VS, B), z3.Function("W", I, VS, B); Ad = z3.Function("A", VS, B); i = z3.Int("i"); v, w, a, u, x = (z3.Const(k, VS) for k in "vwaux")
    E.assume(i >= 1); p, q, r = (z3.Const(k, VS) for k in "pqr")
    E.assume(z3.ForAll([p, q, r], VADD(VADD(p, q), r) == VADD(VADD(p, r), q), patterns=[VADD(VADD(p, q), r)]))
    E.assume(z3.ForAll([v], W(1, v) == z3.Or(U(1, v), Ad(v)), patterns=[W(1, v)]))
    # a sum of one fault more stays in the set (definition of the step, both directions)
    L1, L2 = z3.Function("L1", I, VS, VS), z3.Function("L2", I, VS, VS); M1, M2 = z3.Function("M1", I, VS, VS), z3.Function("M2", I, VS, VS)
    def defs(j):
        E.assume(z3.ForAll([v], z3.Implies(W(j + 1, v), z3.Or(U(j + 1, v), z3.And(W(j, L1(j, v)), Ad(L2(j, v)), v == VADD(L1(j, v), L2(j, v))))), patterns=[W(j + 1, v)]))
        E.assume(z3.ForAll([v], z3.Implies(U(j + 1, v), W(j + 1, v)), patterns=[U(j + 1, v)]))
        E.assume(z3.ForAll([w, a], z3.Implies(z3.And(W(j, w), Ad(a)), W(j + 1, VADD(w, a))), patterns=[VADD(w, a)]))
        E.assume(z3.ForAll([v], z3.Implies(U(j + 1, v), z3.And(U(j, M1(j, v)), U(1, M2(j, v)), v == VADD(M1(j, v), M2(j, v)))), patterns=[U(j + 1, v)]))
        E.assume(z3.ForAll([w, u], z3.Implies(z3.And(U(j, w), U(1, u)), U(j + 1, VADD(w, u))), patterns=[VADD(w, u)]))
    defs(i)
    e, f = z3.Const("e", VS), z3.Const("f", VS)
    sub = z3.ForAll([v], z3.Implies(U(i, v), W(i, v)))
    E.assume(z3.Or(i == 1, i >= 2)); E.assume(z3.ForAll([v], z3.Implies(U(i, v), W(i, v)), patterns=[U(i, v)]))
    c.ob("only sums of one fault more", z3.Implies(W(i + 1, e), z3.Or(z3.And(W(i, L1(i, e)), W(1, L2(i, e)), e == VADD(L1(i, e), L2(i, e))), z3.And(W(i, M1(i, e)), W(1, M2(i, e)), e == VADD(M1(i, e), M2(i, e))))))
    c.ob("all sums with an additional fault", z3.Implies(z3.And(W(i, e), Ad(f)), W(i + 1, VADD(e, f))))
    c.ob("the sets of the circuit are contained", z3.Implies(U(i + 1, e), W(i + 1, e)))
    # a fault of the circuit added to a sum: by induction over the number of faults
    E.ctxs.append(core.Ctx([]))
    c.ob("start: a fault of the circuit added to a single fault", z3.Implies(z3.And(i == 1, z3.Or(U(1, e), Ad(e)), U(1, f), VADD(e, f) == VADD(f, e)), W(2, VADD(e, f))))
    E.ctxs.pop()
    j = z3.Int("j"); E.assume(j == i + 1); defs(j)
    hyp = z3.ForAll([w, u], z3.Implies(z3.And(W(i, w), U(1, u)), W(j, VADD(w, u))), patterns=[VADD(w, u)])
    E.assume(hyp); E.assume(z3.And(W(j, e), U(1, f)))
    c.ob("step: a fault of the circuit added to a sum", W(j + 1, VADD(e, f)))
    c.run(lambda: None, lambda r: None)
# ------------------------------------------------------------------ reduction
class Filt:
    """numpy on symbolic rows: where (indices in order) and unique (the same set of rows), by Skolem functions"""
    def __init__(self, c): self.c = c
    def __getattr__(self, a): return getattr(np, a)
    def where(self, cond, *r):
        if r or not isinstance(cond, SArr) or cond.ndim != 1: return np.where(cond, *r)
        cs = cond.snapshot(); m = Nat("cnt"); ix, jx = z3.Function(f"ix{next(CNT)}", I, I), z3.Function(f"jx{next(CNT)}", I, I); q = z3.Int("q"); n = lift(cs._shape[0])
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.t), z3.And(ix(q) >= 0, ix(q) < n, to_bool(lift(cs.at(ix(q)))), jx(ix(q)) == q)), patterns=[ix(q)]))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, to_bool(lift(cs.at(q)))), z3.And(jx(q) >= 0, jx(q) < m.t, ix(jx(q)) == q)), patterns=[jx(q)]))
        E.assume(m.t <= n); r = SArr((m,), lambda k: ix(k), "i"); r.back = jx; self.wh = getattr(self, "wh", []) + [jx]; return (r,)
    def flatnonzero(self, cond): return self.where(cond)[0]
    def nonzero(self, cond): return self.where(cond)
    def unique(self, x, axis=None):
        self.c.ob("rows are compared", axis == 0); xs = x.snapshot(); m = Nat("uq"); ix, jx = z3.Function(f"ux{next(CNT)}", I, I), z3.Function(f"uj{next(CNT)}", I, I); q = z3.Int("q"); n = lift(xs._shape[0])
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.t), z3.And(ix(q) >= 0, ix(q) < n)), patterns=[ix(q)]))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(jx(q) >= 0, jx(q) < m.t)), patterns=[jx(q)]))
        r = SArr((m, xs._shape[1]), lambda k, p: xs.at(ix(k), p), "i"); r.uq = (xs, ix, jx)
        self.uqs = getattr(self, "uqs", []) + [(xs, ix, jx)]; return r
for xe in (True, False):
    def mkt(xe):
        @contract("C15", SP + ":_remove_trivial_faults", f"coset leaders heavier than the allowed weight ({'X' if xe else 'Z'})")
        def f(c):
            md = c.mod(SP); m, n, num, d, dx, dz = Nat("m"), Nat("n", 1), Nat("num", 1), Nat("d", 1), Nat("dx", 1), Nat("dz", 1); E.assume(z3.And(dx.t >= d.t, dz.t >= d.t)); fl = Filt(c); md.np = fl
            F0 = z3.Function("F0", I, I, I); LD = z3.Function("LD", I, I, I); q, p = z3.Ints("q p")
            E.assume(z3.ForAll([q, p], z3.And(LD(q, p) >= 0, LD(q, p) <= 1), patterns=[LD(q, p)])); E.assume(z3.ForAll([q, p], z3.And(F0(q, p) >= 0, F0(q, p) <= 1), patterns=[F0(q, p)]))
            F = SArr((m, n), lambda i, j: F0(i, j), "i"); F._vc_born = born(); S_ = Tok("stabilizers"); code = c.obj("codes.css_code", "CSSCode", distance=d, x_distance=dx, z_distance=dz)
            def leader(v, st):
                c.ob("modulo the given stabilizers", st is S_)
                if not c.ob("a fault", isinstance(v, SArr) and v.ndim == 1): raise PathEnd()
                x = fresh("x"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(x >= 0, x < n.t)); t = simp(lift(v.at(x))); ks = []
                    def go(e):
                        if z3.is_app(e):
                            if e.decl().eq(F0) or e.decl().eq(LD): ks.append(e.arg(0))
                            for a in e.children(): go(a)
                    go(t); k = next((k for k in ks if E.entails(t == F0(k, x))), None)
                finally: E.ctxs.pop()
                if not c.ob("of a fault as given", k is not None): raise PathEnd()
                return SArr((n,), lambda j: LD(k, j), "i")
            md._coset_leader = leader; st = {}
            def find(vals):
                for x in list(vals.values()) + list(h.free.values()):
                    if isinstance(x, SArr) and x.ndim == 2 and x is not F: return x
                c.ob("the faults are copied before they are reduced", False); raise PathEnd()
            def init(vals, cnt):
                c.ob("all faults", cnt == m.t); st["a"] = find(vals); i, j = fresh("i"), fresh("j"); E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(i >= 0, i < m.t, j >= 0, j < n.t)); c.ob("the given faults", z3.And(lift(st["a"].at(i, j)) == F0(i, j), lift(st["a"]._shape[0]) == m.t))
                finally: E.ctxs.pop()
            def havoc(vals, k): st["a"].update(lambda idx, old: z3.If(idx[0] < k, LD(idx[0], idx[1]), F0(idx[0], idx[1]))); return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); i, j = fresh("i"), fresh("j"); E.ctxs.append(core.Ctx([]))
                try: E.assume(z3.And(i >= 0, i < m.t, j >= 0, j < n.t)); c.ob("row k becomes its coset leader", lift(st["a"].at(i, j)) == z3.If(i < k + 1, LD(i, j), F0(i, j)))
                finally: E.ctxs.pop()
            h = LoopHook(c, "_remove_trivial_faults", init, havoc, step)
            thr = num.t * (z3.If(((dx if xe else dz).t - 1) / 2 >= 1, ((dx if xe else dz).t - 1) / 2, 1) / z3.If((d.t - 1) / 2 >= 1, (d.t - 1) / 2, 1))
            WT = lambda s: ssum(0, n.t, lambda j: LD(s, j))
            def post(r):
                if not c.ob("a matrix of faults", isinstance(r, SArr) and r.ndim == 2): return
                i, j, s = fresh("i"), fresh("j"), fresh("s"); E.assume(z3.And(j >= 0, j < n.t)); c.ob("one column per qubit", lift(r._shape[1]) == n.t)
                E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(i >= 0, i < lift(r._shape[0]))); t = simp(lift(r.at(i, j))); ks = []
                    def go(e):
                        if z3.is_app(e):
                            if e.decl().eq(LD): ks.append(e.arg(0))
                            for a in e.children(): go(a)
                    go(t); k = next((k for k in ks if E.entails(t == LD(k, j))), None)
                    if c.ob("every row is the leader of a given fault", k is not None):
                        c.ob("a given fault", z3.And(k >= 0, k < m.t)); c.ob("heavier than the allowed weight", WT(k) > thr); lemma(c, "at least the number of faults", thr >= num.t); c.ob("at least two qubits", WT(k) >= 2)
                finally: E.ctxs.pop()
                E.assume(z3.And(s >= 0, s < m.t, WT(s) > thr)); un = getattr(fl, "uqs", [])
                alts = [s] + [u[2](s) for u in un]; terms = list(alts)
                for w in getattr(fl, "wh", []): terms += [w(s)] + [u[2](w(s)) for u in un]
                hit = next((t for t in terms if E.entails(z3.And(t >= 0, t < lift(r._shape[0]))) and same_row(r, t, s)), None)
                c.ob("every heavier leader is kept", hit is not None)
            def same_row(r, t, s):
                x = fresh("x"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(x >= 0, x < n.t))
                    for xs, ix, jx in getattr(fl, "uqs", []):        # the same row again (where it was, it is)
                        w = getattr(fl, "wh", [lambda q: q])[-1](s); E.assume(lift(xs.at(ix(jx(w)), x)) == lift(xs.at(w, x)))
                        E.assume(lift(xs.at(ix(jx(s)), x)) == lift(xs.at(s, x))) if E.entails(s < lift(xs._shape[0])) else None
                    return E.entails(lift(r.at(t, x)) == LD(s, x))
                finally: E.ctxs.pop()
            c.run(lambda: (setattr(fl, "uqs", []), setattr(fl, "wh", []), c.fn()(F, S_, code, xe, num))[2], post)
    mkt(xe)
INS = z3.Function("IN_SPAN", VS, B)       # sums of the stabilizers
class Span:
    """stabilizers followed by further rows"""
    def __init__(self, rows): self.rows = rows
    def copy(self): return self
    @property
    def shape(self): return (Nat("srows", 1), Nat("scols", 1))
class IdxSet:
    """set of indices, known by membership"""
    def __init__(self, mem): self.mem = mem; self._vc_born = born()
    def _vc_save(self): return self.mem
    def _vc_load(self, s): self.mem = s
    def add(self, i): E.touch(self); t = lift(i); old = self.mem; self.mem = lambda x: z3.Or(x == t, old(x))
    def __contains__(self, i): return bool(mk(self.mem(lift(i))))
    def vc_contains(self, i): return mk(self.mem(lift(i)))
    def __sub__(self, o): a, b = self.mem, o.mem; return IdxSet(lambda x: z3.And(a(x), z3.Not(b(x))))
    def __vc_len__(self):
        x = z3.Int(f"sx{next(CNT)}"); n = Nat("cnt"); mem = self.mem; E.assume((n.t == 0) == z3.Not(z3.Exists([x], mem(x)))); return n
    def vc_list(self): return self
    def vc_seq(self): raise Unsupported("iteration over a set of indices")
class FRows:
    """faults as rows of vectors f(0..N-1)"""
    __array_ufunc__ = None
    def __init__(self, m, fn): self.m, self.fn = m, fn
    def copy(self): return FRows(self.m, self.fn)
    def __vc_len__(self): return self.m
    @property
    def shape(self): return (self.m, Nat("ncols"))
    def vc_seq(self): return Seq(self.m, lambda i: Row(self.fn(lift(i))))
    def __getitem__(self, k):
        if isinstance(k, slice) and k.stop is None and k.step is None:
            a = lift(k.start or 0); E.oblige_rt("slice start", a >= 0); f = self.fn
            return FRows(mk(z3.If(lift(self.m) - a > 0, lift(self.m) - a, 0)), lambda i: f(i + a))
        if isinstance(k, IdxSet): return Sel(self, k.mem)
        if isinstance(k, (V, int)): return Row(self.fn(lift(k)))
        raise Unsupported("selection of faults")
class Sel:
    def __init__(self, src, mem): self.src, self.mem = src, mem
@contract("C15", SP + ":_remove_stabilizer_equivalent_faults")
def equivf(c):
    md = c.mod(SP); N = Nat("N"); f = z3.Function("FV", I, VS); S0 = Span([]); faults = FRows(N, lambda i: f(i)); st = {}
    a, b = z3.Const("va", VS), z3.Const("vb", VS)
    E.assume(z3.ForAll([a, b], z3.Implies(INS(a), INS(VADD(a, b)) == INS(b)), patterns=[VADD(a, b)])); E.assume(z3.ForAll([a, b], VADD(a, b) == VADD(b, a), patterns=[VADD(a, b)]))
    class NX:
        def __getattr__(s, x): return getattr(np, x)
        def vstack(s, xs):
            xs = list(A.list_items(xs)); rows = []
            if not c.ob("stabilizers extended by faults", isinstance(xs[0], Span) and all(isinstance(x, Row) for x in xs[1:])): raise PathEnd()
            return Span(xs[0].rows + [x.t for x in xs[1:]])
        def array(s, x, *r, **k): return Sel(faults, lambda q: z3.BoolVal(False)) if isinstance(x, (list, PList)) and (not x if isinstance(x, list) else not x.segs) else np.array(x, *r, **k)
    class M2:
        def rank(s, x):
            E.trust("ldpc.mod2.rank: the rank grows by one exactly when the new row is no sum of the others"); r = z3.Int("RANK0"); acc = []
            def ins(rows, v):
                if not rows: return INS(v)
                return z3.Or(ins(rows[:-1], v), ins(rows[:-1], VADD(rows[-1], v)))
            for v in x.rows: r = r + z3.If(ins(acc, v), 0, 1); acc = acc + [v]
            return V(r)
    md.np, md.mod2 = NX(), M2(); sets = []
    def mkset(x=None):
        if x is None: s = IdxSet(lambda q: z3.BoolVal(False)); sets.append(s); return s
        x = x if not isinstance(x, PList) else x; n = getattr(x, "n", None)
        if isinstance(x, IdxSet): return x
        return IdxSet(lambda q: z3.And(q >= 0, q < N.t)) if n is not None and E.entails(lift(n) == N.t) else (_ for _ in ()).throw(Unsupported("set"))
    md.set = mkset; md.list = lambda x=(): x if isinstance(x, IdxSet) else (_ for _ in ()).throw(Unsupported("list"))
    md.sorted = md.list
    eqv = lambda x, y: z3.Or(INS(f(x)), INS(VADD(f(y), f(x))))
    class Inner(LoopHook):
        pass
    def good(mem, x, k, W):
        """index x may be removed: it is trivial, or equivalent to a kept earlier fault before k"""
        return z3.Implies(mem(x), z3.And(x >= 0, x < N.t, z3.Or(INS(f(x)), z3.And(W(x) >= 0, W(x) < k, z3.Not(mem(W(x))), INS(VADD(f(W(x)), f(x)))))))
    def init(vals, cnt):
        c.ob("all faults", cnt == N.t)
        if not c.ob("one set of removed faults", len(sets) == 1): raise PathEnd()
        st["s"] = sets[0]; x = fresh("x"); c.ob("nothing removed yet", z3.Not(st["s"].mem(x)))
    def havoc(vals, k):
        s = st["s"]; u = next(CNT); R, W = z3.Function(f"REM{u}", I, B), z3.Function(f"WIT{u}", I, I); x = z3.Int("x"); E.touch(s); s.mem = lambda q: R(q); st.update(R=R, W=W, k=k, x=None)
        E.assume(z3.ForAll([x], good(lambda q: R(q), x, k, W), patterns=[R(x)])); return {}
    def step(old, new, k, how):
        s = st["s"]; x = fresh("x"); R, W = st["R"], st["W"]; c.ob("the loop goes on", how == "next"); E.ctxs.append(core.Ctx([]))
        try:
            if st.get("x") is not None:
                pass
            c.ob("earlier decisions stand", z3.Implies(x < k, s.mem(x) == R(x)))
            E.assume(s.mem(x)); E.assume(z3.Implies(R(x), good(lambda q: R(q), x, k, W)))
            c.ob("only trivial faults and equivalents of a kept one are removed", z3.And(x >= 0, x < N.t, z3.Or(INS(f(x)), z3.And(W(x) >= 0, W(x) < k + 1, z3.Not(s.mem(W(x))), INS(VADD(f(W(x)), f(x)))), z3.And(z3.Not(s.mem(k)), INS(VADD(f(k), f(x)))))))
        finally: E.ctxs.pop()
    def iinit(vals, cnt): st["in"] = st["s"].mem; st["cnt"] = cnt; c.ob("the following faults", cnt <= N.t)
    def ihavoc(vals, j):
        s = st["s"]; R2 = z3.Function(f"ADDED{next(CNT)}", I, B); x = z3.Int("x"); E.touch(s); base = st["in"]; s.mem = lambda q: z3.Or(base(q), R2(q)); st["R2"] = R2; st["cur"] = s.mem
        E.assume(z3.ForAll([x], z3.Implies(R2(x), z3.And(x > st["k"], x < N.t, eqv(x, st["k"]))), patterns=[R2(x)])); return {}
    def istep(old, new, j, how):
        s = st["s"]; x = fresh("x"); c.ob("inner loop goes on", how == "next"); cur = st["cur"]; k = st["k"]; E.ctxs.append(core.Ctx([]))
        try:
            E.assume(s.mem(x)); c.ob("only faults equivalent to fault i are removed", z3.Or(cur(x), z3.And(x > k, x < N.t, eqv(x, k))))
        finally: E.ctxs.pop()
        y = fresh("y"); c.ob("nothing is put back", z3.Implies(cur(y), s.mem(y)))
    inner = LoopHook(c, "_remove_stabilizer_equivalent_faults", iinit, ihavoc, istep)
    h = LoopHook(c, "_remove_stabilizer_equivalent_faults", init, havoc, step, inner=inner)
    def post(r):
        if not c.ob("a selection of the faults", isinstance(r, Sel) and (r.src.fn is faults.fn)): return
        x, W = fresh("x"), st["W"]; E.assume(z3.And(x >= 0, x < N.t))
        y = W(x); c.ob("kept faults are given ones", z3.Implies(r.mem(x), z3.And(x >= 0, x < N.t)))
        keep = lambda q: z3.And(q >= 0, q < N.t, r.mem(q))
        c.ob("every fault that is no stabilizer is equivalent to a kept one", z3.Implies(z3.Not(INS(f(x))), z3.Or(keep(x), z3.And(keep(y), INS(VADD(f(y), f(x)))))))
    c.run(lambda: (sets.clear(), c.fn()(faults, S0))[1], post)
@contract("C15", SP + ":_coset_leader", "the added constraint is membership in the coset, the objective the weight")
def leader(c):
    n, m = Nat("n", 1), Nat("m"); md, z = setup14(c, n); gens = binmat("gens", m, n); err = binvec("err", n); E0, G0 = err.snapshot(), gens.snapshot()
    class Opt(Sol):
        def __init__(s): super().__init__(); s.obj = []; s.chk = 0
        def minimize(s, t): E.touch(s); s.obj = s.obj + [t]
        def check(s): s.chk += 1; return "sat"
        def _vc_save(s): return (list(s.fs), list(s.obj))
        def _vc_load(s, v): s.fs, s.obj = list(v[0]), list(v[1])
    opts = []
    class Z(type(z)):
        def Optimize(s): o = Opt(); opts.append(o); return o
        def Sum(s, xs):
            p = seqs.as_plist(xs)
            if len(p.segs) != 1 or p.segs[0][0] != "s": raise Unsupported("sum")
            return ("weight", p)
    md.z3 = Z(); z = md.z3; vts = []
    def v2s(meas, g):
        p = seqs.as_plist(meas); gs = g.snapshot(); vts.append(p)
        if not c.ob("one coefficient per generator", bool(E.entails(z3.And(lift(p.vc_len()) == m.t, lift(gs._shape[0]) == m.t, lift(gs._shape[1]) == n.t)))): raise PathEnd()
        return GArr((n,), lambda q: par(0, m.t, lambda i: z3.And(gt(p.get(V(i))), lift(gs.at(i, q)) == 1)))
    md._vars_to_stab = v2s
    def add(v, w):
        f = (lambda i: to_bool(lift(v.at(i)))) if isinstance(v, SArr) else v.fn; g = (lambda i: to_bool(lift(w.at(i)))) if isinstance(w, SArr) else w.fn
        return GArr((n,), lambda i: z3.Xor(f(i), g(i)))
    md._symbolic_vector_add = add
    def post(r):
        q, i = fresh("q"), fresh("i"); E.assume(z3.And(q >= 0, q < n.t))
        if not opts:
            c.ob("no generators: the error itself", m.t == 0); arr_is(c, "error", r, (n,), lambda j: E0.at(j)); return
        if not c.ob("one problem, one constraint, one objective", len(opts) == 1 and len(opts[0].fs) == 1 and len(opts[0].obj) == 1 and len(vts) == 1): return
        w = opts[0].obj[0]; p = w[1] if isinstance(w, tuple) else None
        if not c.ob("the objective counts the entries of the leader", p is not None and bool(E.entails(lift(p.vc_len()) == n.t))): return
        e = lambda j: gt(p.get(V(j))); co = lambda j: gt(vts[0].get(V(j)))
        ev, cv = e(q), co(i)
        c.ob("plain variables, one per entry and generator", z3.is_app(ev) and z3.is_app(cv) and ev.num_args() == 1 and cv.num_args() == 1 and ev.decl().kind() == z3.Z3_OP_UNINTERPRETED and not ev.decl().eq(cv.decl()) and ev.arg(0).eq(q) and cv.arg(0).eq(i))
        f = opts[0].fs[0]; spec = e(q) == z3.Xor(lift(E0.at(q)) == 1, par(0, m.t, lambda j: z3.And(co(j), lift(G0.at(j, q)) == 1)))
        if c.ob("a condition on every qubit", z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1):
            b = z3.substitute_vars(f.body(), q); E.ctxs.append(core.Ctx([])); E.assume(z3.And(q >= 0, q < n.t))
            body = b.arg(1) if z3.is_implies(b) else b
            c.ob("leader + error is a sum of generators: implied", z3.Implies(b, spec)); c.ob("leader + error is a sum of generators: sufficient", z3.Implies(spec, b)); E.ctxs.pop()
            c.ob("condition for the qubits only", z3.is_implies(b) and bool(E.entails(b.arg(0) == z3.And(q >= 0, q < n.t))))
        arr_is(c, "leader from the model", r, (n,), lambda j: b01(e(j)))
    NestLoops(c)
    c.run(lambda: (opts.clear(), vts.clear(), c.fn()(err, gens))[2], post)
@contract("C15", SP + ":_vars_to_stab", "entry q is the parity of the generators chosen by the variables")
def v2stab(c):
    m, n = Nat("m", 1), Nat("n", 1); md, z = setup14(c, n); gens = binmat("gens", m, n); ME = z3.Function("MEAS", I, B); meas = PList([("s", m, lambda i: G(ME(lift(i))))]); st = {}
    def mult(v, a):
        vs = v.snapshot(); return GArr((n,), lambda q: z3.And(lift(vs.at(q)) == 1, gt(a)))
    md._symbolic_scalar_mult = mult
    val = lambda k: (lambda q: par(0, k, lambda i: z3.And(ME(i), lift(gens.at(i, q)) == 1)))
    def find(vals): return [x for x in vals if isinstance(vals[x], GArr)]
    def eq(name, v, k):
        q = fresh("q"); E.ctxs.append(core.Ctx([]))
        try: E.assume(z3.And(q >= 0, q < n.t)); c.ob(name, z3.And(lift(v.shape[0]) == n.t, v.fn(q) == val(k)(q)))
        finally: E.ctxs.pop()
    def init(vals, cnt):
        ks = find(vals); st["off"] = m.t - cnt
        if not c.ob("one sum", len(ks) == 1): raise PathEnd()
        st["k"] = ks[0]; c.ob("the loop covers the last generators", z3.And(cnt <= m.t, cnt >= m.t - 1)); eq("sum on entry", vals[ks[0]], st["off"])
    def havoc(vals, k): return {st["k"]: GArr((n,), val(k + st["off"]))}
    def step(old, new, k, how): c.ob("the loop goes on", how == "next"); eq("one more generator", new[st["k"]], k + st["off"] + 1)
    h = LoopHook(c, "_vars_to_stab", init, havoc, step)
    def post(r):
        if c.ob("a vector of formulas", isinstance(r, GArr)): eq("sum of the chosen generators", r, m.t)
    c.run(lambda: c.fn()(meas, gens), post)
@contract("C15", SP + ":_symbolic_scalar_mult")
def smult(c):
    n = Nat("n", 1); md, z = setup14(c, n); v = binvec("v", n); a = z3.Bool("av")
    class Comp:
        """a comprehension whose entries are formulas or plain truth values"""
        def get(s, lid, d=None): return s.rule if lid.endswith("comp") else None
        def rule(s, rt, it, body, get, set_, names):
            fv = freevars(body); k = fresh("ck"); out = []
            def run():
                E.assume(z3.And(k >= 0, k < lift(it.n))); g, el = fv["lam"](it.item(V(k)))
                if g() is not True: raise Unsupported("condition")
                return gt(el())
            def on(p):
                if p.exc is not None: raise Unsupported("comprehension raises")
                out.append((z3.And(*[x for x in p.pc]) if p.pc else z3.BoolVal(True), p.result))
            E.explore(run, on); t = z3.BoolVal(False)
            for g, x in out: t = z3.If(g, x, t)
            res = fv["res"]; E.touch(res); res.segs = res.segs + [("s", it.n, lambda i, t=t, k=k: G(z3.substitute(t, (k, lift(i)))))]; return loops.CONT
    E.loops = Comp()
    def post(r):
        q = fresh("q")
        if c.ob("a vector of formulas", isinstance(r, GArr)): E.assume(z3.And(q >= 0, q < n.t)); c.ob("entry by entry", z3.And(lift(r.shape[0]) == n.t, r.fn(q) == z3.And(a, lift(v.at(q)) == 1)))
    c.run(lambda: c.fn()(v, G(a)), post)
# ------------------------------------------------------------------ the circuit object
for zero in (True, False):
    def mki(zero):
        @contract("C15", SP + ":StatePrepCircuit.__init__", f"stabilizers of the prepared state ({'zero' if zero else 'plus'})")
        def f(c):
            md = c.mod(SP); n, k, mx, mz = Nat("n", 1), Nat("k"), Nat("mx"), Nat("mz"); Hx, Hz, Lx, Lz = binmat("Hx", mx, n), binmat("Hz", mz, n), binmat("Lx", k, n), binmat("Lz", k, n); d = [Nat(x, 1) for x in ("d", "dx", "dz")]
            code = c.obj("codes.css_code", "CSSCode", Hx=Hx, Hz=Hz, Lx=Lx, Lz=Lz, n=n, distance=d[0], x_distance=d[1], z_distance=d[2]); ed = Bool("ed"); a = [x.snapshot() for x in (Hx, Hz, Lx, Lz)]
            class Circ: num_qubits = n
            circ = Circ()
            def rows(name, M, own, log, extra):
                r = fresh("r"); j = fresh("j"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(j >= 0, j < n.t)); h = lift(own._shape[0]); l = lift(log._shape[0]) if extra else z3.IntVal(0); c.ob(name + ": number", z3.And(lift(M._shape[0]) == h + l, lift(M._shape[1]) == n.t))
                    # any order of rows: logicals first or last
                    for nm, row, cnt in ((" checks", own, h),) + (((" logicals", log, l),) if extra else ()):
                        E.ctxs.append(core.Ctx([])); E.assume(z3.And(r >= 0, r < cnt)); off = [z3.IntVal(0), l if row is own else h]
                        c.ob(name + nm, z3.Or(*[z3.And(*[lift(M.at(r + o, j)) == lift(row.at(r, j))]) for o in off])) if not any(E.entails(lift(M.at(r + o, j)) == lift(row.at(r, j))) for o in off) else c.ob(name + nm, True); E.ctxs.pop()
                finally: E.ctxs.pop()
            def post(o):
                c.ob("circuit and code are kept", o.circ is circ and o.code is code and o.zero_state is zero); c.ob("number of qubits", lift(o.num_qubits) == n.t)
                rows("X stabilizers", o.x_checks, a[0], a[2], not zero); rows("Z stabilizers", o.z_checks, a[1], a[3], zero)
                half = lambda x: z3.If(z3.Or(to_bool(ed.t), d[0].t == 2), x / 2, (x - 1) / 2)
                c.ob("number of errors to consider", z3.And(lift(o.max_errors) == half(d[0].t), lift(o.max_x_errors) == half(d[1].t), lift(o.max_z_errors) == half(d[2].t)))
                for nm in ("x_fault_sets", "z_fault_sets", "x_fault_sets_unreduced", "z_fault_sets_unreduced"):
                    p = seqs.as_plist(getattr(o, nm)); x = fresh("x"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(x >= 0, x <= lift(o.max_errors))); c.ob("no fault sets yet", p.get(V(x)) is None and bool(E.entails(lift(p.vc_len()) == lift(o.max_errors) + 1))); E.ctxs.pop()
                c.ob("separate lists", len({id(getattr(o, nm)) for nm in ("x_fault_sets", "z_fault_sets", "x_fault_sets_unreduced", "z_fault_sets_unreduced")}) == 4)
                c.ob("numbers of available measurements", z3.And(lift(o.max_x_measurements) == lift(o.x_checks._shape[0]), lift(o.max_z_measurements) == lift(o.z_checks._shape[0])))
            c.run(lambda: c.cls(SP, "StatePrepCircuit")(circ, code, zero, ed), post)
    mki(zero)
