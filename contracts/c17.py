from contracts.lib import *
SP = "ft_stateprep.state_prep"
NOTES = dict(assumptions=["the qubits of a stabilizer are pairwise different and differ from the ancilla; ancilla and classical bits are fresh"],
             trusted=["qiskit QuantumCircuit: h, cx (broadcast over two lists of equal length), measure, reset, add_register, compose append the named operations; registers are indexed from 0 and raise IndexError beyond their size",
                      "operator identities used by the circuit monitor: controlled-NOTs with the ancilla as common target (Z type; common control for X type) commute; a flag in |+> whose couplings to the ancilla cancel returns to |0> under H (dual statement for X type)"],
             outside=["behaviour of the gadgets under noise (C16)"],
             explanation="The quantum circuit is replaced by a monitor that keeps, for every data qubit and flag, whether it is coupled to the ancilla an odd number of times, and the state of ancilla and flags. This is the exact state of the register for gates of this form: for Z type the ancilla holds the parity of the coupled qubits and open flags, for X type the same in the Hadamard-dual basis. A flag may only be rotated back, measured or reset when its couplings cancel. Gadget contract: at the end the ancilla is measured into the requested bit holding exactly the parity of the stabilizer's qubits, every flag is measured into a bit of its own with outcome 0.")
class Q:
    """qubit: ('d', index) data, ('f', reg, index) flag, ('a', index) ancilla"""
    def __init__(self, kind, reg, i): self.kind, self.reg, self.i = kind, reg, i
    def vc_subst(self, pairs): return Q(self.kind, self.reg, z3.substitute(self.i, *pairs) if isinstance(self.i, z3.ExprRef) else self.i)
class Reg:
    def __init__(self, kind, n=0, name=None): self.kind, self.n, self.name, self.added = kind, lift(n), name, False; self._vc_born = born()
    def _vc_save(self): return self.added
    def _vc_load(self, s): self.added = s
    def __getitem__(self, k):
        k = lift(k); k = z3.If(k < 0, k + self.n, k)
        if not bool(mk(z3.And(k >= 0, k < self.n))): raise IndexError("register index out of range")
        return Q(self.kind, self, k)
    def __vc_len__(self): return mk(self.n)
def upd(f, i, v): return lambda j: z3.If(j == i, v(f(j)) if callable(v) else v, f(j))
def tog(t): return z3.Not(t)
FRESH, OPEN, CLOSED, DONE = 0, 1, 2, 3
class QC:
    """monitor for one gadget (one ancilla)"""
    def __init__(self, c, zt, anc, bit, freg=None):
        self.c, self.z, self.anc, self.bit = c, zt, anc, bit; self._vc_born = born()
        F = lambda j: z3.BoolVal(False)
        self.dc, self.fc, self.used = F, F, F                          # couplings of data qubits and flags; flag bits written
        self.fs = lambda j: z3.IntVal(FRESH if zt else OPEN)          # state of the flags
        self.a = 0 if not zt else 1                                   # ancilla: 0 fresh, 1 ready, 2 done, 3 measured
        self.freg = self.creg = None
    F = ("dc", "fc", "used", "fs", "a", "freg", "creg")
    def _vc_save(self): return tuple(getattr(self, x) for x in self.F)
    def _vc_load(self, s):
        for x, v in zip(self.F, s): setattr(self, x, v)
    def ob(self, n, g): self.c.ob(n, g)
    def add_register(self, r):
        E.touch(self); E.touch(r); r.added = True
        if r.kind == "f":
            if self.freg is not None: raise Unsupported("second flag register")
            self.freg = r
        elif r.kind == "b":
            if self.creg is not None: raise Unsupported("second flag bit register")
            self.creg = r
    def kind(self, q):
        if not isinstance(q, Q): raise Unsupported("qubit expected")
        if q is self.anc or (q.kind == "a"): return "a"
        if q.kind == "f": self.ob("flag belongs to the circuit", q.reg is self.freg)
        return q.kind
    def h(self, q):
        E.touch(self); k = self.kind(q)
        if k == "a":
            self.ob("ancilla rotated only for X type, once before and once after the couplings", not self.z and self.a in (0, 1)); self.a += 1; return
        if k == "f":
            self.ob("flags are rotated only for Z type", self.z); i = q.i; st = self.fs(i)
            self.ob("flag is rotated when fresh or decoupled", z3.Or(st == FRESH, z3.And(st == OPEN, z3.Not(self.fc(i)))))
            self.fs = upd(self.fs, i, z3.If(st == FRESH, OPEN, CLOSED)); return
        self.ob("data qubits are not rotated", False)
    def cx(self, c, t):
        E.touch(self)
        if isinstance(c, PList) or isinstance(t, PList): return self.many(c, t)
        if not self.z: c, t = t, c                                     # dual picture
        kc, kt = self.kind(c), self.kind(t)
        self.ob("the ancilla collects the parity", kt == "a"); self.ob("ancilla is ready", self.a == 1)
        if kc == "d": self.dc = upd(self.dc, c.i, tog)
        elif kc == "f":
            self.ob("only open flags are coupled", self.fs(c.i) == OPEN); self.fc = upd(self.fc, c.i, tog)
        else: self.ob("ancilla coupled with itself", False)
    def many(self, c, t):
        c, t = (t, c) if not self.z else (c, t)
        c, t = seqs.as_plist(c), seqs.as_plist(t); n = lift(c.vc_len())
        self.ob("broadcast over lists of equal length", n == lift(t.vc_len())); self.ob("ancilla is ready", self.a == 1)
        x = fresh("bx"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(x >= 0, x < n)); q, a = c.get(V(x)), t.get(V(x))
            self.ob("the ancilla collects the parities", a is self.anc); self.ob("data qubits are coupled", isinstance(q, Q) and q.kind == "d")
            self.ob("in order", q.i == self.order(x))
        finally: E.ctxs.pop()
        old = self.dc; self.dc = lambda j: z3.Xor(old(j), z3.And(j >= self.order(0), j < self.order(0) + n))
    def order(self, x): return lift(x)                                 # data qubits are numbered by their position in the stabilizer
    def measure(self, q, b):
        E.touch(self); k = self.kind(q)
        if k == "a":
            self.ob("ancilla is measured in the right basis", self.a == (1 if self.z else 2)); self.a = 3
            self.ob("result goes into the requested bit", b is self.bit)
            w = self.w; j = fresh("mj"); l = fresh("ml")
            self.ob("the result is the parity of exactly the stabilizer's qubits", self.dc(j) == z3.And(j >= 0, j < w))
            self.ob("no flag is entangled with the result", z3.Not(self.fc(l)))
        elif k == "f":
            i = q.i; st = self.fs(i)
            self.ob("the flag is decoupled and rotated back when measured", z3.And(z3.Not(self.fc(i)), z3.Or(st == (CLOSED if self.z else OPEN), st == DONE)))
            self.fs = upd(self.fs, i, z3.IntVal(DONE))
            if self.ob2("the flag's result goes into a flag bit", isinstance(b, Q) and b.kind == "b" and b.reg is self.creg):
                self.ob("flag bits are written once", z3.Not(self.used(b.i))); self.used = upd(self.used, b.i, z3.BoolVal(True))
        else: self.ob("data qubits are not measured", False)
    def ob2(self, n, g): self.ob(n, g); return g
    def reset(self, q):
        E.touch(self); k = self.kind(q)
        if k != "f": self.ob("only flags are reset", False); return
        self.ob("only decoupled flags are reset", z3.Not(self.fc(q.i))); self.fs = upd(self.fs, q.i, z3.IntVal(FRESH if self.z else OPEN))
    def barrier(self, *a): pass
    def final(self, flags=True):
        self.ob("the ancilla has been measured", self.a == 3)
        if self.freg is not None:
            l = fresh("fl"); self.ob("every flag has been measured", z3.Implies(z3.And(l >= 0, l < self.freg.n), self.fs(l) == DONE))
            self.ob("flags are decoupled", z3.Implies(z3.And(l >= 0, l < self.freg.n), z3.Not(self.fc(l))))
            l2 = fresh("cl")
            self.ob("one bit per flag", z3.And(self.creg is not None, self.creg.n == self.freg.n) if self.creg is not None else False)
def setup(c, zt, w):
    md = c.mod(SP)
    md.AncillaRegister = lambda n=0, name=None: Reg("f", n, name); md.ClassicalRegister = lambda n=0, name=None: Reg("b", n, name)
    anc, bit = Q("a", None, 0), object(); qc = QC(c, zt, anc, bit); qc.w = lift(w)
    stab = PList([("s", mk(lift(w)), lambda i: Q("d", None, lift(i)))]) if not isinstance(w, int) else PList.of([Q("d", None, z3.IntVal(i)) for i in range(w)])
    return md, qc, stab, anc, bit
for zt in (True, False):
    ty = "Z type" if zt else "X type"
    def mk_(zt, ty):
        for w, nm in ((4, "measure_flagged_4"), (6, "measure_flagged_6"), (8, "measure_flagged_8")):
            @contract("C17", f"{SP}:{nm}", f"{nm}, {ty}")
            def f(c, w=w, nm=nm):
                md, qc, stab, anc, bit = setup(c, zt, w)
                c.run(lambda: getattr(md, nm)(qc, stab, anc, bit, zt), lambda r: qc.final(), modifies=[qc])
        @contract("C17", f"{SP}:_measure_stab_unflagged", f"unflagged, {ty}")
        def unfl(c):
            w = Nat("w", 1); md, qc, stab, anc, bit = setup(c, zt, w)
            def post(r): qc.final(); c.ob("no flags", qc.freg is None)
            c.run(lambda: md._measure_stab_unflagged(qc, stab, anc, bit, zt), post, modifies=[qc])
        @contract("C17", f"{SP}:_measure_stab_one_flagged", f"one flag, {ty}")
        def one(c):
            w = Nat("w", 2); md, qc, stab, anc, bit = setup(c, zt, w); st = {}
            def init(vals, n): c.ob("the inner qubits", n == w.t - 2); st["q"] = qc._vc_save()
            def at(k):
                old = st["q"][0]; return lambda j: z3.Xor(old(j), z3.And(j >= 1, j < 1 + k))
            def havoc(vals, k): E.touch(qc); qc._vc_load(st["q"]); qc.dc = at(k); return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); j = fresh("j"); d, s = qc._vc_save(), st["q"]
                c.ob("one qubit is coupled", d[0](j) == at(k + 1)(j)); c.ob("flags and ancilla as before", z3.And(d[1](j) == s[1](j), d[2](j) == s[2](j), d[3](j) == s[3](j), d[4] == s[4]))
            LoopHook(c, "_measure_stab_one_flagged", init, havoc, step)
            c.run(lambda: md._measure_stab_one_flagged(qc, stab, anc, bit, zt), lambda r: qc.final(), modifies=[qc])
        @contract("C17", f"{SP}:measure_stab_two_flagged", f"two flags, {ty}")
        def two(c):
            w = Nat("w", 5); md, qc, stab, anc, bit = setup(c, zt, w); st = {}
            # after k iterations 2 + k qubits are coupled; flag f >= 2 is coupled after 2f qubits and released after 2f + 3
            opened = lambda f, k: z3.And(f >= 0, z3.Or(f < 2, z3.And(2 * f <= 2 + k, 2 * f < w.t - 2)))
            closed = lambda f, k: z3.And(f >= 2, 2 * f + 3 <= 2 + k)
            def state(k):
                DN = z3.IntVal(DONE); fr = z3.IntVal(FRESH if zt else OPEN)
                return (lambda j: z3.And(j >= 0, j < 2 + k), lambda f: z3.And(opened(f, k), z3.Not(closed(f, k))), lambda f: closed(f, k),
                        lambda f: z3.If(closed(f, k), DN, z3.If(opened(f, k), z3.IntVal(OPEN), fr)), 1)
            def nopen(k): return z3.If(2 + k < w.t - 2, 1 + (2 + k) / 2, 1 + (w.t - 3) / 2)
            def nclosed(k): return z3.If(2 + k >= 7, (2 + k - 3) / 2 + 1, 2)
            NAMES = {"cnots": lambda k: 2 + k, "flags": nopen, "released": nclosed}
            def cmp(tag, k):
                d, s = qc._vc_save(), state(k); j = fresh("j")
                c.ob(f"{tag}: data couplings", d[0](j) == s[0](j))
                F = (w.t + 1) / 2 - 1; r = z3.And(j >= 0, j < F)
                c.ob(f"{tag}: flag couplings", z3.Implies(r, d[1](j) == s[1](j))); c.ob(f"{tag}: flag bits", z3.Implies(r, d[2](j) == s[2](j)))
                c.ob(f"{tag}: flag states", z3.Implies(r, d[3](j) == s[3](j))); c.ob(f"{tag}: ancilla", d[4] == s[4])
            def check(vals, k):
                for n, f in NAMES.items():
                    if n in vals and isinstance(vals[n], (V, int)): c.ob(f"counter {n}", lift(vals[n]) == f(k))
            def init(vals, n):
                c.ob("the inner qubits", n == w.t - 4); c.ob("registers", qc.freg is not None and qc.creg is not None)
                st["r"] = (qc.freg, qc.creg); cmp("before the loop", z3.IntVal(0)); check(vals, z3.IntVal(0))
            def havoc(vals, k):
                E.touch(qc); qc._vc_load(state(k) + st["r"])
                return {n: V(NAMES[n](k)) for n in vals if n in NAMES}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); cmp("after a step", k + 1); check(new, k + 1)
            LoopHook(c, "measure_stab_two_flagged", init, havoc, step)
            def post(r): c.ob("enough flags", qc.freg.n == (w.t + 1) / 2 - 1); qc.final()
            c.run(lambda: md.measure_stab_two_flagged(qc, stab, anc, bit, zt), post, modifies=[qc])
    mk_(zt, ty)

@contract("C17", f"{SP}:measure_flagged")
def dispatch(c):
    """callers are checked against the gadgets' contracts: which weight each accepts, what it measures"""
    md = c.mod(SP); w, t = Nat("w", 1), Nat("t", 0); z = Bool("z"); calls = []
    stab = PList([("s", w, lambda i: Q("d", None, lift(i)))]); qc, anc, bit = object(), object(), object()
    def gadget(lo, hi):
        def g(q, s, a, b, zm=True):
            c.ob("gadget suits the weight", z3.And(w.t >= lo, w.t <= hi) if hi else w.t >= lo)
            c.ob("the requested stabilizer, ancilla, bit and type", z3.And(q is qc and s is stab and a is anc and b is bit, to_bool(lift(zm)) == z.t))
            calls.append(1)
        return g
    md._measure_stab_unflagged, md._measure_stab_one_flagged, md.measure_stab_two_flagged = gadget(1, None), gadget(2, None), gadget(5, None)
    md.measure_flagged_4, md.measure_flagged_6, md.measure_flagged_8 = gadget(4, 4), gadget(6, 6), gadget(8, 8)
    def start(): calls.clear(); return md.measure_flagged(qc, stab, anc, bit, t, z)
    def post(r): c.ob("measured exactly once", len(calls) == 1)
    def exc(e):
        c.ob("only missing constructions are refused", isinstance(e, NotImplementedError) or "NotImplementedError" in type(e).__name__)
        c.ob("one and two faults are supported for every weight", z3.And(t.t != 1, t.t != 2)); c.ob("nothing was added", not calls)
    c.run(start, post, raises=exc)

class Supp:
    """support of a stabilizer: the qubits where the measurement is non-zero, in increasing order"""
    def __init__(self, pred, n): self.pred, self.n = pred, n
    def __vc_len__(self): return self.n
    def vc_subst(self, pairs): p = self.pred; return Supp(lambda q: z3.substitute(p(q), *pairs), self.n)
class Rep:
    """[ancilla] * len(support)"""
    def __init__(self, a, n): self.a, self.n = a, n
class QM:
    """monitor for a list of measurements: log of the operations of one generic iteration"""
    def __init__(self): self.log = []; self._vc_born = born()
    def _vc_save(self): return list(self.log)
    def _vc_load(self, s): self.log = list(s)
    def add_register(self, r): E.touch(self); self.log = self.log + [("reg", r)]
    def h(self, q): E.touch(self); self.log = self.log + [("h", q)]
    def cx(self, a, b): E.touch(self); self.log = self.log + [("cx", a, b)]
    def measure(self, q, b): E.touch(self); self.log = self.log + [("m", q, b)]
    def reset(self, q): E.touch(self); self.log = self.log + [("reset", q)]
def isrep(x, reg, k, n):
    """list of n copies of register entry k"""
    x = seqs.as_plist(x); i = fresh("ri"); E.ctxs.append(core.Ctx([]))
    try:
        E.assume(z3.And(i >= 0, i < lift(n))); q = x.get(V(i))
        return E.entails(lift(x.vc_len()) == lift(n)) and isinstance(q, Q) and q.reg is reg and E.entails(q.i == k)
    finally: E.ctxs.pop()
for xt in (True, False):
    def mk2(xt):
        fn = "_measure_ft_x" if xt else "_measure_ft_z"
        @contract("C17", f"{SP}:{fn}", fn)
        def f(c):
            md = c.mod(SP); N, nq = Nat("N", 0), Nat("nq", 1); M = z3.Function("M", I, I, B); t = Nat("t", 0); flags = Bool("flags"); qc = QM(); regs = []
            class NP:
                def __getattr__(s, a): return getattr(np, a)
                def where(s, cond):
                    if not isinstance(cond, SArr) or cond.ndim != 1: raise Unsupported("where")
                    n = Nat("wt", 0); w = Supp(lambda q: to_bool(cond.fn(q)), n); return (w,)
            md.np = NP()
            def reg(kind):
                def g(n=0, name=None): r = Reg(kind, n, name); regs.append(r); return r
                return g
            md.AncillaRegister, md.ClassicalRegister = reg("a"), reg("b")
            gad = []
            def mf(q, stab, a, b, t, z_measurement=True): E.touch(qc); qc.log = qc.log + [("gadget", q, stab, a, b, t, z_measurement)]
            md.measure_flagged = mf
            ms = PList([("s", N, lambda i: SArr((nq,), lambda q: b01(M(lift(i), lift(q))), "i"))])
            def same(s, k):
                if not isinstance(s, Supp): return False
                q = fresh("sq"); return E.entails(z3.Implies(z3.And(q >= 0, q < nq.t), s.pred(q) == M(k, q)))
            def init(vals, n):
                c.ob("all measurements", n == N.t)
                c.ob("an ancilla and a bit per measurement, registered first", len(regs) == 2 and sorted(r.kind for r in regs) == ["a", "b"] and [o[0] for o in qc.log] == ["reg", "reg"] and {id(o[1]) for o in qc.log} == {id(r) for r in regs} and all(E.entails(r.n == N.t) for r in regs))
            def havoc(vals, k): E.touch(qc); qc.log = []; return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next"); an = next(r for r in regs if r.kind == "a"); cb = next(r for r in regs if r.kind == "b"); lg = qc.log
                isan = lambda q: isinstance(q, Q) and q.reg is an and E.entails(q.i == k)
                isbit = lambda b: isinstance(b, Q) and b.reg is cb and E.entails(b.i == k)
                if E.entails(flags.t):
                    if c.ob("one flagged gadget", len(lg) == 1 and lg[0][0] == "gadget"):
                        _, q, s, a, b, tt, zm = lg[0]
                        c.ob("for this stabilizer, its ancilla, bit and type", q is qc and same(s, k) and isan(a) and isbit(b) and E.entails(lift(tt) == t.t) and E.entails(to_bool(lift(zm)) == (not xt)))
                elif xt:
                    if c.ob("rotated, coupled, rotated back, measured", [o[0] for o in lg] == ["h", "cx", "h", "m"]):
                        c.ob("its own ancilla and bit", isan(lg[0][1]) and isan(lg[2][1]) and isan(lg[3][1]) and isbit(lg[3][2]))
                        c.ob("coupled to exactly the support", same(lg[1][2], k) and isrep(lg[1][1], an, k, lg[1][2].n))
                else:
                    if c.ob("coupled", [o[0] for o in lg] == ["cx"]): c.ob("ancilla coupled to exactly the support", same(lg[0][1], k) and isrep(lg[0][2], an, k, lg[0][1].n))
            h = LoopHook(c, fn, init, havoc, step)
            def post(r):
                if h.hit == 0: c.ob("nothing to measure", N.t == 0); c.ob("nothing added", not qc.log); return
                an = next(r for r in regs if r.kind == "a"); cb = next(r for r in regs if r.kind == "b")
                if xt: c.ob("nothing after the measurements", not qc.log)
                else: c.ob("every ancilla is measured into its bit", len(qc.log) == 1 and qc.log[0][0] == "m" and qc.log[0][1] is an and qc.log[0][2] is cb)
            def start(): bool(flags); regs.clear(); h.hit = 0; E.loops = h; return getattr(md, fn)(qc, ms, t, flags)
            c.run(start, post, modifies=[qc])
    mk2(xt)
@contract("C17", f"{SP}:_measure_ft_stabs")
def stabs(c):
    md = c.mod(SP); xm, zm = object(), object(); log = []
    zs, ft = Bool("zs"), Bool("ft"); mx, mz, n = Nat("mx"), Nat("mz"), Nat("n", 1)
    circ = object()
    class MC:
        def __init__(s, *r): log.append(("new", s, r))
        def compose(s, other, inplace=False, **k): log.append(("compose", s, other, inplace, k))
    md.QuantumCircuit = MC; md.QuantumRegister = lambda k, name=None: ("qreg", k)
    md._measure_ft_x = lambda q, m, t, flags=False: log.append(("x", q, m, t, flags))
    md._measure_ft_z = lambda q, m, t, flags=False: log.append(("z", q, m, t, flags))
    sp = c.obj(SP, "StatePrepCircuit", num_qubits=n, circ=circ, zero_state=zs, max_x_errors=mx, max_z_errors=mz)
    def start(): bool(zs), bool(ft); log.clear(); return md._measure_ft_stabs(sp, xm, zm, ft)
    def post(r):
        if not c.ob("a circuit on the data qubits, preparation first", len(log) >= 3 and log[0][0] == "new" and log[1][0] == "compose" and log[1][1] is log[0][1] and log[1][2] is circ and log[1][3] is True and not log[1][4]
             and len(log[0][2]) == 1 and E.entails(lift(log[0][2][0][1]) == n.t)): return
        c.ob("that circuit is returned", r is log[0][1] and all(o[1] is r for o in log))
        first, second = ("z", "x") if E.entails(zs.t) else ("x", "z")
        ms = {"x": xm, "z": zm}
        ok = E.entails(ft.t)
        if c.ob("dangerous errors first, then (if asked) the others with flags", [o[0] for o in log[2:]] == ([first, second] if ok else [first])):
            c.ob("each type measures its own stabilizers", all(o[2] is ms[o[0]] for o in log[2:]))
            c.ob("second layer is flagged", not ok or (E.entails(to_bool(lift(log[3][4]))) and not E.feasible(z3.Not(to_bool(lift(log[3][4]))))))
            want = mx.t if first == "z" else mz.t
            c.ob("number of faults guarded against", z3.And(*[lift(o[3]) == want for o in log[2:]]))
    c.run(start, post)
