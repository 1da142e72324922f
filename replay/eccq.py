"""circuits, supported gates and simulation for the replays of the circuit encoders"""
import cxxbuild, stab, cmath, math, stim
from stab import P, State, X, Y, Z
Q = cxxbuild.ecc()
CODES = ["Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
RED = dict(Id=1, Q3Shor=3, Q5Laflamme=5, Q7Steane=7, Q9Shor=9, Q9Surface=9, Q18Surface=36)
ANC = dict(Id=0, Q3Shor=2, Q5Laflamme=4, Q7Steane=3, Q9Shor=8, Q9Surface=8, Q18Surface=0)
REGS = dict(Id=[], Q3Shor=[("qecc", 2)], Q5Laflamme=[("qecc", 4), ("encode", 1)], Q7Steane=[("qecc", 3)], Q9Shor=[("qeccX1", 2), ("qeccX2", 2), ("qeccX3", 2), ("qeccZ", 2)], Q9Surface=[("qeccX", 4), ("qeccZ", 4)], Q18Surface=[("qeccX", 8)])
DATA = {k: list(range(v)) for k, v in RED.items()}; DATA["Q18Surface"] = [1, 3, 5, 6, 8, 10, 13, 15, 17, 18, 20, 22, 25, 27, 29, 30, 32, 34]
def supported(code, name, nc):
    if name in ("measure", "barrier"): return True
    if code == "Id": return True
    if name == "i" and nc == 0: return True
    if code == "Q3Shor": return name in ("x", "y", "z", "s", "sdg", "t", "tdg", "i")
    if code == "Q5Laflamme": return name in ("x", "y", "z") and nc == 0
    if code == "Q7Steane": return name in ("x", "y", "z") and nc <= 1 or name in ("h", "s", "sdg", "t", "tdg") and nc == 0
    if code == "Q9Shor": return name in ("x", "y", "z") and nc <= 1
    if code in ("Q9Surface", "Q18Surface"): return name in ("x", "y", "z", "h") and nc == 0
def user_measures(ops): return [(t, c) for o in ops if o[0] == "measure" for t, c in zip(o[2], o[3])]
def flat(ops, nc):
    """one entry per single-qubit measurement"""
    out = []
    for o in ops:
        if o[0] == "measure": out += [("measure", [], [t], [c]) for t, c in zip(o[2], o[3])]
        else: out.append(o)
    return out
class Vec:
    """sparse state vector"""
    def __init__(self, n): self.v = {0: 1.0 + 0j}
    def prob1(self, q): return sum(abs(a) ** 2 for b, a in self.v.items() if b >> q & 1)
    def project(self, q, bit):
        self.v = {b: a for b, a in self.v.items() if (b >> q & 1) == bit}; n = math.sqrt(sum(abs(a) ** 2 for a in self.v.values())); self.v = {b: a / n for b, a in self.v.items()}
    def reset(self, q, rng):
        p = self.prob1(q); bit = int(rng.random() < p) if 1e-9 < p < 1 - 1e-9 else int(p > 0.5)
        self.project(q, bit)
        if bit: self.v = {b ^ (1 << q): a for b, a in self.v.items()}
    def gate(self, name, cs, ts):
        if name == "barrier": return
        W = cmath.exp(1j * math.pi / 4); ok = lambda b: all((b >> q & 1) == int(p) for q, p in cs)
        if name == "swap":
            a, c = ts; f = lambda b: b if (b >> a & 1) == (b >> c & 1) else b ^ (1 << a) ^ (1 << c)
            self.v = {f(b) if ok(b) else b: x for b, x in self.v.items()}; return
        for t in ts:
            ph = dict(i=1, z=-1, s=1j, sdg=-1j, t=W, tdg=W.conjugate())
            if name in ph: self.v = {b: x * (ph[name] if ok(b) and b >> t & 1 else 1) for b, x in self.v.items()}
            elif name == "x": self.v = {b ^ (1 << t) if ok(b) else b: x for b, x in self.v.items()}
            elif name == "y": self.v = {(b ^ (1 << t) if ok(b) else b): (x * (-1j if b >> t & 1 else 1j) if ok(b) else x) for b, x in self.v.items()}
            elif name == "h":
                n = {}
                for b, x in self.v.items():
                    if not ok(b): n[b] = n.get(b, 0) + x; continue
                    r = x / math.sqrt(2); lo = b & ~(1 << t)
                    n[lo] = n.get(lo, 0) + r; n[lo | 1 << t] = n.get(lo | 1 << t, 0) + (-r if b >> t & 1 else r)
                self.v = {b: x for b, x in n.items() if abs(x) > 1e-9}
            else: raise stab.Unsupported(name)
class Stim:
    """one stabilizer state (stim's tableau simulator)"""
    def __init__(self, n, s=None):
        self.n, self.s = n, s or stim.TableauSimulator()
        if s is None: self.s.set_num_qubits(n)
    def copy(self): return Stim(self.n, self.s.copy())
    def value(self, q): return self.s.peek_z(q)
    def project(self, q, bit): self.s.postselect_z(q, desired_value=bool(bit))
    def reset(self, q): self.s.reset(q)
    def stabilizers(self): return self.s.canonical_stabilizers()
    def has(self, g): return self.s.peek_observable_expectation(g) == 1
    ONE = dict(x="x", y="y", z="z", h="h", s="s", sdg="s_dag"); CTL = dict(x="cx", y="cy", z="cz")
    def gate(self, name, cs, ts):
        if name in ("barrier", "i"): return
        live = []
        for q, pos in cs:
            v = self.s.peek_z(q)
            if v == 0: live.append((q, pos))
            elif (v == -1) != pos: return
        if name == "swap":
            if live: raise stab.Unsupported("controlled swap")
            self.s.swap(*ts); return
        for t in ts:
            if not live:
                if name not in self.ONE: raise stab.Unsupported("gate " + str(name))
                getattr(self.s, self.ONE[name])(t)
            elif len(live) == 1 and name in self.CTL:
                c, pos = live[0]
                if not pos: self.s.x(c)
                getattr(self.s, self.CTL[name])(c, t)
                if not pos: self.s.x(c)
            elif name == "z" and self.s.peek_z(t) == 1: continue
            else: raise stab.Unsupported("several controls")
class Sim:
    """one random branch, by stabilizers or by vector"""
    def __init__(self, n, kind, rng): self.kind, self.rng, self.bits = kind, rng, {}; self.s = Stim(n) if kind == "stab" else Vec(n)
    def p1(self, q):
        if self.kind == "stab": return {1: 0.0, -1: 1.0, 0: 0.5}[self.s.value(q)]
        return self.s.prob1(q)
    def force(self, q, bit):
        p = self.p1(q)
        if self.kind == "stab":
            if p == 0.5: self.s.project(q, bit)
        else: self.s.project(q, bit)
    def pick(self, q):
        p = self.p1(q); return int(self.rng.random() < p) if 1e-9 < p < 1 - 1e-9 else int(p > 0.5)
    def step(self, o):
        if o[0] == "if":
            if any(o[2] + j not in self.bits for j in range(o[3])): raise KeyError("condition on an unwritten classical bit")
            if sum(self.bits[o[2] + j] << j for j in range(o[3])) == o[4]: self.s.gate(o[1][0], o[1][1], o[1][2])
        elif o[0] == "reset":
            for q in o[2]: self.s.reset(q) if self.kind == "stab" else self.s.reset(q, self.rng)
        elif o[0] == "measure":
            b = self.pick(o[2][0]); self.force(o[2][0], b); self.bits[o[3][0]] = b
        else: self.s.gate(o[0], o[1], o[2])
NAME = {"id": "i", "I": "i"}
def norm(o):
    if o[0] == "if": return ("if", norm(o[1]), o[2], o[3], o[4])
    return (NAME.get(o[0], o[0]), list(o[1]), list(o[2]), list(o[3]))
def compare(code, n, nc, ops, res, rng, kind="stab", inject=None):
    """None, or how the encoded circuit's measurement statistics differ from the original's along one random history"""
    mo = [norm(o) for o in res["ops"]]
    if inject: mo = mo[:inject[0]] + inject[1] + mo[inject[0]:]
    A, B = Sim(n, kind, rng), Sim(res["qubits"], kind, rng)
    orig = iter(flat([norm(o) for o in ops], nc))
    try:
        for o in flat(mo, nc):
            if o[0] == "measure" and o[3][0] < nc:
                for p in orig:
                    if p[0] == "measure": break
                    A.step(p)
                else: return f"measurement into the original classical bit {o[3][0]} that the circuit does not contain"
                if p[3] != o[3]: return f"measurement into classical bit {o[3][0]}, expected bit {p[3][0]}"
                pa, pb = A.p1(p[2][0]), B.p1(o[2][0])
                if abs(pa - pb) > 1e-6: return f"measuring logical qubit {p[2][0]} into bit {p[3][0]}: probability of 1 is {pb:.3f} instead of {pa:.3f}"
                b = A.pick(p[2][0]); A.force(p[2][0], b); B.force(o[2][0], b); B.bits[o[3][0]] = b
            else: B.step(o)
        for p in orig:
            if p[0] == "measure": return f"the measurement of qubit {p[2][0]} is missing"
    except KeyError as e: return str(e)
    return None
ALL = ["i", "x", "y", "z", "h", "s", "sdg", "t", "tdg"]
def circuit(rng, code, n, clifford=True, length=None, meas=True, gates=None, maxc=None):
    """random circuit over the code's supported gates"""
    ops = []; nc = n + rng.randint(0, 2)
    regs = []; left = nc
    names = ["c", "a", "z", "m", "b"]; rng.shuffle(names)
    while left: k = rng.randint(1, left); regs.append((names.pop(), k)); left -= k
    for _ in range(length or rng.randint(1, 8)):
        r = rng.random()
        if meas and r < 0.2: q = rng.randrange(n); ops.append(("measure", [], [q], [rng.randrange(nc)], [])); continue
        if r < 0.25: ops.append(("barrier", [], list(range(n)), [], [])); continue
        while True:
            g = rng.choice(gates or ALL); qs = list(range(n)); rng.shuffle(qs); k = rng.choice([0, 0, 1, 1, 2]) if maxc is None else rng.randint(0, maxc)
            k = min(k, n - 1)
            if clifford and (g in ("t", "tdg") or k > 1 or k == 1 and g not in ("x", "y", "z", "i")): continue
            if g == "h" and code == "Id" and k: continue
            if supported(code, g, k): break
        ops.append((g, [(q, rng.random() < 0.7) for q in qs[1:1 + k]], [qs[0]], [], []))
    if meas and rng.random() < 0.8:
        cl = list(range(nc)); rng.shuffle(cl)
        if rng.random() < 0.5: ops.append(("measure", [], list(range(n)), cl[:n], []))
        else: ops += [("measure", [], [q], [cl[q]], []) for q in range(n)]
    return n, nc, regs, ops
