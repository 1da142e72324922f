"""exact simulation of (possibly mixed) stabilizer states: a state is a group of commuting signed Pauli operators"""
class Unsupported(Exception): pass
def pc(x): return bin(x).count("1")
class P:
    """i^k X^x Z^z (x, z bit masks over qubits)"""
    __slots__ = ("x", "z", "k")
    def __init__(self, x=0, z=0, k=0): self.x, self.z, self.k = x, z, k & 3
    def __mul__(self, o): return P(self.x ^ o.x, self.z ^ o.z, self.k + o.k + 2 * pc(self.z & o.x))
    def comm(self, o): return (pc(self.x & o.z) + pc(self.z & o.x)) % 2 == 0
    def copy(self): return P(self.x, self.z, self.k)
    def __repr__(self): return f"{self.k}:{self.x:b}/{self.z:b}"
def X(*q): return P(sum(1 << i for i in q), 0)
def Z(*q): return P(0, sum(1 << i for i in q))
def Y(*q):
    r = P()
    for i in q: r = r * P(1 << i, 1 << i, 1)
    return r
class State:
    def __init__(self, gens=()): self.g = [p.copy() for p in gens]
    def copy(self): return State(self.g)
    # --- Clifford gates
    def x(self, q):
        for p in self.g: p.k = (p.k + 2 * (p.z >> q & 1)) & 3
    def z(self, q):
        for p in self.g: p.k = (p.k + 2 * (p.x >> q & 1)) & 3
    def y(self, q): self.x(q); self.z(q)
    def i(self, q): pass
    def h(self, q):
        b = 1 << q
        for p in self.g:
            x, z = p.x >> q & 1, p.z >> q & 1
            p.k = (p.k + 2 * (x & z)) & 3; p.x = p.x & ~b | z << q; p.z = p.z & ~b | x << q
    def s(self, q):
        for p in self.g:
            if p.x >> q & 1: p.z ^= 1 << q; p.k = (p.k + 1) & 3
    def sdg(self, q): self.s(q); self.z(q)
    def cx(self, c, t):
        for p in self.g:
            if p.x >> c & 1: p.x ^= 1 << t
            if p.z >> t & 1: p.z ^= 1 << c
    def cz(self, c, t): self.h(t); self.cx(c, t); self.h(t)
    def cy(self, c, t): self.sdg(t); self.cx(c, t); self.s(t)
    def swap(self, a, b): self.cx(a, b); self.cx(b, a); self.cx(a, b)
    # --- membership
    def reduce(self, q):
        """product of generators equal to the operator q up to a phase: the phase (as power of i relative to q), or None"""
        rows = [p.copy() for p in self.g]; t = q.copy(); used = P()
        acc = q.copy()
        # Gaussian elimination over the symplectic vectors
        piv = []
        for r in rows:
            r = r.copy()
            for b, pr in piv:
                if self.bit(r, b): r = r * pr
            v = self.low(r)
            if v is None: continue
            piv = [(b, (pr * r if self.bit(pr, v) else pr)) for b, pr in piv] + [(v, r)]
        for b, pr in piv:
            if self.bit(acc, b): acc = acc * pr
        return acc.k if acc.x == 0 and acc.z == 0 else None
    @staticmethod
    def bit(p, b): return (p.x >> (b >> 1) & 1) if b & 1 == 0 else (p.z >> (b >> 1) & 1)
    @staticmethod
    def low(p):
        v = p.x | p.z
        if not v: return None
        q = (v & -v).bit_length() - 1
        return 2 * q if p.x >> q & 1 else 2 * q + 1
    def value(self, q):
        """+1 / -1 when the state is an eigenstate of the Hermitian operator q, 0 otherwise"""
        if any(not p.comm(q) for p in self.g): return 0
        k = self.reduce(q)
        if k is None: return 0
        if k == 0: return 1
        if k == 2: return -1
        raise Unsupported("operator is not Hermitian")
    def has(self, q): return self.value(q) == 1
    # --- measurement and reset
    def project(self, q, bit):
        """measure the operator q with the given outcome (random outcome only)"""
        q = q.copy(); q.k = (q.k + 2 * bit) & 3
        bad = [p for p in self.g if not p.comm(q)]
        if bad:
            a = bad[0]; self.g = [p if p.comm(q) else p * a for p in self.g if p is not a]
        self.g.append(q)
    def clear(self, q):
        """discard the qubit: keep the part of the group that acts trivially on it"""
        for part in (0, 1):
            hit = [p for p in self.g if ((p.x if part == 0 else p.z) >> q & 1)]
            if hit:
                a = hit[0]; self.g = [(p * a if ((p.x if part == 0 else p.z) >> q & 1) else p) for p in self.g if p is not a]
        self.g = [p for p in self.g if p.x or p.z]
    def reset(self, q): self.clear(q); self.g.append(Z(q))
    # --- gates with controls (controls: list of (qubit, positive))
    def gate(self, name, cs, ts):
        name = {"id": "i", "rz": None}.get(name, name)
        live = []
        for q, pos in cs:
            v = self.value(Z(q))
            if v == 0: live.append((q, pos)); continue
            if (v == -1) != pos: return
        if name == "swap":
            if live: raise Unsupported("controlled swap")
            return self.swap(*ts)
        if name == "barrier": return
        for t in ts:
            if not live:
                if name not in ("i", "x", "y", "z", "h", "s", "sdg"): raise Unsupported("gate " + str(name))
                getattr(self, name)(t)
            elif len(live) == 1:
                c, pos = live[0]
                if not pos: self.x(c)
                if name == "x": self.cx(c, t)
                elif name == "z": self.cz(c, t)
                elif name == "y": self.cy(c, t)
                elif name == "i": pass
                else: raise Unsupported("controlled " + str(name))
                if not pos: self.x(c)
            else:
                if name in ("z",) and self.value(Z(t)) == 1: continue
                raise Unsupported("several controls")
def run(state, ops, bits=None, limit=4096):
    """all branches (state, classical bits) of the operation list; an operation is (name, controls, targets, clbits) or ("if", op, start, length, value)"""
    todo = [(state.copy(), dict(bits or {}), 0)]; out = []
    while todo:
        s, b, i = todo.pop()
        while i < len(ops):
            o = ops[i]; i += 1
            if o[0] == "if":
                if any(o[2] + j not in b for j in range(o[3])): raise Unsupported("condition on a classical bit that was not written")
                if sum(b[o[2] + j] << j for j in range(o[3])) == o[4]: s.gate(o[1][0], o[1][1], o[1][2])
            elif o[0] == "measure":
                if len(o[2]) != len(o[3]): raise Unsupported("measure")
                for n, (q, c) in enumerate(zip(o[2], o[3])):
                    v = s.value(Z(q))
                    if v: b[c] = int(v < 0)
                    else:
                        s2, b2 = s.copy(), dict(b); s2.project(Z(q), 1); b2[c] = 1
                        rest = ("measure", [], o[2][n + 1:], o[3][n + 1:])
                        if rest[2]: raise Unsupported("measure of several qubits at once")
                        if len(todo) + len(out) > limit: raise Unsupported("too many branches")
                        todo.append((s2, b2, i)); s.project(Z(q), 0); b[c] = 0
            elif o[0] == "reset":
                for q in o[2]: s.reset(q)
            else: s.gate(o[0], o[1], o[2])
        out.append((s, b))
    return out
