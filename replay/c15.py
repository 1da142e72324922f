import numpy as np, itertools, logging
import rt, gf
from rt import check
from qiskit import QuantumCircuit
from qiskit.converters import circuit_to_dag
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import heuristic_prep_circuit, StatePrepCircuit
from mqt.qecc.ft_stateprep import state_prep as SPM
logging.disable(logging.CRITICAL)

def cxs(circ): return [tuple(circ.find_bit(q).index for q in i.qubits) for i in circ.data if i.operation.name == "cx"]
def carry(e, gates, x):
    e = np.array(e, dtype=int)
    for c, t in gates:
        if x: e[t] ^= e[c]
        else: e[c] ^= e[t]
    return e
def single(circ, n, x):
    """errors left by one fault of one gate (either qubit or both), or on one qubit"""
    g = cxs(circ); out = {tuple(np.eye(n, dtype=int)[i]) for i in range(n)}
    for k, (c, t) in enumerate(g):
        for a, b in ((1, 0), (0, 1), (1, 1)):
            e = np.zeros(n, int); e[c] ^= a; e[t] ^= b; out.add(tuple(carry(e, g[k + 1:], x).tolist()))
    return out
class Cosets:
    def __init__(self, S, n): self.S = list(gf.span(S)) if len(S) else [np.zeros(n, int)]; self.K = gf.kernel(np.asarray(S).reshape(-1, n)); self.w = {}
    def key(self, e): return tuple((self.K @ np.asarray(e).astype(int) % 2).tolist())
    def weight(self, e):
        k = self.key(e)
        if k not in self.w: self.w[k] = min(int(((s + np.asarray(e)) % 2).sum()) for s in self.S)
        return self.w[k]
def ksums(S1, k):
    acc = set(S1)
    for _ in range(k - 1): acc = {tuple(np.bitwise_xor(a, b).tolist()) for a in acc for b in S1}
    return acc
def maxw(code, x): 
    d = code.x_distance if x else code.z_distance; return max((d - 1) // 2, 1) // max((code.distance - 1) // 2, 1)
def compare(R, got, spec, cs, thr, n, inp, reduced):
    """got: computed set; spec: all errors"""
    got = np.asarray(got)
    if got.size == 0: got = got.reshape(0, n)
    want = {cs.key(e) for e in spec if cs.weight(e) > thr}; have = [cs.key(e) for e in got]
    R.ok(got.ndim == 2 and got.shape[1] == n and bool(np.all((got == 0) | (got == 1))), f"shape {got.shape} or entries", inp)
    miss, extra = want - set(have), set(have) - want
    R.ok(not miss, f"{len(miss)} errors of weight above {thr} are missing, e.g. {next((e for e in spec if cs.key(e) in miss), None)}", inp)
    R.ok(not extra, f"{len(extra)} computed errors are no faults, e.g. {next((e.tolist() for e in got if cs.key(e) in extra), None)}", inp)
    bad = [e.tolist() for e in got if int(e.sum()) != cs.weight(e)]; R.ok(not bad, f"not of minimum weight: {bad[:2]}", inp)
    if reduced: R.ok(len(set(have)) == len(have), "equivalent errors are kept", inp)
def randcode(rng, nmax, d, mmax=3):
    while True:
        n = rng.randint(2, nmax); Hx, Hz = gf.randcss(rng, n, rng.randint(1, mmax), rng.randint(1, mmax))
        Hx, Hz = np.array(Hx, dtype=np.int8).reshape(-1, n), np.array(Hz, dtype=np.int8).reshape(-1, n)
        if not len(Hx) or not len(Hz): continue
        try: code = CSSCode(d, Hx, Hz, x_distance=d + rng.choice([0, 0, 2]), z_distance=d + rng.choice([0, 0, 4]))
        except Exception: continue
        if code.k > 0: return code
def randcirc(rng, n, g):
    qc = QuantumCircuit(n)
    for q in range(n):
        if rng.random() < .5: qc.h(q)
    for _ in range(g): qc.cx(*rng.sample(range(n), 2))
    return qc
def one(R, code, circ, zero, ks, reduce=True, detection=False, inp=None, add=None, secs=60):
    inp = inp or dict(Hx=code.Hx.tolist(), Hz=code.Hz.tolist(), cnots=cxs(circ), zero=zero, reduce=reduce, detection=detection)
    sp = StatePrepCircuit(circ, code, zero, detection); n = code.n
    for x in (True, False):
        S = (np.vstack((code.Hx, code.Lx)) if not zero else code.Hx) if x else (np.vstack((code.Hz, code.Lz)) if zero else code.Hz); cs = Cosets(S[:12] if len(S) > 12 else S, n); S1 = single(circ, n, x); mw = maxw(code, x)
        for k in ks:
            if k > sp.max_errors: continue
            ok, got = R.call(lambda: sp.compute_fault_set(k, x, reduce), dict(inp, x=x, k=k), secs=secs)
            if not ok: return
            compare(R, got, ksums(S1, k), cs, mw * k, n, dict(inp, x=x, k=k), reduce)
    return sp
@check("fault sets of random circuits")
def rnd(R):
    rng = R.rng(); N = R.pick(600, 6000)
    for t in range(N):
        if R.out_of_time(): return
        code = randcode(rng, R.pick(6, 8), rng.choice([3, 3, 4, 5])); circ = randcirc(rng, code.n, rng.randint(0, R.pick(8, 14)))
        if not cxs(circ) and rng.random() < .7: continue
        one(R, code, circ, bool(t % 2), [1, 2] if code.n <= 5 else [1], rng.random() < .8, rng.random() < .3)
@check("circuits without entangling gates")
def empty(R):
    for Hx, Hz in (([[1, 0, 0]], [[0, 1, 1]]), ([[1, 0, 0, 0]], [[0, 1, 0, 0]])):
        code = CSSCode(3, np.array(Hx, dtype=np.int8), np.array(Hz, dtype=np.int8))
        for zero in (True, False): one(R, code, heuristic_prep_circuit(code, True, zero).circ, zero, [1])
@check("first gates, unused qubits and gates in any order")
def special(R):
    code = CSSCode.from_code_name("steane")
    for gates, hs in (([(0, 1), (2, 3), (0, 2), (4, 0)], []), ([(0, 1)], [0]), ([(0, 1), (0, 2), (0, 3), (0, 4)], [0]), ([(3, 0), (2, 0), (1, 0), (4, 0)], [1, 2, 3, 4]), ([(6, 5), (5, 4), (4, 3), (3, 2), (2, 1), (1, 0)], [6]), ([(0, 1), (1, 0), (0, 1)], [0, 5])):
        for zero in (True, False):
            if R.out_of_time(): return
            qc = QuantumCircuit(7); [qc.h(h) for h in hs]; [qc.cx(*g) for g in gates]; one(R, code, qc, zero, [1])
@check("fault sets of named codes")
def named(R):
    for nm in ("steane", "shor", "surface", "carbon", "tetrahedral", "hamming"):
        for zero in (True, False):
            for opt in (True, False):
                if R.out_of_time(): return
                if nm in ("tetrahedral", "hamming", "carbon") and not R.thorough and (opt or nm == "hamming"): continue
                code = CSSCode.from_code_name(nm, 3) if nm == "surface" else CSSCode.from_code_name(nm); sp = heuristic_prep_circuit(code, opt, zero)
                for x in (True, False):
                    S = sp.x_checks if x else sp.z_checks
                    if gf.rank(S) > 11: continue
                    ok, got = R.call(lambda: sp.compute_fault_set(1, x), dict(code=nm, zero=zero, x=x), secs=60)
                    if ok: compare(R, got, single(sp.circ, code.n, x), Cosets(S, code.n), maxw(code, x), code.n, dict(code=nm, zero=zero, optimize_depth=opt, x=x), True)
@check("combined with further faults")
def combine(R):
    rng = R.rng(); N = R.pick(150, 2500)
    for t in range(N):
        if R.out_of_time(): return
        code = randcode(rng, R.pick(5, 6), rng.choice([3, 5, 5])); circ = randcirc(rng, code.n, rng.randint(1, 6)); n = code.n; zero = bool(t % 2)
        A_ = gf.randmat(rng, rng.randint(0, 3), n).astype(np.int8); sp = StatePrepCircuit(circ, code, zero); x = rng.random() < .5; inp = dict(Hx=code.Hx.tolist(), Hz=code.Hz.tolist(), cnots=cxs(circ), zero=zero, x=x, additional=A_.tolist(), d=code.distance)
        if rng.random() < .5: sp.compute_fault_sets()
        ok, sets = R.call(lambda: sp.combine_faults(A_, x), inp, secs=60)
        if not ok: continue
        S = sp.x_checks if x else sp.z_checks; cs = Cosets(S, n); S1 = single(circ, n, x); S2 = S1 | {tuple(int(v) for v in a) for a in A_}
        for k in range(1, sp.max_errors + 1): compare(R, sets[k], ksums(S2, k), cs, maxw(code, x) * k, n, dict(inp, k=k), False)
        if len(A_):      # the circuit's own sets are unaffected
            for k in range(1, sp.max_errors + 1): compare(R, sp.compute_fault_set(k, x), ksums(S1, k), cs, maxw(code, x) * k, n, dict(inp, k=k, after="combination"), True)
@check("propagation through gates")
def prop(R):
    rng = R.rng(); N = R.pick(400, 10000)
    for t in range(N):
        if R.out_of_time(): return
        n = rng.randint(2, 8); circ = randcirc(rng, n, rng.randint(1, 15)); g = cxs(circ); dag = circuit_to_dag(circ); nodes = [v for v in dag.topological_op_nodes() if v.op.name == "cx"]; i = rng.randrange(len(nodes)); x = bool(t % 2)
        gg = [tuple(q._index for q in v.qargs) for v in nodes[i:]]; e = np.zeros(n, int); e[gg[0][0] if x else gg[0][1]] = 1; inp = dict(n=n, gates=gg, x=x)
        ok, r = R.call(lambda: SPM._propagate_error(nodes[i:], n, x), inp)
        if ok: R.ok(np.array_equal(np.asarray(r) % 2, carry(e, gg, x)) and set(np.asarray(r).tolist()) <= {0, 1}, f"got {np.asarray(r).tolist()}, expected {carry(e, gg, x).tolist()}", inp)
@check("coset leaders and reduction of faults")
def cosets(R):
    rng = R.rng(); N = R.pick(500, 6000)
    for t in range(N):
        if R.out_of_time(): return
        n, m = rng.randint(1, 9), rng.randint(0, 5); G = gf.randmat(rng, m, n); e = gf.randmat(rng, 1, n)[0]; cs = Cosets(G, n); inp = dict(generators=G.tolist(), error=e.tolist())
        ok, r = R.call(lambda: SPM._coset_leader(e, G), inp, secs=20)
        if ok: R.ok(len(r) == n and cs.key(np.asarray(r)) == cs.key(e) and int(np.asarray(r).sum()) == cs.weight(e), f"{np.asarray(r).tolist()} is no minimum weight equivalent (weight {cs.weight(e)})", inp)
        if m == 0: continue
        F = gf.randmat(rng, rng.randint(1, 8), n); F0, G0 = F.copy(), G.copy(); ok, r = R.call(lambda: SPM._remove_stabilizer_equivalent_faults(F, G), dict(faults=F.tolist(), stabilizers=G.tolist()))
        if ok:
            r = np.asarray(r).reshape(-1, n); have = [cs.key(v) for v in r]; z = cs.key(np.zeros(n, int)); want = {cs.key(v) for v in F} - {z}
            R.ok(set(have) == want and len(set(have)) == len(have) and all(any(np.array_equal(v, f) for f in F0) for v in r), f"kept {r.tolist()}", dict(faults=F.tolist(), stabilizers=G.tolist())); R.ok(np.array_equal(F, F0) and np.array_equal(G, G0), "arguments changed", inp)
@check("the states' stabilizers")
def init(R):
    rng = R.rng()
    for t in range(R.pick(40, 400)):
        if R.out_of_time(): return
        code = randcode(rng, 7, rng.choice([2, 3, 4, 5, 6])); circ = QuantumCircuit(code.n); zero = bool(t % 2); ed = rng.random() < .5; sp = StatePrepCircuit(circ, code, zero, ed); inp = dict(Hx=code.Hx.tolist(), Hz=code.Hz.tolist(), zero=zero, detection=ed, d=(code.distance, code.x_distance, code.z_distance))
        X = code.Hx if zero else np.vstack((code.Hx, code.Lx)); Z = np.vstack((code.Hz, code.Lz)) if zero else code.Hz; e = ed or code.distance == 2; h = lambda d: d // 2 if e else (d - 1) // 2
        R.ok(gf.rank(sp.x_checks) == gf.rank(np.vstack((sp.x_checks, X))) == gf.rank(X) and gf.rank(sp.z_checks) == gf.rank(np.vstack((sp.z_checks, Z))) == gf.rank(Z), "stabilizers of the state", inp)
        R.ok((sp.max_errors, sp.max_x_errors, sp.max_z_errors) == (h(code.distance), h(code.x_distance), h(code.z_distance)), "numbers of errors", inp)
        sp.set_error_detection(not ed); e = (not ed) or code.distance == 2; R.ok(sp.max_errors == h(code.distance) and len(sp.x_fault_sets) == sp.max_errors + 1 and all(v is None for v in sp.x_fault_sets), "after switching", inp)
if __name__ == "__main__": rt.main("random CSS codes with up to 8 qubits, random CNOT circuits with up to 14 gates, all faults of every gate enumerated; up to 2 faults; coset leaders and equivalence by enumeration of the span; named codes up to 16 qubits")
