import numpy as np, itertools, logging
import rt, gf, stim
from rt import check
from stimq import play, pauli
from c15 import cxs, carry, single, Cosets, ksums, randcode, randcirc
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import heuristic_prep_circuit, StatePrepCircuit
from mqt.qecc.ft_stateprep import state_prep as SPM
logging.disable(logging.CRITICAL)
rt.CHECKS.clear() if hasattr(rt, "CHECKS") else None

class Inline:
    """searches in this process (the child processes of the real search are covered by one check below)"""
    def __enter__(self): self.o = SPM._run_with_timeout; SPM._run_with_timeout = lambda f, *a, timeout=10: f(*a); return self
    def __exit__(self, *a): SPM._run_with_timeout = self.o
def verify(R, ms, faults, checks, inp, what):
    """measurements: sums of the checks; every fault is detected"""
    faults = np.asarray(faults); n = checks.shape[1]
    for m in ms:
        m = np.asarray(m); R.ok(m.shape == (n,) and set(m.astype(int).tolist()) <= {0, 1}, f"{what}: measurement {m.tolist()} is no binary vector", inp)
        if m.shape == (n,): R.ok(gf.inspan(checks, m.astype(int) % 2), f"{what}: measurement {m.astype(int).tolist()} is no sum of the checks", inp)
    if faults.size == 0: return
    bad = [f.tolist() for f in faults.astype(int) if not any(int(np.asarray(m).astype(int) @ f) % 2 for m in ms)]; R.ok(not bad, f"{what}: {len(bad)} errors are not detected, e.g. {bad[:1]}", inp)
def empty_rows(code): return not (code.Hx.any(axis=1).all() and code.Hz.any(axis=1).all())  # an identity listed as a check is no check
def layer_input(rng, nmax):
    while True:
        n = rng.randint(2, nmax); m = rng.randint(1, 4); C = gf.randmat(rng, m, n, rng.choice([.3, .5]))
        if rng.random() < .4: C = np.vstack((C, C[rng.randrange(m)]))
        F = np.array([f for f in gf.randmat(rng, rng.randint(1, 9), n, rng.choice([.2, .5])) if (C.astype(int) @ f % 2).any()], dtype=np.int8)
        if len(F): return C.astype(np.int8), np.unique(F, axis=0)
@check("covering layers detect every error")
def layers(R):
    rng = R.rng(); N = R.pick(500, 8000)
    for t in range(N):
        if R.out_of_time(): return
        C, F = layer_input(rng, 9); lead = t % 4 == 0; inp = dict(checks=C.tolist(), faults=F.tolist(), leaders=lead)
        lim = rng.choice([10000, 10000, 3, 1, 6]); ok, r = R.call(lambda: SPM._heuristic_layer(F, C, lead, lim), dict(inp, limit=lim), secs=30)
        if ok: verify(R, r, F, C, inp, "covering")
@check("covers and candidate sets")
def covers(R):
    rng = R.rng(); N = R.pick(2000, 20000)
    for t in range(N):
        if R.out_of_time(): return
        n = rng.randint(1, 7); cands = {frozenset(i for i in range(n) if rng.random() < .4) for _ in range(rng.randint(1, 6))}; cands = {s for s in cands if s}; miss = set(range(n)) - set().union(*cands) if cands else set(range(n))
        if miss: cands.add(frozenset(miss))
        from collections import defaultdict
        w = {s: np.array([int(i in s) for i in range(n)]) for s in cands}; mp = defaultdict(list, {s: [w[s]] for s in cands}); inp = dict(n=n, cands=[sorted(s) for s in cands])
        ok, r = R.call(lambda: SPM._set_cover(n, cands, mp), inp, secs=5)
        if ok: R.ok(set(r) <= cands and set().union(*r) == set(range(n)), f"cover {r}", inp)
        lim = rng.choice([0, 1, 3, 100]); ok, e = R.call(lambda: SPM._extend_covering_sets(set(cands), lim, mp), dict(inp, limit=lim), secs=5)
        if ok:
            R.ok(cands <= set(e), "candidates are lost", inp)
            for s in e: R.ok(len(mp[s]) > 0 and all(frozenset(np.where(np.asarray(v) % 2 == 1)[0].tolist()) == s for v in mp[s]), f"measurements filed under {sorted(s)} detect other errors", dict(inp, limit=lim))
@check("optimal search: constraints")
def sat(R):
    rng = R.rng(); N = R.pick(120, 2500)
    for t in range(N):
        if R.out_of_time(): return
        code = randcode(rng, 7, 3); n = code.n
        if empty_rows(code): continue
        sp = StatePrepCircuit(randcirc(rng, n, 4), code, bool(t % 2)); x = rng.random() < .5; C = (sp.z_checks if x else sp.x_checks).astype(np.int8)
        F = np.array([f for f in gf.randmat(rng, rng.randint(1, 6), n, .4) if (C.astype(int) @ f % 2).any()], dtype=np.int8)
        if not len(F): continue
        na, nc = rng.randint(1, 3), rng.randint(1, 12); inp = dict(checks=C.tolist(), faults=F.tolist(), ancillas=na, cnots=nc, x=x); ok, r = R.call(lambda: SPM.verification_stabilizers(sp, F, na, nc, x_errors=x), inp, secs=30)
        if ok and r is not None: verify(R, r, F, C, inp, "optimal"); R.ok(len(r) <= na, "more ancillas than allowed", inp)
@check("hook errors")
def hooks(R):
    rng = R.rng(); N = R.pick(600, 5000)
    for t in range(N):
        n = rng.randint(1, 9); S = [s for s in gf.randmat(rng, rng.randint(0, 4), n, rng.choice([.3, .6, .9]))]; S0 = [s.copy() for s in S]; inp = dict(stabs=[s.tolist() for s in S]); ok, r = R.call(lambda: SPM._hook_errors(S), inp)
        if not ok: continue
        want = [tuple(int(s[j]) if j > i else 0 for j in range(n)) for s in S0 for i in range(n) if s[i]]; got = [tuple(int(v) for v in e) for e in r]; R.ok(set(want) - {(0,) * n} == set(got) - {(0,) * n}, f"got {sorted(set(got))}, expected {sorted(set(want))}", inp); R.ok(all(np.array_equal(a, b) for a, b in zip(S, S0)), "measurements changed", inp)
def preps(R, names):
    for nm in names:
        for zero in (True, False):
            code = CSSCode.from_code_name(nm, 3) if nm == "surface" else CSSCode.from_code_name(nm); yield nm, zero, code, heuristic_prep_circuit(code, True, zero)
def layered(R, sp, x, add, fun, inp, secs=80):
    ok, r = R.call(fun, inp, secs=secs)
    if not ok: return None
    C = (sp.z_checks if x else sp.x_checks).astype(int); R.ok(len(r) == sp.max_errors, f"{len(r)} layers for {sp.max_errors} numbers of faults", inp)
    S = sp.x_checks if x else sp.z_checks; cs = Cosets(S, sp.num_qubits); S1 = single(sp.circ, sp.num_qubits, x) | {tuple(int(v) for v in a) for a in (add if add is not None else [])}; code = sp.code; d = code.x_distance if x else code.z_distance; mw = max((d - 1) // 2, 1) // max((code.distance - 1) // 2, 1)
    for k, ms in enumerate(r, 1):
        F = [e for e in ksums(S1, k) if cs.weight(e) > mw * k] if k == 1 or sp.num_qubits <= 8 else (sp.combine_faults(add, x) if add is not None else (sp.x_fault_sets if x else sp.z_fault_sets))[k]
        verify(R, ms, F, C, dict(inp, k=k), f"layer {k}")
    return r
@check("verification of named codes")
def named(R):
    rng = R.rng()
    for nm, zero, code, sp in preps(R, ("steane", "shor", "surface") + (("carbon", "tetrahedral") if R.thorough else ())):
        for x in (True, False):
            if R.out_of_time(): return
            S = sp.x_checks if x else sp.z_checks
            if gf.rank(S) > 11: continue
            for add in (None, gf.randmat(rng, 3, code.n, .4).astype(np.int8)):
                inp = dict(code=nm, zero=zero, x=x, additional=None if add is None else add.tolist()); layered(R, sp, x, add, lambda: SPM.heuristic_verification_stabilizers(sp, x, find_coset_leaders=rng.random() < .5, additional_faults=add), inp)
                if nm != "steane" and not R.thorough: continue
                with Inline(): layered(R, sp, x, add, lambda: SPM.gate_optimal_verification_stabilizers(sp, x, max_ancillas=3, additional_faults=add), dict(inp, optimal=True))
@check("verification of random codes and circuits")
def rnd(R):
    rng = R.rng(); N = R.pick(100, 1500)
    for t in range(N):
        if R.out_of_time(): return
        code = randcode(rng, 6, rng.choice([3, 3, 5])); n = code.n; zero = bool(t % 2)
        if empty_rows(code): continue
        ok, sp = R.call(lambda: heuristic_prep_circuit(code, True, zero), dict(Hx=code.Hx.tolist()), secs=20)
        if not ok: continue
        if rng.random() < .5: sp.set_error_detection(True)
        x = rng.random() < .5; add = gf.randmat(rng, rng.randint(0, 3), n, .4).astype(np.int8) if rng.random() < .6 else None; inp = dict(Hx=code.Hx.tolist(), Hz=code.Hz.tolist(), d=code.distance, zero=zero, x=x, cnots=cxs(sp.circ), detection=sp.error_detection_code, additional=None if add is None else add.tolist())
        if gf.rank(np.vstack((code.Hx, code.Hz))) != n - code.k: continue
        layered(R, sp, x, add, lambda: SPM.heuristic_verification_stabilizers(sp, x, find_coset_leaders=t % 3 == 0, additional_faults=add), inp)
        if t % 4 == 0:
            ok, lay = R.call(lambda: None, inp)
            with Inline():
                ok, r = R.call(lambda: SPM.gate_optimal_verification_stabilizers(sp, x, max_ancillas=n, additional_faults=add), inp, secs=60)
            if ok and len(r): layered(R, sp, x, add, lambda: r, dict(inp, optimal=True))
def readout(R, qc, n, inp, err=None, at=None):
    """classical bits for a run with a Pauli inserted before instruction at"""
    sim = stim.TableauSimulator(); sim.set_num_qubits(qc.num_qubits); bits = [0] * qc.num_clbits
    import copy
    a = qc.copy_empty_like(); b = qc.copy_empty_like()
    for i, ins in enumerate(qc.data): (a if at is not None and i < at else b)._append(ins)
    if at is not None: play(sim, a)
    if err is not None: sim.do_pauli_string(err)
    return play(sim, b), sim
def circuit(R, nm, zero, code, sp, make, inp, both):
    ok, qc = R.call(make, inp, secs=120)
    if not ok: return
    n = code.n; ndata = len(sp.circ.data); R.ok([i.operation.name for i in qc.data[:ndata]] == [i.operation.name for i in sp.circ.data], "the circuit does not start with the preparation", inp)
    bits, sim = readout(R, qc, n, inp); R.ok(not any(bits), f"a measurement of the prepared state gives {bits}", inp)
    for M, p in ((sp.x_checks, "X"), (sp.z_checks, "Z")):
        for r in M: R.ok(sim.peek_observable_expectation(pauli(qc.num_qubits, np.where(r)[0], p)) == 1, "the verified state is no longer stabilized", dict(inp, row=np.asarray(r).tolist(), type=p))
    for typ in (("X", "Z") if zero else ("Z", "X"))[:2 if both else 1]:
        x = typ == "X"; S = sp.x_checks if x else sp.z_checks; cs = Cosets(S, n); mw = max(((code.x_distance if x else code.z_distance) - 1) // 2, 1) // max((code.distance - 1) // 2, 1)
        for i, ins in enumerate(sp.circ.data):
            if ins.operation.name != "cx": continue
            q = [qc.find_bit(b).index for b in ins.qubits]
            for sel in ((1, 0), (0, 1), (1, 1)):
                e = np.zeros(n, int); e[q[0]] ^= sel[0]; e[q[1]] ^= sel[1]; rest = cxs(sp.circ)[sum(j.operation.name == "cx" for j in sp.circ.data[:i]) + 1:]; f = carry(e, rest, x)
                if cs.weight(f) <= mw: continue
                b, _ = readout(R, qc, n, inp, pauli(qc.num_qubits, np.where(e)[0], typ), i + 1); R.ok(any(b), f"{typ} fault {e.tolist()} after gate {i} leaves {f.tolist()} and no measurement notices", inp)
    # hook faults of the unflagged measurements: a fault of their ancilla between gates must be noticed by the flagged ones
    if both:
        typ = "Z" if zero else "X"; x = typ == "X"; S = sp.x_checks if x else sp.z_checks; cs = Cosets(S, n); first = "z_anc" if zero else "x_anc"
        regs = {r.name: r for r in qc.qregs}
        if first not in regs: return
        for i, ins in enumerate(qc.data):
            if i < ndata or ins.operation.name != "cx": continue
            idx = [qc.find_bit(b).index for b in ins.qubits]; anc = [b for b in ins.qubits if b in regs[first]]
            if not anc: continue
            a = qc.find_bit(anc[0]).index; e = np.zeros(n, int)
            for j in qc.data[i + 1:]:
                if j.operation.name == "cx" and anc[0] in j.qubits:
                    o = [qc.find_bit(b).index for b in j.qubits if b is not anc[0] and qc.find_bit(b).index != a]
                    if o and o[0] < n: e[o[0]] ^= 1
            if cs.weight(e) <= 1: continue
            b, _ = readout(R, qc, n, inp, pauli(qc.num_qubits, [a], typ), i + 1); R.ok(any(b), f"fault of the ancilla after gate {i} leaves {typ} error {e.tolist()} and no measurement notices", inp)
@check("verification circuits notice every single fault")
def circuits(R):
    for nm, zero, code, sp in preps(R, ("steane", "surface", "shor") + (("carbon", "tetrahedral") if R.thorough else ())):
        if R.out_of_time(): return
        if nm == "tetrahedral" and not zero: continue
        for full in (True, False): circuit(R, nm, zero, code, sp, lambda: SPM.heuristic_verification_circuit(sp, full_fault_tolerance=full), dict(code=nm, zero=zero, full=full, method="heuristic"), full)
        if nm in ("steane", "shor") or R.thorough:
            with Inline(): circuit(R, nm, zero, code, sp, lambda: SPM.gate_optimal_verification_circuit(sp, max_ancillas=3), dict(code=nm, zero=zero, method="optimal"), True)
@check("the real search in child processes")
def real(R):
    code = CSSCode.from_code_name("steane"); sp = heuristic_prep_circuit(code); circuit(R, "steane", True, code, sp, lambda: SPM.gate_optimal_verification_circuit(sp, max_timeout=20), dict(code="steane", method="optimal, processes"), True)
@check("failed searches are reported")
def fallback(R):
    o = SPM.iterative_search_with_timeout, SPM._run_with_timeout
    try:
        for nm, zero, code, sp in preps(R, ("shor", "surface", "steane")):
            for x in (True, False):
                sp.compute_fault_sets(); F = [f for f in (sp.x_fault_sets if x else sp.z_fault_sets)[1:] if len(f)]
                if not F or x != zero: continue
                SPM.iterative_search_with_timeout = lambda fun, a, b, *r, **k: (None, b); inp = dict(code=nm, zero=zero, search="fails")
                for full in (True, False): R.raises(lambda: SPM.gate_optimal_verification_circuit(sp, full_fault_tolerance=full), RuntimeError, dict(inp, full=full))
        SPM.iterative_search_with_timeout = o[0]; SPM._run_with_timeout = lambda f, *a, timeout=10: "timeout"
        for nm, zero, code, sp in preps(R, ("shor",)):
            sp.compute_fault_sets()
            if len((sp.x_fault_sets if zero else sp.z_fault_sets)[1]): R.raises(lambda: SPM.gate_optimal_verification_circuit(sp, max_timeout=2), RuntimeError, dict(code=nm, zero=zero, search="times out"))
    finally: SPM.iterative_search_with_timeout, SPM._run_with_timeout = o
@check("hook errors of all layers are verified")
def all_layers(R):
    rng = R.rng(); codes = [heuristic_prep_circuit(CSSCode.from_code_name(nm, 5), True, z) for nm in ("surface",) for z in (True, False)]
    for t in range(R.pick(30, 300)):
        sp = codes[t % 2]; n = sp.num_qubits; L = [[m.astype(np.int8) for m in gf.randmat(rng, rng.randint(0, 2), n, .3)] for _ in range(sp.max_errors)]; calls = []; inp = dict(layers=[[m.tolist() for m in l] for l in L], zero=sp.zero_state)
        def fun(s, x, add): calls.append((x, add)); return [list(l) for l in L] if len(calls) == 1 else [[] for _ in range(s.max_errors)]
        ok, _ = R.call(lambda: SPM._verification_circuit(sp, fun), inp)
        if not ok: continue
        R.ok(len(calls) == 2 and calls[0][0] == sp.zero_state and calls[0][1] is None and calls[1][0] != sp.zero_state, f"searches {[c[0] for c in calls]}", inp); add = {tuple(int(v) for v in e) for e in (calls[1][1] if calls[1][1] is not None else [])} if len(calls) == 2 else set()
        want = {tuple(int(m[j]) if j > i else 0 for j in range(n)) for l in L for m in l for i in range(n) if m[i]} - {(0,) * n}; R.ok(want <= add, f"hook errors {sorted(want - add)[:1]} are not verified", inp)
@check("flags for the errors of their type")
def flagged(R):
    from qiskit import QuantumCircuit, AncillaRegister, ClassicalRegister
    rng = R.rng()
    for t in range(R.pick(40, 300)):
        code = randcode(rng, 8, 3); n = code.n
        if empty_rows(code): continue
        ok, sp = R.call(lambda: heuristic_prep_circuit(code, True, bool(t % 2)), dict(Hx=code.Hx.tolist()), secs=20)
        if not ok: continue
        sp.max_x_errors, sp.max_z_errors = rng.choice([(1, 2), (2, 1), (1, 1), (2, 2)]); ms = [m for m in gf.randmat(rng, rng.randint(1, 2), n, .8) if m.any()]; zm = not sp.zero_state; te = sp.max_z_errors if zm else sp.max_x_errors
        if not ms: continue
        inp = dict(n=n, max_x_errors=sp.max_x_errors, max_z_errors=sp.max_z_errors, zero=sp.zero_state, measurements=[m.tolist() for m in ms]); ok, qc = R.call(lambda: SPM._measure_ft_stabs(sp, [] if zm else ms, ms if zm else []), inp)
        if not ok: continue
        ref = QuantumCircuit(n); a = AncillaRegister(len(ms)); cr = ClassicalRegister(len(ms)); ref.add_register(a); ref.add_register(cr)
        for i, m in enumerate(ms): SPM.measure_flagged(ref, np.where(m)[0], a[i], cr[i], t=te, z_measurement=zm)
        R.ok((qc.num_qubits, qc.num_clbits) == (ref.num_qubits, ref.num_clbits), f"{qc.num_qubits} qubits and {qc.num_clbits} bits, flags for {te} errors need {ref.num_qubits} and {ref.num_clbits}", inp)
@check("naive circuits measure all checks")
def naive(R):
    for nm, zero, code, sp in preps(R, ("steane", "surface", "shor")):
        inp = dict(code=nm, zero=zero); ok, qc = R.call(lambda: SPM.naive_verification_circuit(sp), inp, secs=60)
        if not ok: continue
        n = code.n; bits, _ = readout(R, qc, n, inp); R.ok(not any(bits), "a check of the prepared state is violated", inp); reps = max(1, sp.max_errors); cr = {r.name: len(r) for r in qc.cregs}
        R.ok(cr.get("x_c") == reps * len(code.Hx) and cr.get("z_c") == reps * len(code.Hz), f"registers {cr}", inp)
        for typ, H, reg in (("X", code.Hz, "z_c"), ("Z", code.Hx, "x_c")):
            for q in range(n):
                b, _ = readout(R, qc, n, inp, pauli(qc.num_qubits, [q], typ), len(sp.circ.data)); off = [qc.find_bit(c).index for r in qc.cregs if r.name == reg for c in r]; got = [b[o] for o in off]; R.ok(got == [int(v) for v in H[:, q]] * reps, f"{typ} error on {q}: {got}", inp)
if __name__ == "__main__": rt.main("random covering layers up to 9 qubits; optimal constraints up to 7 qubits and 3 ancillas; verification of Steane, Shor and surface codes (thorough: carbon, tetrahedral) and random codes up to 6 qubits; every single gate fault and every ancilla fault of the circuits")
