import numpy as np, stim, logging
import rt, gf
from rt import check
from stimq import play, pauli
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit
from mqt.qecc.ft_stateprep import state_prep as SPM
logging.disable(logging.CRITICAL)

def codes(rng, nmax, mmax=4):
    while True:
        n = rng.randint(2, nmax); Hx, Hz = gf.randcss(rng, n, rng.randint(0, mmax), rng.randint(0, mmax))
        Hx, Hz = np.array(Hx, dtype=np.int8).reshape(-1, n), np.array(Hz, dtype=np.int8).reshape(-1, n)
        if not len(Hx) or not len(Hz): continue
        if rng.random() < .3 and len(Hx): Hx = np.vstack((Hx, (Hx[rng.randrange(len(Hx))] + Hx[rng.randrange(len(Hx))]) % 2))     # redundant or zero row
        if rng.random() < .3 and len(Hz): Hz = np.vstack((Hz, Hz[rng.randrange(len(Hz))]))
        try: code = CSSCode(1, Hx, Hz)
        except Exception: continue
        if code.k > 0: return code
def wrong(code, circ, zero):
    if circ.num_qubits != code.n: return f"{circ.num_qubits} qubits"
    phase = 0; hs = set()
    for ins in circ.data:
        nm = ins.operation.name
        if nm == "barrier": continue
        if nm not in ("h", "cx"): return f"gate {nm}"
        if nm == "h":
            q = circ.find_bit(ins.qubits[0]).index
            if phase or q in hs: return "Hadamard after a CNOT or repeated"
            hs.add(q)
        else: phase = 1
    sim = stim.TableauSimulator(); sim.set_num_qubits(code.n); play(sim, circ)
    X = list(code.Hx) + ([] if zero else list(code.Lx)); Z = list(code.Hz) + (list(code.Lz) if zero else [])
    for M, p in ((X, "X"), (Z, "Z")):
        for r in M:
            if np.any(r) and sim.peek_observable_expectation(pauli(code.n, np.where(r)[0], p)) != 1: return f"not stabilized by {p} {np.where(r)[0].tolist()}"
    return None
def desc(code, **k): return dict(Hx=code.Hx.tolist(), Hz=code.Hz.tolist(), **k)
@check("the heuristic prepares the requested state")
def heur(R):
    rng = R.rng(); N = R.pick(900, 20000)
    for t in range(N):
        if R.out_of_time(): return
        code = codes(rng, R.pick(9, 14), 5); zero = bool(t % 2); opt = rng.random() < .6; H0 = code.Hx.copy(), code.Hz.copy(); inp = desc(code, zero=zero, optimize_depth=opt)
        ok, sp = R.call(lambda: heuristic_prep_circuit(code, opt, zero), inp, secs=20)
        if not ok: continue
        w = wrong(code, sp.circ, zero); R.ok(w is None, w, inp)
        R.ok(sp.code is code and sp.zero_state == zero and np.array_equal(code.Hx, H0[0]) and np.array_equal(code.Hz, H0[1]), "state, code or checks of the result", inp)
@check("no reduction at the start: the checks are made triangular")
def local(R):
    Hx, Hz = np.array([[0,0,1,0,0,1],[1,0,1,0,1,0],[1,0,0,0,1,1]], dtype=np.int8), np.array([[1,0,0,1,1,0]], dtype=np.int8)
    for a, b, zero in ((Hx, Hz, True), (Hz, Hx, False)):
        code = CSSCode(1, a, b); ok, sp = R.call(lambda: heuristic_prep_circuit(code, True, zero), desc(code), secs=20)
        if ok: w = wrong(code, sp.circ, zero); R.ok(w is None, w, desc(code, zero=zero))
@check("named codes")
def named(R):
    for nm, d in (("steane", None), ("tetrahedral", None), ("shor", None), ("surface", 3), ("carbon", None), ("hamming", None), ("golay", None)):
        for zero in (True, False):
            for opt in (True, False):
                if R.out_of_time(): return
                code = CSSCode.from_code_name(nm, d); ok, sp = R.call(lambda: heuristic_prep_circuit(code, opt, zero), nm, secs=30)
                if ok: w = wrong(code, sp.circ, zero); R.ok(w is None, w, (nm, zero, opt))
@check("the optimal synthesis prepares the requested state", 2)
def optimal(R):
    rng = R.rng(); N = R.pick(14, 200)
    for t in range(N):
        if R.out_of_time() or R.deadline - R.t0 - (__import__("time").time() - R.t0) < 12: return
        code = codes(rng, R.pick(5, 6), 2); zero = bool(t % 2); nm, f = [("gates", gate_optimal_prep_circuit), ("depth", depth_optimal_prep_circuit)][(t // 2) % 2]; inp = desc(code, zero=zero, method=nm)
        ok, sp = R.call(lambda: f(code, zero, rng.choice([1, 2]), 7, 1, 2), inp, secs=60)
        if ok and sp is not None: w = wrong(code, sp.circ, zero); R.ok(w is None, w, inp)
@check("the solver based synthesis for a given bound", 2)
def bounded(R):
    gens = [(nm, getattr(SPM, nm)) for nm in ("_generate_circ_with_bounded_gates", "_generate_circ_with_bounded_depth") if hasattr(SPM, nm)]
    rng = R.rng(); N = R.pick(110, 2500) if gens else 0
    for t in range(N):
        if R.out_of_time(): return
        code = codes(rng, R.pick(6, 7), 2); zero = bool(t % 2); nm, f = gens[(t // 2) % 2]; p = rng.randint(1, R.pick(5, 7)) if "gates" in nm else rng.randint(1, 3); inp = desc(code, zero=zero, method=nm, bound=p)
        ok, circ = R.call(lambda: f(code.Hx.copy() if zero else code.Hz.copy(), p, zero), inp, secs=20)
        if ok and circ is not None: w = wrong(code, circ, zero); R.ok(w is None, w, inp)
rt.main("random CSS codes with at most 9 (thorough 14) qubits for the heuristic and 6 (7) for the optimal synthesis, redundant checks included; named codes up to 23 qubits")
