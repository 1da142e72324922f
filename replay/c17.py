import numpy as np, stim, itertools
import rt
from rt import check
from stimq import *
from mqt.qecc.ft_stateprep import state_prep as S
from mqt.qecc import CSSCode

def choi(nd, extra, supp_seed=None):
    """data qubits 0..nd-1 maximally entangled with references nd..2nd-1, extra qubits in |0>"""
    sim = stim.TableauSimulator(); sim.set_num_qubits(2 * nd + extra)
    for i in range(nd): sim.h(i); sim.cx(i, nd + i)
    return sim
def gadget(R, inp, qc, nd, supp, zt, bit, extra_zero=True):
    """compare one gadget with the ideal measurement on the full input space (data entangled with references)"""
    extra = qc.num_qubits - nd; sim = choi(nd, extra); off = lambda i: i if i < nd else nd + i
    b = play(sim, qc, off)
    P = pauli(2 * nd + extra, supp, "Z" if zt else "X")
    ideal = choi(nd, extra); ideal.postselect_observable(P, desired_value=bool(b[bit]))
    R.ok(sim.peek_observable_expectation(P) == (-1 if b[bit] else 1), f"reported eigenvalue bit {b[bit]}, state has expectation {sim.peek_observable_expectation(P)}", inp)
    fl = [v for i, v in enumerate(b) if i != bit]
    R.ok(not any(fl), f"flags {fl}", inp)
    for s in (sim, ideal): s.reset(*range(2 * nd, 2 * nd + extra)) if extra else None
    R.ok(sim.canonical_stabilizers() == ideal.canonical_stabilizers(), "data state differs from the ideal measurement", inp)
    names = [(i.operation.name, [qc.find_bit(x).index for x in i.qubits]) for i in qc.data]
    meas = [c for i in qc.data for c in [qc.find_bit(x).index for x in i.clbits]]
    R.ok(len(meas) == len(set(meas)), "a classical bit is written twice", inp)
def fresh(nd):
    q = QuantumRegister(nd, "q"); a = AncillaRegister(1, "anc"); c = ClassicalRegister(1, "res"); return QuantumCircuit(q, a, c), q, a, c
def perms(R, nd, w, k):
    rng = R.rng(); out = [list(range(w)), list(range(nd - w, nd))[::-1]]
    return out + [rng.sample(range(nd), w) for _ in range(k)]
@check("gadgets through the public entry point")
def f(R):
    for t in (1, 2):
        for w in range(1, R.pick(13, 25)):
            for zt in (True, False):
                for supp in perms(R, w + 2, w, R.pick(2, 6)):
                    if R.out_of_time(): return
                    for aslist in (True, False):
                        qc, q, a, c = fresh(w + 2); inp = ("t", t, "Z" if zt else "X", supp, "qubits" if aslist else "indices")
                        st = [q[i] for i in supp] if aslist else np.array(supp)
                        ok, _ = R.call(lambda: S.measure_flagged(qc, st, a[0], c[0], t=t, z_measurement=zt), inp)
                        if ok: gadget(R, inp, qc, w + 2, supp, zt, 0)
@check("single gadgets")
def g(R):
    cases = [("_measure_stab_unflagged", range(1, 12)), ("_measure_stab_one_flagged", range(2, 12)), ("measure_stab_two_flagged", range(5, R.pick(16, 30))), ("measure_flagged_4", [4]), ("measure_flagged_6", [6]), ("measure_flagged_8", [8])]
    for nm, ws in cases:
        for w in ws:
            for zt in (True, False):
                for supp in perms(R, w + 1, w, 2):
                    if R.out_of_time(): return
                    qc, q, a, c = fresh(w + 1); inp = (nm, "Z" if zt else "X", supp)
                    ok, _ = R.call(lambda: getattr(S, nm)(qc, [q[i] for i in supp], a[0], c[0], zt), inp)
                    if ok: gadget(R, inp, qc, w + 1, supp, zt, 0)
@check("several measurements on one circuit")
def h(R):
    rng = R.rng()
    for trial in range(R.pick(60, 400)):
        if R.out_of_time(): return
        n = rng.randint(3, 9); k = rng.randint(1, 3); zt = rng.random() < .5; flags = rng.random() < .5; t = rng.randint(1, 2)
        ms = []
        for _ in range(k):
            v = np.zeros(n, dtype=np.int8); v[rng.sample(range(n), rng.randint(1, n))] = 1; ms.append(v)
        qc = QuantumCircuit(QuantumRegister(n, "q")); inp = (n, "Z" if zt else "X", flags, t, [np.flatnonzero(m).tolist() for m in ms])
        ok, _ = R.call(lambda: (S._measure_ft_z if zt else S._measure_ft_x)(qc, ms, t=t, flags=flags), inp)
        if not ok: continue
        extra = qc.num_qubits - n; sim = choi(n, extra); b = play(sim, qc, lambda i: i if i < n else n + i)
        cr = [r for r in qc.cregs if r.name in ("z_c", "x_c")][0]; res = [b[qc.find_bit(x).index] for x in cr]
        ideal = choi(n, extra)
        for m, v in zip(ms, res):
            P = pauli(2 * n + extra, np.flatnonzero(m), "Z" if zt else "X")
            try: ideal.postselect_observable(P, desired_value=bool(v))
            except ValueError: R.bad("results contradict each other", inp); break
        else:
            for s in (sim, ideal): s.reset(*range(2 * n, 2 * n + extra)) if extra else None
            R.ok(sim.canonical_stabilizers() == ideal.canonical_stabilizers(), "data state differs from the ideal measurements", inp)
        other = [b[qc.find_bit(x).index] for r in qc.cregs if r is not cr for x in r]
        R.ok(not any(other), f"flags {other}", inp)
@check("verified preparation circuits without noise")
def v(R):
    for nm in ("steane", "shor", "surface_3", "hamming", "carbon"):
        code = CSSCode.from_code_name(nm)
        for zero in (True, False):
            if R.out_of_time(): return
            sp = S.heuristic_prep_circuit(code, zero_state=zero); rng = R.rng(); n = code.n
            za = [code.Hz[i] for i in range(len(code.Hz))] + ([code.Lz[0]] if zero else []); xa = [code.Hx[i] for i in range(len(code.Hx))] + ([code.Lx[0]] if not zero else [])
            for full in (True, False):
                for zm, xm in ((za[:1], xa[:1]), (za[-2:], xa), (za, xa[:2])):
                    inp = (nm, "zero" if zero else "plus", full, len(xm), len(zm))
                    if full and max(sp.max_x_errors, sp.max_z_errors) > 2: continue
                    ok, qc = R.call(lambda: S._measure_ft_stabs(sp, xm, zm, full), inp)
                    if not ok: continue
                    sim = stim.TableauSimulator(); sim.set_num_qubits(qc.num_qubits); b = play(sim, qc)
                    R.ok(not any(b), f"a stabilizer of the prepared state gives -1 or a flag fires: {b}", inp)
                    stabs = [pauli(qc.num_qubits, np.flatnonzero(r), "X") for r in code.Hx] + [pauli(qc.num_qubits, np.flatnonzero(r), "Z") for r in code.Hz]
                    stabs += [pauli(qc.num_qubits, np.flatnonzero(r), "Z" if zero else "X") for r in (code.Lz if zero else code.Lx)]
                    R.ok(all(sim.peek_observable_expectation(s) == 1 for s in stabs), "the verified state is no longer the code state", inp)
rt.main("weights 1-12 for one and two faults, both types, qubit order permuted, Choi-state comparison with the ideal measurement; random lists of measurements; five named codes")
