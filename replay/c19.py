import numpy as np, stim, random, itertools
import rt, gf
from rt import check
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, AncillaRegister
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import simulation as SIM
from mqt.qecc.ft_stateprep.simulation import NoisyNDFTStatePrepSimulator as Sim

def rref(M):
    A = [list(map(int, r)) for r in np.asarray(M)]; n = len(A[0]) if A else 0; piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None: continue
        A[r], A[p] = A[p], A[r]
        for i in range(len(A)):
            if i != r and A[i][c]: A[i] = [x ^ y for x, y in zip(A[i], A[r])]
        piv.append(c); r += 1
    return A[:r], piv
def prep(qc, code, zero, rng, dressing=True):
    """own preparation circuit: reduced checks, one control per pivot"""
    n = code.n; A, piv = rref(code.Hx if zero else code.Hz)
    H = set(piv) if zero else set(range(n)) - set(piv)
    first = [q for q in range(n) if dressing and rng.random() < .25]
    for q in first: qc.h(q)
    for q in sorted(H, key=lambda _: rng.random()): qc.h(q)
    if dressing and rng.random() < .3: qc.barrier()
    for q in first: qc.h(q)
    cx = [(p, j) if zero else (j, p) for p, row in zip(piv, A) for j in range(n) if row[j] and j != p]
    rng.shuffle(cx)
    for a, b in cx: qc.cx(a, b)
def code_of(rng):
    while True:
        n = rng.randint(3, 8); Hx, Hz = gf.randcss(rng, n, rng.randint(1, 3), rng.randint(1, 3))
        Hx, Hz = np.array(Hx, dtype=np.int8), np.array(Hz, dtype=np.int8)
        if not len(Hx) or not len(Hz) or not Hx.any() or not Hz.any(): continue
        try: code = CSSCode(1, Hx, Hz)
        except Exception: continue
        if code.k > 0: return code
def verified(rng, code, zero):
    """preparation plus a few stabilizer measurements with (possibly re-used) ancillas"""
    n = code.n; na = rng.randint(0, 2); q = QuantumRegister(n, "q"); m = rng.randint(0, 4) if na else 0
    regs = [q] + ([AncillaRegister(na, "a")] if na else []) + ([ClassicalRegister(m, "c")] if m else [])
    qc = QuantumCircuit(*regs); prep(qc, code, zero, rng)
    sx = [r for r in gf.span(code.Hx if zero else np.vstack([code.Hx, code.Lx])) if r.any()]; sz = [r for r in gf.span(code.Hz if not zero else np.vstack([code.Hz, code.Lz])) if r.any()]
    for b in range(m):
        a = n + rng.randrange(na)
        pool = sx if rng.random() < .5 else sz
        if not len(pool): continue
        s = [int(x) for x in np.where(rng.choice(pool))[0]]; rng.shuffle(s)
        if pool is sx:
            qc.h(a)
            for x in s: qc.cx(a, x)
            qc.h(a)
        else:
            for x in s: qc.cx(x, a)
        qc.measure(a, b)
    return qc
def desc(code, qc, zero): return (code.Hx.tolist(), code.Hz.tolist(), "zero" if zero else "plus", [(i.operation.name, [qc.find_bit(x).index for x in i.qubits]) for i in qc.data])

@check("without noise nothing is discarded and nothing fails")
def f(R):
    rng = R.rng()
    for t in range(R.pick(200, 3000)):
        if R.out_of_time(): return
        code = code_of(rng)
        for zero in (True, False):
            qc = verified(rng, code, zero); inp = desc(code, qc, zero)
            for par in (True, False):
                ok, s = R.call(lambda: Sim(qc, code, 0.0, zero, par), inp)
                if not ok: continue
                ok, r = R.call(lambda: s._simulate_batch(32), inp)
                if ok: R.ok((int(r[0]), int(r[1])) == (0, 0), f"failures, discarded = {r}", inp)
                ok, r = R.call(lambda: s.logical_error_rate(64, 32, False), inp)
                if ok: R.ok((r[0], r[1], int(r[2]), r[3]) == (0, 1, 0, 64), f"rate, acceptance, failures, shots = {r}", inp)

def layers_of(qc):
    """gates by earliest layer"""
    lv = {}; out = []
    for ins in qc.data:
        ws = list(ins.qubits) + list(ins.clbits); l = max([lv.get(w, 0) for w in ws] + [0]); 
        for w in ws: lv[w] = l + 1
        if ins.operation.name == "barrier": continue
        while len(out) <= l: out.append([])
        out[l].append((ins.operation.name, [qc.find_bit(x).index for x in ins.qubits]))
    return out
def expected(qc, p, par):
    """per qubit: the operations the simulated circuit must show, in order (independent of the order of simultaneous gates)"""
    N = qc.num_qubits; ini, pend, meas = [False] * N, [False] * N, [False] * N; seq = [[] for _ in range(N)]; e = 2 * p / 3
    def put(q, *op): seq[q].append(op)
    def start(q):
        if pend[q]: put(q, "H"); put(q, "Z_ERROR", e); pend[q] = False
        else: put(q, "X_ERROR", e)
        ini[q] = True
    prev = set()
    def idle(busy):
        for q in range(N):
            if ini[q] and q not in busy: put(q, "DEPOLARIZE1", e)
    for L in layers_of(qc):
        if par and prev: idle(prev)
        prev = set()
        for nm, qs in L:
            if nm == "h":
                q = qs[0]
                if not ini[q]: pend[q] = not pend[q]; continue
                put(q, "H"); put(q, "DEPOLARIZE1", e)
            elif nm == "cx":
                a, b = qs
                for q in qs:
                    if not ini[q]: start(q)
                put(a, "CX", "ctrl", b); put(b, "CX", "target", a); put(a, "DEPOLARIZE2", p, a, b); put(b, "DEPOLARIZE2", p, a, b)
            elif nm == "measure":
                q = qs[0]
                if pend[q]: put(q, "H"); put(q, "Z_ERROR", e); pend[q] = False
                put(q, "X_ERROR", e); put(q, "MR"); ini[q] = False; meas[q] = True
            if par: prev |= set(qs)
            else: idle(set(qs))
    for q in range(N):
        if not ini[q] and (pend[q] or not meas[q]): start(q)
    return seq
def observed(circ, N):
    seq = [[] for _ in range(N)]
    for op in circ.flattened():
        ts = [t.value for t in op.targets_copy()]; a = [round(x, 9) for x in op.gate_args_copy()]
        if op.name == "CX":
            for x, y in zip(ts[::2], ts[1::2]): seq[x].append(("CX", "ctrl", y)); seq[y].append(("CX", "target", x))
        elif op.name == "DEPOLARIZE2":
            for x, y in zip(ts[::2], ts[1::2]):
                for q in (x, y): seq[q].append((op.name, *a, x, y))
        else:
            for q in ts: seq[q].append((op.name, *a))
    return seq
def sequential_idle(circ, p):
    """sequential gates: after every gate exactly the other prepared qubits idle"""
    ops = list(circ.flattened()); ini = set(); i = 0; flat = []
    for op in ops:
        ts = [t.value for t in op.targets_copy()]
        for g in (zip(ts[::2], ts[1::2]) if op.name in ("CX", "DEPOLARIZE2") else zip(ts)): flat.append((op.name, g, op.gate_args_copy()))
    while i < len(flat):
        nm, q, a = flat[i]; want = None
        if nm == "CX": want = sorted(ini - set(q)); i += 2
        elif nm == "MR": ini -= set(q); want = sorted(ini); i += 1
        elif nm == "H" and q[0] in ini: want = sorted(ini); i += 1
        else:
            if nm in ("Z_ERROR", "X_ERROR") and not (i + 1 < len(flat) and flat[i + 1][0] == "MR" and flat[i + 1][1] == q): ini |= set(q)
            elif nm == "DEPOLARIZE1": return f"idle noise {q} after no gate"
            i += 1
        if want is not None:
            got = []
            while i < len(flat) and flat[i][0] == "DEPOLARIZE1":
                if abs(flat[i][2][0] - 2 * p / 3) > 1e-9: return f"strength {flat[i]}"
                got.append(flat[i][1][0]); i += 1
            if sorted(got) != want: return f"after {nm} {q}: noise on {sorted(got)}, prepared qubits without a gate (and the target of a Hadamard) are {want}"
    return None
@check("gates, noise and idle noise of the simulated circuit")
def g(R):
    rng = R.rng()
    for t in range(R.pick(150, 2500)):
        if R.out_of_time(): return
        code = code_of(rng); zero = rng.random() < .5; p = rng.choice([0.25, 0.01, 0.003])
        if rng.random() < .5: qc = verified(rng, code, zero)
        else:                                           # any circuit of these gates
            N = code.n + rng.randint(0, 2); m = rng.randint(0, 5); qc = QuantumCircuit(N, max(m, 1)); left = list(range(m))
            for _ in range(rng.randint(0, 25)):
                x = rng.random()
                if x < .45 : qc.cx(*rng.sample(range(N), 2))
                elif x < .8: qc.h(rng.randrange(N))
                elif left: qc.measure(rng.randrange(N), left.pop())
        for par in (True, False):
            inp = (*desc(code, qc, zero), p, "parallel" if par else "sequential")
            ok, s = R.call(lambda: Sim(qc, code, p, zero, par), inp)
            if not ok: continue
            for rep in (0, 1):
                if rep: p = 0.02; s.set_p(p)
                c0 = s.to_stim_circ(); want = [[tuple(round(v, 9) if isinstance(v, float) else v for v in op) for op in q] for q in expected(qc, p, par)]; got = observed(c0, qc.num_qubits)
                # indices recorded while converting again do not count
                if not par:      # simultaneous gates may come in any order: idle noise is compared gate by gate instead
                    R.ok(sequential_idle(c0, p) is None, sequential_idle(c0, p), (*inp, "p", p))
                    strip = lambda L: [[op for op in q if op[0] != "DEPOLARIZE1"] for q in L]; want, got = strip(want), strip(got)
                for q in range(qc.num_qubits): R.ok(want[q] == got[q], f"qubit {q}: expected {want[q]}, got {got[q]}", (*inp, "p", p))
                s.set_p(p); full = s.stim_circ; k = len(c0.flattened())
                tail = [op for op in list(full.flattened())]
                noisy = sum(1 for op in tail if op.name.endswith("ERROR") or op.name.startswith("DEPOLARIZE")); 
                R.ok(sum(len(op.targets_copy()) for op in tail if op.name.endswith("ERROR") or op.name.startswith("DEPOLARIZE")) == sum(len(op.targets_copy()) for op in c0.flattened() if op.name.endswith("ERROR") or op.name.startswith("DEPOLARIZE")), "noise outside the given circuit", (*inp, "p", p))
@check("measurement records")
def h(R):
    rng = R.rng()
    for t in range(R.pick(150, 2500)):
        if R.out_of_time(): return
        code = code_of(rng)
        for zero in (True, False):
            qc = verified(rng, code, zero); p = 0.125; inp = desc(code, qc, zero)
            ok, s = R.call(lambda: Sim(qc, code, p, zero, rng.random() < .5), inp)
            if not ok: continue
            if rng.random() < .5: s.set_p(p)
            nconv = sum(1 for i in qc.data if i.operation.name == "measure")
            rec, acts = [], []                      # measured qubit and its couplings since its last measurement
            co = {}
            for op in s.stim_circ.flattened():
                ts = [x.value for x in op.targets_copy()]
                if op.name == "CX":
                    for a, b in zip(ts[::2], ts[1::2]): co.setdefault(a, []).append(("c", b)); co.setdefault(b, []).append(("t", a))
                elif op.name in ("H",):
                    for a in ts: co.setdefault(a, []).append(("h",))
                elif op.name[0] == "M":
                    for a in ts: rec.append((op.name, a, co.pop(a, [])))
            R.ok(s.n_measurements == len(rec) == s.stim_circ.num_measurements, f"{s.n_measurements} announced, {len(rec)} appended", inp)
            ver = sorted(s.x_verification_measurements + s.z_verification_measurements)
            R.ok(ver == list(range(nconv)), f"verification records {ver}, circuit has {nconv} measurements", inp)
            R.ok([rec[i][1] for i in s.data_measurements] == list(range(code.n)) and all(rec[i][0] == ("MR" if zero else "MRX") for i in s.data_measurements), f"data records {[rec[i][:2] for i in s.data_measurements]}", inp)
            for nm, M, ids in (("X", code.Hx, s.x_measurements), ("Z", code.Hz, s.z_measurements)):
                R.ok(len(ids) == len(M), f"{len(ids)} {nm} check records", inp)
                for row, i in zip(M, ids):
                    supp = [int(x) for x in np.where(row)[0]]; n_, a, c = rec[i]
                    want = (["MRX", [("h",)] + [("c", q) for q in supp]] if nm == "X" else ["MR", [("t", q) for q in supp]])
                    R.ok([n_, c] == want and a >= qc.num_qubits, f"{nm} check {supp} recorded as {n_} on {a} after {c}", inp)
            allids = ver + list(s.data_measurements) + list(s.x_measurements) + list(s.z_measurements)
            R.ok(sorted(allids) == list(range(len(rec))), f"records {allids} of {len(rec)}", inp)
@check("scoring of sampled runs")
def k(R):
    rng = R.rng()
    for t in range(R.pick(60, 800)):
        if R.out_of_time(): return
        code = code_of(rng)
        for zero in (True, False):
            qc = verified(rng, code, zero); inp = desc(code, qc, zero)
            ok, s = R.call(lambda: Sim(qc, code, 0.1, zero), inp)
            if not ok: continue
            shots = rng.randint(1, 40); base = s.stim_circ.compile_sampler(seed=rng.randrange(2**31)).sample(shots)
            mode = rng.random()
            if mode < .15 and (s.x_verification_measurements or s.z_verification_measurements): base[:, (s.x_verification_measurements + s.z_verification_measurements)[-1]] = True
            class Samp:
                def sample(self, n, **kw): assert n == shots, n; return base.copy()
            class Circ:
                def compile_sampler(self, **kw): return Samp()
            s.stim_circ = Circ(); ok, r = R.call(lambda: s._simulate_batch(shots), inp)
            if not ok: continue
            acc = fail = 0; L = code.Lz if zero else code.Lx
            for row in base:
                if any(row[i] for i in s.x_verification_measurements) or any(row[i] for i in s.z_verification_measurements): continue
                acc += 1; syn = np.array([row[i] for i in (s.z_measurements if zero else s.x_measurements)], dtype=np.int8)
                est = (s.decoder.decode_x if zero else s.decoder.decode_z)(syn); dat = np.array([row[i] for i in s.data_measurements], dtype=np.int64)
                fail += bool(((L @ ((dat + est) % 2)) % 2).any())
            R.ok((int(r[0]), int(r[1])) == (fail, shots - acc), f"reported (failures, discarded) {r}, actual {(fail, shots - acc)} of {shots}", inp)
@check("rates over all batches")
def m(R):
    rng = R.rng(); code = CSSCode.from_code_name("steane"); c4 = CSSCode(2, np.ones((1, 4), dtype=np.int8), np.ones((1, 4), dtype=np.int8)); qs = {}
    for t in range(R.pick(400, 4000)):
        if R.out_of_time(): return
        cd = rng.choice([code, c4]); zero = rng.random() < .5
        if (id(cd), zero) not in qs: qc = QuantumCircuit(cd.n); prep(qc, cd, zero, rng, False); qs[id(cd), zero] = Sim(qc, cd, 0.01, zero)
        s = qs[id(cd), zero]; log = []
        batch = rng.choice([1, 5, 8]); shots = rng.choice([1, 3, 5, 8, 12, 20, 24]); least = rng.random() < .5; me = rng.randint(0, 12)
        def stub(n):
            d = rng.choice([0, n, rng.randint(0, n)]); e = rng.randint(0, n - d); log.append((n, e, d)); return e, d
        s._simulate_batch = stub
        inp = (cd.n, "shots", shots, "per batch", batch, "at least", least, me); ok, r = R.call(lambda: s.logical_error_rate(shots, batch, least, me), inp, secs=20)
        del s.__dict__["_simulate_batch"]
        if not ok: continue
        b = min(batch, shots); E_, D = sum(x[1] for x in log), sum(x[2] for x in log); acc = b * len(log) - D; inp = (*inp, log)
        R.ok(all(x[0] == b for x in log), "batch size", inp)
        want = (E_ / acc / cd.k if acc else 0.0, acc / (b * len(log)), E_, b * len(log))
        R.ok(np.allclose(r, want), f"reported {r}, totals give {want}", inp)
        cum = np.cumsum([x[1] for x in log])
        if least: R.ok(cum[-1] >= me and all(x < me for x in cum[:-1]), "stops at the first batch with enough errors", inp)
        else: R.ok(len(log) == -(-shots // b), f"{len(log)} batches", inp)
rt.main("random CSS codes with n<=8 (redundant rows included), own preparation circuits with cancelling Hadamards, idle qubits, ancillas measured repeatedly, random H/CX/measure circuits")
