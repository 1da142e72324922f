import numpy as np, scipy.sparse as sp
import rt, gf
from rt import check
from mqt.qecc.analog_information_decoding.utils.simulation_utils import build_single_stage_pcm
from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import get_analog_pcm
from mqt.qecc.analog_information_decoding.simulators.memory_experiment_v2 import build_multiround_pcm

def mats(R, k):
    rng = R.rng()
    for i in range(k):
        yield gf.randmat(rng, rng.randint(1, 6), rng.randint(1, 7)), rng
def dense(x): return np.asarray(x.todense() if hasattr(x, "todense") else x)
@check("single stage matrix")
def a(R):
    for H, rng in mats(R, R.pick(150, 1500)):
        if R.out_of_time(): break
        m, n = H.shape; M = gf.randmat(rng, rng.randint(1, 6), m); l = M.shape[0]
        ok, r = R.call(lambda: dense(build_single_stage_pcm(H.copy(), M.copy())), (H.tolist(), M.tolist()))
        if not ok: continue
        want = np.zeros((m + l, n + m), int); want[:m, :n] = H; want[m:, n:] = M
        for i in range(m): want[i, n + i] = 1
        R.ok(r.shape == want.shape and np.array_equal(r, want), f"{r.tolist()} != {want.tolist()}", (H.tolist(), M.tolist()))
@check("analog matrix")
def b(R):
    for H, rng in mats(R, R.pick(150, 1500)):
        if R.out_of_time(): break
        m, n = H.shape
        ok, r = R.call(lambda: dense(get_analog_pcm(H.copy())), H.tolist())
        if not ok: continue
        want = np.zeros((m, n + m), int); want[:, :n] = H
        for i in range(m): want[i, n + i] = 1
        R.ok(r.shape == want.shape and np.array_equal(r, want), f"{r.tolist()} != {want.tolist()}", H.tolist())
@check("multi-round matrix")
def d(R):
    for H, rng in mats(R, R.pick(120, 1200)):
        if R.out_of_time(): break
        m, n = H.shape; reps = rng.randint(0, 5); T = reps + 1
        want = np.zeros((m * T, n * T + m * T), int)
        for t in range(T):
            want[t * m:(t + 1) * m, t * n:(t + 1) * n] = H
            for i in range(m):
                want[t * m + i, n * T + t * m + i] = 1
                if t: want[t * m + i, n * T + (t - 1) * m + i] = 1
        for arg in (H.copy(), sp.csr_matrix(H), sp.csc_matrix(H)):
            ok, r = R.call(lambda: build_multiround_pcm(arg, reps), (H.tolist(), reps))
            if not ok: continue
            for f in ("csr", "csc", "coo"):
                r2 = dense(build_multiround_pcm(arg, reps, matrix_format=f))
                R.ok(r2.shape == want.shape and np.array_equal(r2, want), f"{f}: {r2.tolist()} != {want.tolist()}", (H.tolist(), reps))
            r = dense(r)
            R.ok(r.shape == want.shape and np.array_equal(r, want), f"{r.tolist()} != {want.tolist()}", (H.tolist(), reps))
@check("analog matrices of the simulator")
def e(R):
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    for H, rng in mats(R, R.pick(60, 500)):
        n = H.shape[1]; H2 = gf.randmat(rng, rng.randint(1, 6), n)
        o = object.__new__(SingleShotSimulator); o.Hx, o.Hz = H, H2
        ok, r = R.call(lambda: o.construct_analog_pcms(), (H.tolist(), H2.tolist()))
        if not ok: continue
        for got, h in zip(r, (H, H2)):
            R.ok(np.array_equal(dense(got), np.hstack([h, np.eye(len(h), dtype=int)])), "analog matrix", (H.tolist(), H2.tolist()))
rt.main("random matrices up to 6x7 (meta checks up to 6 rows), 0..5 repetitions, dense / csr / csc input and output formats")
