import itertools, time
import numpy as np
import z3, rt, gf
from rt import check
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
from mqt.qecc.cc_decoder import decoder as D

def weights(H):
    """minimum weight per syndrome (breadth first over the syndromes)"""
    m, n = H.shape; cols = np.array([int("".join(map(str, c)), 2) for c in H.T.tolist()]); W = np.full(2 ** m, -1); W[0] = 0; fr = np.array([0]); w = 0
    while len(fr):
        w += 1; nx = np.unique((fr[:, None] ^ cols[None, :]).ravel()); nx = nx[W[nx] < 0]; W[nx] = w; fr = nx
    return W
def num(l): return int("".join(str(int(b)) for b in l), 2)
def fresh(c):
    lo = D.LightsOut(c.faces_to_qubits, c.qubits_to_faces); lo.preconstruct_z3_instance(); return lo
def judge(R, inp, H, W, lights, r):
    if not R.ok(isinstance(r, tuple) and len(r) == 3, "answer and two times", inp): return
    e = list(r[0])
    if not R.ok(len(e) == H.shape[1] and all(x in (0, 1) for x in e), f"one 0/1 entry per switch: {e}", inp): return
    e = np.array(e, dtype=int)
    R.ok((H @ e % 2 == np.array(lights, dtype=int)).all(), f"switches {np.flatnonzero(e).tolist()} leave {np.flatnonzero((H @ e + lights) % 2).tolist()} on", inp)
    if W is not None: R.ok(e.sum() == W[num(lights)], f"{e.sum()} switches, minimum {W[num(lights)]}", inp)
CODES = [(HexagonalColorCode, 3), (SquareOctagonColorCode, 3), (HexagonalColorCode, 5), (SquareOctagonColorCode, 5), (HexagonalColorCode, 7), (SquareOctagonColorCode, 7)]
@check("minimum-weight answers")
def f(R):
    rng = R.rng()
    for cls, d in CODES:
        c = cls(d); H = np.asarray(c.H).astype(int); m, n = H.shape; W = weights(H); lo = fresh(c)
        ss = list(itertools.product((0, 1), repeat=m)) if m <= 4 else [(0,) * m] + [tuple(rng.randint(0, 1) for _ in range(m)) for _ in range(R.pick(60, 400))] + [tuple((H[:, [rng.randrange(n) for _ in range(k)]].sum(1) % 2).tolist()) for k in (1, 2, 3, 4)] + [(1,) * m]
        rng.shuffle(ss)
        if m <= 4: ss = ss + ss[::-1] + [ss[0]] * 2
        t0 = time.time()
        for s in ss:
            if R.out_of_time() or time.time() - t0 > R.pick(11, 90): break
            lights = [bool(b) for b in s]; keep = list(lights); inp = (cls.__name__, d, s)
            ok, r = R.call(lambda: lo.solve(lights), inp)
            if not ok: lo = fresh(c); continue
            judge(R, inp, H, W, s, r); R.ok(lights == keep, "the caller's pattern is unchanged", inp)
@check("larger distances")
def fl(R):
    rng = R.rng()
    for cls, d in ((HexagonalColorCode, 9), (SquareOctagonColorCode, 9)):
        c = cls(d); H = np.asarray(c.H).astype(int); lo = fresh(c)
        for t in range(R.pick(8, 40)):
            if R.out_of_time(): break
            w = rng.randint(1, 5); e0 = np.zeros(c.n, int); e0[rng.sample(range(c.n), w)] = 1; s = H @ e0 % 2
            ok, r = R.call(lambda: lo.solve([bool(b) for b in s]), (cls.__name__, d, np.flatnonzero(e0).tolist()), secs=60)
            if ok: judge(R, (cls.__name__, d, np.flatnonzero(e0).tolist()), H, None, s, r); R.ok(sum(r[0]) <= w, f"{sum(r[0])} switches although {w} suffice", (cls.__name__, d, np.flatnonzero(e0).tolist()))
@check("history independence")
def g(R):
    rng = R.rng()
    for cls, d in CODES[:4]:
        c = cls(d); H = np.asarray(c.H).astype(int); m, n = H.shape; W = weights(H); lo = fresh(c)
        base = len(lo.optimizer.assertions())
        for t in range(R.pick(12, 60)):
            if R.out_of_time(): break
            s = [bool(rng.getrandbits(1)) for _ in range(m)]; lights = list(s); inp = (cls.__name__, d, t, s)
            for rep in range(2):
                ok, r = R.call(lambda: lo.solve(lights), inp)
                if not ok: lo = fresh(c); break
                judge(R, inp, H, W, np.array(s, dtype=int), r)
            R.ok(len(lo.optimizer.assertions()) == base, "constraints of one pattern are withdrawn", inp)
        if m > 4: continue
        for p in itertools.product(itertools.product((0, 1), repeat=m), repeat=2):     # every ordered pair of patterns on a fresh instance
            if R.out_of_time(): break
            lo = fresh(c)
            for s in p:
                ok, r = R.call(lambda: lo.solve([bool(b) for b in s]), (cls.__name__, d, p))
                if ok: judge(R, (cls.__name__, d, p), H, W, s, r)
    import os, tempfile, shutil
    here = os.getcwd(); tmp = tempfile.mkdtemp(prefix="c13_")
    try:                                                                                # an external solver in between
        os.chdir(tmp)
        for cls, d in CODES[:2]:
            c = cls(d); H = np.asarray(c.H).astype(int); W = weights(H); lo = fresh(c)
            for s in itertools.product((0, 1), repeat=len(H)):
                ok, r = R.call(lambda: (lo.solve([bool(x) for x in s[::-1]], solver_path="true"), lo.solve([bool(x) for x in s]))[1], (cls.__name__, d, s, "after an external solver"))
                if ok: judge(R, (cls.__name__, d, s, "after an external solver"), H, W, s, r)
                else: break
    finally: os.chdir(here); shutil.rmtree(tmp, ignore_errors=True)
    for cls, d in CODES[:2]:                                                            # constructing twice, two decoders side by side
        c = cls(d); H = np.asarray(c.H).astype(int); W = weights(H); a, b = fresh(c), fresh(c); a.preconstruct_z3_instance()
        for s in itertools.product((0, 1), repeat=len(H)):
            for lo in (a, b):
                ok, r = R.call(lambda: lo.solve([bool(x) for x in s]), (cls.__name__, d, s))
                if ok: judge(R, (cls.__name__, d, s), H, W, s, r)
@check("constraints mean the lights-out problem")
def h(R):
    rng = R.rng()
    for cls, d in CODES[:4]:
        c = cls(d); H = np.asarray(c.H).astype(int); m, n = H.shape
        for t in range(R.pick(8, 40)):
            if R.out_of_time(): break
            e0 = np.array([rng.randint(0, 1) for _ in range(n)]); s = (H @ e0 % 2).tolist(); lo = fresh(c)
            for light, v in enumerate(s): lo.complete_parity_constraint(light, lo.lights_to_switches[light], bool(v))
            sol = z3.Solver(); sol.add(lo.optimizer.assertions())
            for u in range(R.pick(16, 40)):
                e = np.array([rng.randint(0, 1) for _ in range(n)])
                if u % 2: e = (e0 + sum([r for r in H if rng.random() < .5], np.zeros(n, int))) % 2      # another solution
                if u % 4 == 3 or u % 4 == 2: e = e.copy(); e[rng.randrange(n)] ^= u % 4 == 2
                want = bool((H @ e % 2 == s).all())
                sol.push(); sol.add([v if b else z3.Not(v) for v, b in zip(lo.switch_vars, e.tolist())]); got = str(sol.check()) == "sat"; sol.pop()
                R.ok(got == want, f"constraints satisfied={got}, lights off={want}", (cls.__name__, d, s, e.tolist()))
            obj = lo.optimizer.objectives()
            R.ok(len(lo.switch_vars) == n and len({str(v) for v in lo.switch_vars}) == n, "one variable per switch", (cls.__name__, d))
@check("model validation")
def k(R):
    rng = R.rng()
    for cls, d in CODES[:4]:
        c = cls(d); H = np.asarray(c.H).astype(int); m, n = H.shape; lo = fresh(c)
        for t in range(R.pick(60, 300)):
            e = [rng.randint(0, 1) for _ in range(n)]; s = (H @ e % 2).tolist()
            if t % 2: s[rng.randrange(m)] ^= 1
            und = rng.random() < 0.5    # unassigned switches count as not pressed
            model = {v: (z3.BoolVal(bool(b)) if b or not und else None) for v, b in zip(lo.switch_vars, e)}
            class M:
                def __getitem__(self, v): return model[v]
            ok, r = R.call(lambda: (lo.validate_model(M(), [bool(x) for x in s]), lo.count_switches(M())), (cls.__name__, d, e, s))
            if ok:
                R.ok(bool(r[0]) == (t % 2 == 0), f"validation {r[0]}", (cls.__name__, d, e, s)); R.ok(r[1] == sum(e), f"{r[1]} switches counted, {sum(e)} pressed", (cls.__name__, d, e))
@check("other lights-out problems")
def o(R):
    """random incidence lists (at least two switches per light), not only colour codes"""
    rng = R.rng()
    for t in range(R.pick(40, 300)):
        if R.out_of_time(): break
        m, n = rng.randint(1, 4), rng.randint(2, 6)
        l2s = {i: rng.sample(range(n), rng.randint(2, n)) for i in range(m)}; s2l = {j: [i for i in range(m) if j in l2s[i]] for j in range(n)}
        H = np.array([[int(j in l2s[i]) for j in range(n)] for i in range(m)]); W = weights(H)
        lo = D.LightsOut(l2s, s2l); lo.preconstruct_z3_instance()
        for s in itertools.product((0, 1), repeat=m):
            if W[num(s)] < 0: continue
            ok, r = R.call(lambda: lo.solve([bool(b) for b in s]), (l2s, s))
            if ok: judge(R, (l2s, s), H, W, s, r)
            else: break
rt.main("all syndromes of the distance-3 codes and all ordered pairs of them; sampled syndromes for distances 5 and 7; random small incidence lists; minimum weights by breadth-first search")
