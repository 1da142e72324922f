import itertools
import numpy as np
import rt, gf
from rt import check
from mqt.qecc.codes import CSSCode
from mqt.qecc.ft_stateprep import LutDecoder

def codes(R):
    rng = R.rng()
    st = np.array([[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]], dtype=np.int8)
    yield "steane", CSSCode.from_code_name("steane")
    yield "steane, Z checks in another order", CSSCode(3, st, st[::-1].copy())
    yield "steane, Z checks in another basis", CSSCode(3, st, np.array([st[0], (st[0] + st[1]) % 2, st[2]], dtype=np.int8))
    yield "steane, int64", CSSCode(3, st.astype(int), st.astype(int))
    yield "shor", CSSCode.from_code_name("shor"); yield "surface", CSSCode.from_code_name("surface")
    for i in range(R.pick(60, 400)):
        n = rng.randint(1, 8)
        Hx, Hz = gf.randcss(rng, n, rng.randint(0, max(1, n // 2)), rng.randint(0, max(1, n // 2)))
        if rng.random() < 0.2:     # self-dual span, different presentation
            K = [v for v in Hx if not (Hx @ v % 2).any()]
            if K: Hx = np.array(K, dtype=np.int8); Hz = Hx[::-1].copy(); Hz[0] = (Hz[0] + Hz[-1]) % 2 if len(Hz) > 1 else Hz[0]
            if (Hx @ Hz.T % 2).any(): continue
        if len(Hx) + len(Hz) == 0: continue
        try: yield f"rand {Hx.tolist()} {Hz.tolist()}", CSSCode(1, Hx, Hz)
        except Exception as e: R.bad(f"valid code rejected: {e}", (Hx.tolist(), Hz.tolist()))
def degenerate(R):
    """few checks, many qubits without any check: long lists of errors per syndrome"""
    rng = R.rng(5)
    for i in range(R.pick(8, 40)):
        n = rng.randint(11, 13); m = rng.randint(1, 3); H = np.zeros((m, n), dtype=np.int8)
        for q in rng.sample(range(n), rng.randint(2, 5)) + [0, n - 1]: H[:, q] = [rng.randint(0, 1) for _ in range(m)]
        if i % 2 == 0: m = 2 + i % 4 // 2; n = 13; H = np.zeros((m, n), dtype=np.int8); H[:, 0] = 1; H[:, n - m:] = np.eye(m)   # the lightest error comes last
        yield (f"only Z checks {H.tolist()}", CSSCode(1, Hz=H)) if rng.random() < 0.5 else (f"only X checks {H.tolist()}", CSSCode(1, Hx=H))
def best(H):
    """minimum weight per syndrome, all errors"""
    n = H.shape[1]; h = gf.rows(H.T) if H.shape[0] else [0] * n; w = {}
    for e in range(2 ** n):
        s = 0
        for q in range(n):
            if e >> q & 1: s ^= h[q]
        b = bin(e).count("1")
        if s not in w or b < w[s]: w[s] = b
    return w
@check("table decoding")
def f(R):
    for nm, c in codes(R):
        if R.out_of_time(): break
        Hx, Hz = (np.asarray(m).astype(int) for m in (c.Hx, c.Hz))
        bx, bz = best(Hz), best(Hx)
        def run(d, order, tag):
            for side in order:
                H, b, dec, bat = (Hz, bx, d.decode_x, d.batch_decode_x) if side == "x" else (Hx, bz, d.decode_z, d.batch_decode_z)
                m = H.shape[0]; ss, es = [], []
                for s in b:
                    v = np.array([int(x) for x in format(s, f"0{m}b")] if m else [], dtype=np.int8)
                    ok, e = R.call(lambda: dec(v), (nm, tag, side, v.tolist()))
                    if not ok: return
                    e = np.asarray(e).astype(int)
                    R.ok(e.shape == (c.n,) and set(e.tolist()) <= {0, 1} and np.array_equal(H @ e % 2, v.astype(int)), f"answer {e.tolist()} does not have the syndrome", (nm, tag, side, v.tolist()))
                    R.ok(int(e.sum()) == b[s], f"weight {e.sum()} instead of {b[s]}", (nm, tag, side, v.tolist()))
                    ss.append(v); es.append(e)
                if m == 0: continue
                for ty in (np.int8, int, np.uint8):
                    ok, r = R.call(lambda: bat(np.array(ss, dtype=ty)), (nm, tag, side, "batch", ty.__name__))
                    if ok: R.ok(np.array_equal(np.asarray(r).astype(int), np.array(es)), "batch differs from one at a time", (nm, tag, side, ty.__name__))
                ok, r = R.call(lambda: bat(np.array(ss, dtype=np.int8)[::-1].T.copy().T), (nm, tag, side, "batch"))
                if ok: R.ok(np.array_equal(np.asarray(r).astype(int), np.array(es)[::-1]), "batch order or memory layout matters", (nm, tag, side))
        for init in (True, False):
            for order in ("xz", "zx", "xzx"):
                run(LutDecoder(c, init_luts=init), order, (init, order))
        d = LutDecoder(c, init_luts=False); d.generate_z_lut(); d.generate_x_lut(); run(d, "zx", "generated")
        d.generate_x_lut(); d.generate_z_lut(); run(d, "xz", "generated again")
@check("long candidate lists")
def lg(R):
    for nm, c in degenerate(R):
        if R.out_of_time(): break
        d = LutDecoder(c, init_luts=False)
        for side in "xz":
            H = np.asarray(c.Hz if side == "x" else c.Hx).astype(int); m = len(H)
            if m == 0: continue
            for s, w in best(H).items():
                v = np.array([int(x) for x in format(s, f"0{m}b")], dtype=np.int8)
                ok, e = R.call(lambda: (d.decode_x if side == "x" else d.decode_z)(v), (nm, side, v.tolist()))
                if ok: e = np.asarray(e).astype(int); R.ok(np.array_equal(H @ e % 2, v.astype(int)) and int(e.sum()) == w, f"answer {e.tolist()}, lightest weight {w}", (nm, side, v.tolist()))
@check("syndromes from the code")
def g(R):
    rng = R.rng()
    for nm, c in codes(R):
        if R.out_of_time(): break
        d = LutDecoder(c)
        for ty in (np.int8, int):
            for _ in range(4):
                e = gf.randmat(rng, 1, c.n)[0].astype(ty)
                for side, syn, dec in (("x", c.get_z_syndrome, d.decode_x), ("z", c.get_x_syndrome, d.decode_z)):
                    H = np.asarray(c.Hz if side == "x" else c.Hx).astype(int)
                    ok, r = R.call(lambda: dec(syn(e)), (nm, side, ty.__name__, e.tolist()))
                    if ok: R.ok(np.array_equal(H @ np.asarray(r).astype(int) % 2, H @ e.astype(int) % 2), "syndrome of the answer", (nm, side, e.tolist()))
rt.main("all syndromes of named and random codes on up to 9 qubits, both init settings, several orders of use, three integer types")
