import itertools
import numpy as np
import rt, gf
from rt import check
from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode, InvalidCSSCodeError, construct_bb_code

def logicals(R, nm, c, k=None):
    Hx, Hz, Lx, Lz = (np.asarray(m).astype(int) for m in (c.Hx, c.Hz, c.Lx, c.Lz)); n = Hx.shape[1]
    kk = n - gf.rank(Hx) - gf.rank(Hz)
    R.ok(Lx.shape == (kk, n) and Lz.shape == (kk, n), f"number of logicals {Lx.shape} {Lz.shape}, k={kk}", nm)
    R.ok(not (Hz @ Lx.T % 2).any() and not (Hx @ Lz.T % 2).any(), "logicals commute with checks", nm)
    R.ok(gf.rank(np.vstack([Hx, Lx])) == gf.rank(Hx) + len(Lx), "X logicals independent modulo stabilizers", nm)
    R.ok(gf.rank(np.vstack([Hz, Lz])) == gf.rank(Hz) + len(Lz), "Z logicals independent modulo stabilizers", nm)
    R.ok(c.x_logicals_as_pauli_strings() == ["".join("IX"[b] for b in r) for r in Lx], "X logical strings", nm)
    R.ok(c.z_logicals_as_pauli_strings() == ["".join("IZ"[b] for b in r) for r in Lz], "Z logical strings", nm)
    R.ok(c.x_checks_as_pauli_strings() == ["".join("IX"[b] for b in r) for r in Hx] and c.z_checks_as_pauli_strings() == ["".join("IZ"[b] for b in r) for r in Hz], "check strings", nm)
    if k is not None: R.ok(kk == k, f"k = {kk}, advertised {k}", nm)
    R.ok(int(c.k) == kk, f"c.k={c.k}", nm)
NAMED = {("steane", None): (7, 1, 3), ("tetrahedral", None): (15, 1, 3), ("hamming", None): (15, 7, 3), ("shor", None): (9, 1, 3), ("carbon", None): (12, 2, 4), ("surface", None): (9, 1, 3), ("surface", 3): (9, 1, 3), ("surface", 5): (25, 1, 5), ("golay", None): (23, 1, 7), ("Steane", None): (7, 1, 3), ("GOLAY", None): (23, 1, 7)}
@check("named codes")
def f(R):
    for (nm, d), (n, k, dist) in NAMED.items():
        ok, c = R.call(lambda: CSSCode.from_code_name(nm, d), (nm, d))
        if not ok: continue
        R.ok(c.n == n and c.distance == dist, f"n={c.n} distance={c.distance}", (nm, d))
        logicals(R, (nm, d), c, k)
        # true distances of the small codes are the advertised ones
        if n <= 15:
            for H, L, dd in ((c.Hz, c.Hx, c.x_distance), (c.Hx, c.Hz, c.z_distance)):
                K = gf.kernel(np.asarray(H)); best = n
                for cf in itertools.product((0, 1), repeat=len(K)):
                    v = np.array(cf) @ K % 2
                    if v.any() and v.sum() < best and not gf.inspan(L, v): best = int(v.sum())
                R.ok(best == dd, f"distance {best}, advertised {dd}", (nm, d))
    R.raises(lambda: CSSCode.from_code_name("no such code"), InvalidCSSCodeError, "unknown")
    R.raises(lambda: CSSCode.from_code_name("surface", 7), InvalidCSSCodeError, "surface 7")
@check("bivariate bicycle codes")
def g(R):
    for n, k in ((72, 12), (90, 8), (108, 8), (144, 12), (288, 12)):
        ok, c = R.call(lambda: construct_bb_code(n), n)
        if not ok: continue
        R.ok(c.n == n and np.asarray(c.Hx).shape == (n // 2, n) and (np.asarray(c.Hx).sum(0) == 3).all() and (np.asarray(c.Hx).sum(1) == 6).all() and (np.asarray(c.Hz).sum(1) == 6).all() and (np.asarray(c.Hz).sum(0) == 3).all(), "size and weights", n)
        logicals(R, n, c, k)
    for n in (0, 71, 73, 100, -72): R.raises(lambda: construct_bb_code(n), InvalidCSSCodeError, n)
@check("random codes")
def h(R):
    rng = R.rng()
    for cl, d in ((HexagonalColorCode, 3), (HexagonalColorCode, 5), (SquareOctagonColorCode, 3), (SquareOctagonColorCode, 5)): logicals(R, (cl.__name__, d), cl(d), 1)
    for i in range(R.pick(500, 6000)):
        if R.out_of_time(): break
        n = rng.randint(1, 13)
        if i % 5 == 0:
            Hx, Hz = (gf.randmat(rng, rng.randint(1, n), n), None) if i % 2 else (None, gf.randmat(rng, rng.randint(1, n), n))
        else: Hx, Hz = gf.randcss(rng, n, rng.randint(1, n), rng.randint(1, n))
        inp = (None if Hx is None else Hx.tolist(), None if Hz is None else Hz.tolist())
        ok, c = R.call(lambda: CSSCode(1, Hx, Hz), inp)
        if ok: logicals(R, inp, c)
rt.main("all built-in code names and bivariate bicycle sizes (complete, finite), colour codes d=3,5, 500 (6000) random CSS codes up to 13 qubits including one-sided, dependent-row and k=0 codes")
