import numpy as np, itertools
import rt, gf
from rt import check
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
from mqt.qecc.codes import bb_codes as B
from mqt.qecc.codes.css_code import InvalidCSSCodeError

def powm(M, p):
    r = np.eye(len(M), dtype=int)
    for _ in range(p): r = r @ M % 2
    return r
def shift(l): return np.array([[int(j == (i + 1) % l) for j in range(l)] for i in range(l)], dtype=int)
@check("colour codes")
def f(R):
    for d in range(3, R.pick(18, 36), 2):
        for cls, n, w in ((HexagonalColorCode, (3 * d * d + 1) // 4, {4, 6}), (SquareOctagonColorCode, (d * d - 1) // 2 + d, {4, 8})):
            if R.out_of_time(): break
            nm = f"{cls.__name__}({d})"
            ok, c = R.call(lambda: cls(d), nm)
            if not ok: continue
            H = np.asarray(c.H).astype(int); m = (n - 1) // 2
            R.ok(c.n == n and H.shape == (m, n), f"{c.n} qubits and {H.shape[0]} faces instead of {n} and {m}", nm)
            R.ok(c.distance == d and len(c.data_qubits) == n and len(c.ancilla_qubits) == m, "sizes of the qubit sets", nm)
            if H.shape != (m, n): continue
            R.ok(np.array_equal(np.asarray(c.Hx), H) and np.array_equal(np.asarray(c.Hz), H), "check matrices are H", nm)
            R.ok(set(np.unique(H).tolist()) <= {0, 1}, "binary", nm)
            R.ok(gf.rank(H) == m and c.k == 1, f"one logical qubit, reported k={c.k}", nm)
            R.ok(sorted(c.faces_to_qubits) == list(range(m)) and sorted(c.qubits_to_faces) == list(range(n)), "every face and qubit listed", nm)
            for i, r in enumerate(H):
                q = c.faces_to_qubits[i]
                R.ok(len(set(q)) == len(q) and sorted(q) == np.flatnonzero(r).tolist(), f"face {i}: list {q}, row {np.flatnonzero(r).tolist()}", nm)
                R.ok(len(q) % 2 == 0 and len(q) in w, f"face {i} has {len(q)} qubits", nm)
            for j in range(n):
                q = c.qubits_to_faces[j]
                R.ok(len(set(q)) == len(q) and sorted(q) == np.flatnonzero(H[:, j]).tolist(), f"qubit {j}: faces {q}, column {np.flatnonzero(H[:, j]).tolist()}", nm)
                R.ok(1 <= len(q) <= 3, f"qubit {j} lies on {len(q)} faces", nm)
            ov = H @ H.T; bad = np.argwhere(ov % 2)
            R.ok(len(bad) == 0, f"faces {bad[:1].tolist()} overlap oddly", nm)
            off = ov - np.diag(np.diag(ov)); R.ok(not off.size or set(np.unique(off).tolist()) <= {0, 2}, f"overlaps {np.unique(off).tolist()}", nm)
            L = np.asarray(c.L).astype(int).reshape(-1, n)
            R.ok(len(L) == 1 and not (H @ L.T % 2).any() and gf.rank(np.vstack([H, L])) == m + 1, "logical operator", nm)
@check("colour code distance")
def fd(R):
    for d in R.pick((3, 5), (3, 5, 7)):
        for cls in (HexagonalColorCode, SquareOctagonColorCode):
            if R.out_of_time(): return
            c = cls(d); n = c.n; h = gf.rows(np.asarray(c.H).T); l = gf.rows(np.asarray(c.L).reshape(1, -1).T)
            low = None
            for w in range(1, min(d, 5)):
                for s in itertools.combinations(range(n), w):
                    x = 0; y = 0
                    for q in s: x ^= h[q]; y ^= l[q]
                    if x == 0 and y: low = s; break
                if low: break
            R.ok(low is None, f"undetected logical error {low}", f"{cls.__name__}({d})")
@check("named bicycle codes")
def g(R):
    tab = {72: (6, 6, [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)], 12), 90: (15, 3, [(9, 0), (0, 1), (0, 2)], [(0, 0), (2, 0), (7, 0)], 8), 108: (9, 6, [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)], 8),
           144: (12, 6, [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)], 12), 288: (12, 12, [(3, 0), (0, 2), (0, 7)], [(0, 3), (1, 0), (2, 0)], 12)}
    for n, (l, m, a, b, k) in tab.items():
        ok, c = R.call(lambda: B.construct_bb_code(n), n)
        if not ok: continue
        Hx, Hz = np.asarray(c.Hx).astype(int), np.asarray(c.Hz).astype(int)
        R.ok(c.n == n and Hx.shape == Hz.shape == (n // 2, n), "sizes", n)
        R.ok(not (Hx @ Hz.T % 2).any(), "orthogonal", n)
        R.ok(n - gf.rank(Hx) - gf.rank(Hz) == k == c.k, f"k = {c.k}, advertised {k}", n)
        R.ok((Hx.sum(1) == 6).all() and (Hz.sum(1) == 6).all() and (Hx.sum(0) == 3).all() and (Hz.sum(0) == 3).all(), "every check has weight 6", n)
    for n in (0, 36, 73, 143, 180): R.raises(lambda: B.construct_bb_code(n), InvalidCSSCodeError, n)
def poly(l, m, t):
    a = np.zeros((l * m, l * m), int)
    for p in t[0]: a = a + np.kron(powm(shift(l), p), np.eye(m, dtype=int))
    for p in t[1]: a = a + np.kron(np.eye(l, dtype=int), powm(shift(m), p))
    return a
@check("bicycle constructions")
def h(R):
    rng = R.rng()
    for l in range(1, 8): R.ok(np.array_equal(B._shift_matrix(l), shift(l)), "shift", l)
    for t in range(R.pick(250, 3000)):
        if R.out_of_time(): break
        l, m = rng.randint(1, 5), rng.randint(1, 5)
        # exponents up to twice the period; repeated exponents and empty lists included
        ts = [tuple([rng.randint(0, 2 * s) for _ in range(rng.randint(0, 4))] for s in (l, m)) for _ in range(2)]
        inp = (l, m, ts); R.case(inp)
        keep = repr(ts)
        ok, r = R.call(lambda: (B._cyclic_matrix_sum(*ts[0], l, m), B._x_matrix(l, m), B._y_matrix(l, m)), inp)
        if ok:
            R.ok(np.array_equal(np.asarray(r[0]).astype(int) % 2, poly(l, m, ts[0]) % 2), "sum of powers", inp)
            R.ok(np.array_equal(r[1], np.kron(shift(l), np.eye(m))) and np.array_equal(r[2], np.kron(np.eye(l), shift(m))), "shift of each coordinate", inp)
        ok, r = R.call(lambda: B._cyclic_code_check_matrix(m, l, *ts), inp)
        if not ok: continue
        X, Z = (np.asarray(q).astype(int) for q in r); a, b = poly(l, m, ts[0]) % 2, poly(l, m, ts[1]) % 2
        R.ok(X.shape == Z.shape == (l * m, 2 * l * m), "shapes", inp)
        if X.shape != Z.shape: continue
        R.ok(not (X @ Z.T % 2).any(), "X and Z checks orthogonal", inp)
        R.ok(np.array_equal(X, np.hstack([a, b])) and np.array_equal(Z, np.hstack([b.T, a.T])), "blocks of the two polynomials", inp)
        R.ok(repr(ts) == keep, "arguments unchanged", inp)
rt.main("colour codes of odd distance 3..17 (35), all named bicycle codes, random shift polynomials on tori up to 5x5 with exponents up to twice the period")
