import itertools
import numpy as np
import rt
from rt import check
from mqt.qecc.codes import stabilizer_code as S

A = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
def enc(p): return [A[c][0] for c in p] + [A[c][1] for c in p]
def anti(p, q): return sum(a != "I" and b != "I" and a != b for a, b in zip(p, q)) % 2
def strs(R, nmax, extra=60):
    for n in range(1, nmax + 1):
        for t in itertools.product("IXYZ", repeat=n): yield "".join(t)
    rng = R.rng()
    for _ in range(extra):
        yield "".join(rng.choice("IXYZ") for _ in range(rng.randint(nmax + 1, 40)))

@check("binary form")
def f1(R):
    for p in strs(R, R.pick(4, 6)):
        for s in ("", "+", "-"):
            q = s + p
            ok, b = R.call(lambda: S.pauli_to_binary(q), q)
            if not ok: continue
            R.ok(list(np.asarray(b).astype(int)) == enc(p) + [int(s == "-")], f"{q} -> {b}", q)
            ok, back = R.call(lambda: S.binary_to_pauli_string(b), q)
            if ok: R.ok(back == (q if s != "+" else p), f"{q} -> {back}", q)
            R.ok(S.get_n_qubits_from_pauli(q) == len(p), "number of qubits", q)
            R.ok(list(S.pauli_to_symplectic_vec(q).astype(int)) == enc(p), "symplectic vector", q)
            R.ok(S.is_pauli_string(q) is True, "valid string rejected", q)
    for n in range(1, 5):
        for v in itertools.product((0, 1), repeat=2 * n + 1):
            a = np.array(v); w = S.binary_to_pauli_string(a)
            R.ok(list(S.pauli_to_binary(w).astype(int)) == list(v), f"{v}->{w}", v)
            R.ok(S.get_n_qubits_from_pauli(a) == n, "number of qubits", v)
@check("pauli strings to binary")
def f2(R):
    rng = R.rng()
    for _ in range(R.pick(100, 600)):
        n, m = rng.randint(1, 9), rng.randint(1, 6)
        ps = ["".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(m)]
        ok, b = R.call(lambda: S.paulis_to_binary(ps), ps)
        if ok: R.ok(np.array_equal(b, np.array([enc(p) + [0] for p in ps])), "rows", ps)
@check("invalid strings")
def f3(R):
    import re
    for n in range(0, R.pick(4, 5)):
        for t in itertools.product("IXZ+-aY", repeat=n):
            s = "".join(t)
            want = bool(s) and re.fullmatch(r"[+-]?[IXYZ]*", s) is not None
            R.ok(bool(S.is_pauli_string(s)) == want, f"is_pauli_string({s!r})", s)
@check("commutation")
def f4(R):
    k = R.pick(3, 3)
    for n in range(1, k + 1):
        for p in itertools.product("IXYZ", repeat=n):
            for q in itertools.product("IXYZ", repeat=n):
                pair(R, "".join(p), "".join(q))
    rng = R.rng()
    for _ in range(R.pick(300, 2000)):
        n = rng.randint(4, 60)
        pair(R, *("".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(2)))
    for _ in range(R.pick(200, 1500)):
        n, a, b = rng.randint(1, 12), rng.randint(1, 5), rng.randint(1, 5)
        P = ["".join(rng.choice("IIXYZ") for _ in range(n)) for _ in range(a)]; Q = ["".join(rng.choice("IIIIXYZ") for _ in range(n)) for _ in range(b)]
        M, N = np.array([enc(p) for p in P]), np.array([enc(p) for p in Q])
        w = np.array([[anti(p, q) for q in Q] for p in P])
        R.ok(np.array_equal(S.symplectic_matrix_product(M, N), w), "matrix product", (P, Q))
        R.ok(np.array_equal(S.symplectic_matrix_mul(M, N[0]), w[:, 0]), "matrix mul", (P, Q))
        R.ok(bool(S.all_commute(M, N)) == (not w.any()), "all_commute", (P, Q))
def pair(R, p, q):
    a, b = np.array(enc(p)), np.array(enc(q)); w = anti(p, q)
    R.ok(S.symplectic_inner_product(a, b) == w, "inner product", (p, q))
    R.ok(bool(S.commute(a, b)) == (not w) and bool(S.anti_commute(a, b)) == bool(w), "commute/anti_commute", (p, q))
rt.main("all Pauli strings up to length 4 (6 thorough) with every sign, random longer strings, all pairs up to length 3; non-trivial: every distinct input")
