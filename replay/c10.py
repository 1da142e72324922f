import itertools, os
import numpy as np
import rt, gf
from rt import check
from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
from mqt.qecc.codes.stabilizer_code import StabilizerCode, binary_to_pauli_string

def codes(R):
    for nm in ("steane", "shor", "surface", "carbon", "tetrahedral", "hamming", "golay"):
        yield nm, CSSCode.from_code_name(nm)
    yield "hex3", HexagonalColorCode(3)
    yield "hex5", HexagonalColorCode(5)
    yield "sq5", SquareOctagonColorCode(5)
    rng = R.rng()
    for i in range(R.pick(60, 400)):
        n = rng.randint(2, 10)
        Hx, Hz = gf.randcss(rng, n, rng.randint(1, max(1, n // 2)), rng.randint(1, max(1, n // 2)))
        try: yield f"rand{i}:{Hx.tolist()}:{Hz.tolist()}", CSSCode(1, Hx, Hz)
        except Exception as e: R.bad(f"valid random code rejected: {e}", (Hx.tolist(), Hz.tolist()))
    for i in range(10):
        n = rng.randint(2, 6); H = gf.randmat(rng, rng.randint(1, 3), n)
        yield f"only x {H.tolist()}", CSSCode(1, Hx=H)
        yield f"only z {H.tolist()}", CSSCode(1, Hz=H)
def errors(R, c, k=12):
    rng = R.rng(c.n)
    n = c.n
    yield np.zeros(n, dtype=np.int8)
    for H in (c.Hx, c.Hz, c.Lx, c.Lz):
        H = np.asarray(H)
        for _ in range(3):
            v = np.zeros(n, dtype=np.int8)
            for r in H:
                if rng.random() < 0.5: v = (v + r) % 2
            yield v.astype(np.int8)
    if 2 ** n <= 64:
        for t in itertools.product((0, 1), repeat=n): yield np.array(t, dtype=np.int8)
    for _ in range(k): yield gf.randmat(rng, 1, n, rng.choice([.1, .3, .5]))[0]
@check("css queries")
def f(R):
    for nm, c in codes(R):
        if R.out_of_time(): break
        es = list(errors(R, c)); Hx, Hz, Lx, Lz = (np.asarray(m).astype(int) for m in (c.Hx, c.Hz, c.Lx, c.Lz))
        for e in es:
            i = e.astype(int)
            R.ok(np.array_equal(np.asarray(c.get_x_syndrome(e)), Hx @ i % 2), "x syndrome", (nm, i.tolist()))
            R.ok(np.array_equal(np.asarray(c.get_z_syndrome(e)), Hz @ i % 2), "z syndrome", (nm, i.tolist()))
            R.ok(bool(c.check_if_x_stabilizer(e)) == gf.inspan(Hx, i), "x stabilizer", (nm, i.tolist()))
            R.ok(bool(c.check_if_z_stabilizer(e)) == gf.inspan(Hz, i), "z stabilizer", (nm, i.tolist()))
            R.ok(bool(c.check_if_logical_x_error(e)) == bool((Lz @ i % 2).any()), "logical x", (nm, i.tolist()))
            R.ok(bool(c.check_if_logical_z_error(e)) == bool((Lx @ i % 2).any()), "logical z", (nm, i.tolist()))
        rng = R.rng(1)
        pairs = [(a, b) for a in es[:8] for b in es[:8]] + [(rng.choice(es), rng.choice(es)) for _ in range(20)]
        for a, b in pairs:
            s = (a + b) % 2
            R.ok(bool(c.stabilizer_eq_x_error(a, b)) == gf.inspan(Hx, s), "x equivalence", (nm, a.tolist(), b.tolist()))
            R.ok(bool(c.stabilizer_eq_z_error(a, b)) == gf.inspan(Hz, s), "z equivalence", (nm, a.tolist(), b.tolist()))
@check("stabilizer code queries")
def g(R):
    from mqt.qecc.codes.stabilizer_code import pauli_to_binary
    rng = R.rng()
    for nm, c in codes(R):
        if R.out_of_time(): break
        if c.n > 15 or hasattr(c, 'H'): continue
        G = np.asarray(c.generators).astype(int); n = c.n
        ps = []
        for _ in range(6):
            ps.append(gf.randmat(rng, 1, 2 * n + 1)[0].astype(int))
            ps.append(np.array([rng.randint(0, 1) for _ in range(len(G))]) @ G % 2)
        ps.append(np.zeros(2 * n + 1, int))
        for v in ps:
            w = (G[:, :n] @ v[n:2 * n] + G[:, n:2 * n] @ v[:n]) % 2
            R.ok(np.array_equal(np.asarray(c.get_syndrome(v)), w), "syndrome", (nm, v.tolist()))
            R.ok(np.array_equal(np.asarray(c.get_syndrome(binary_to_pauli_string(v))), w), "syndrome of string", (nm, v.tolist()))
        for a in ps:
            for b in ps:
                R.ok(bool(c.stabilizer_equivalent(binary_to_pauli_string(a), binary_to_pauli_string(b))) == gf.inspan(G, (a + b) % 2), "equivalent", (nm, a.tolist(), b.tolist()))
@check("colour code queries")
def h(R):
    for cl, d in ((HexagonalColorCode, 3), (HexagonalColorCode, 5), (SquareOctagonColorCode, 3), (SquareOctagonColorCode, 5), (HexagonalColorCode, 7)):
        c = cl(d); H = np.asarray(c.H).astype(int)
        for rep in range(2):
            L = np.asarray(c.L).astype(int)
            R.ok(L.shape[0] == 1 and not (H @ L.T % 2).any() and not gf.inspan(H, L[0]), "L is a logical operator", (cl.__name__, d, rep))
            for e in errors(R, c, 40):
                i = e.astype(int)
                R.ok(np.array_equal(c.get_syndrome(e), H @ i % 2), "syndrome", (cl.__name__, d, i.tolist()))
                R.ok(bool(c.check_if_logical_error(e)) == bool((L @ i % 2).any()), "logical error", (cl.__name__, d, i.tolist()))
            c.compute_logical()
rt.main("named codes, hexagonal d=3,5,7 and square-octagon d=3,5 colour codes, 60 (400) random CSS codes up to 10 qubits with dependent rows; all errors for n<=6 else sampled stabilizers, logicals and random errors")
