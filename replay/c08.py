import itertools
import numpy as np
import rt, gf
from rt import check
from mqt.qecc.codes import CSSCode, InvalidCSSCodeError
from mqt.qecc.codes.stabilizer_code import StabilizerCode, InvalidStabilizerCodeError, pauli_to_binary
E = (InvalidCSSCodeError, InvalidStabilizerCodeError)
def css(R, d, Hx, Hz, xd=None, zd=None):
    inp = (d, None if Hx is None else Hx.tolist(), None if Hz is None else Hz.tolist(), xd, zd)
    ok = (Hx is not None or Hz is not None)
    if Hx is not None and Hz is not None: ok = Hx.shape[1] == Hz.shape[1] and not (Hx.astype(int) @ Hz.T.astype(int) % 2).any()
    ok = bool(ok and d > 0 and (xd is None or xd >= d) and (zd is None or zd >= d))
    R.case(inp)
    try: c = CSSCode(d, Hx, Hz, xd, zd)
    except E as e:
        if ok: R.bad(f"valid code rejected: {e}", inp)
        return
    except Exception as e:
        R.bad(f"{type(e).__name__}: {e}", inp); return
    if not ok: R.bad("invalid code accepted", inp); return
    n = (Hx if Hx is not None else Hz).shape[1]
    X = Hx if Hx is not None else np.zeros((0, n), int); Z = Hz if Hz is not None else np.zeros((0, n), int)
    G = np.zeros((len(X) + len(Z), 2 * n + 1), int); G[:len(X), :n] = X; G[len(X):, n:2 * n] = Z
    R.ok(c.n == n and np.array_equal(c.Hx, X) and np.array_equal(c.Hz, Z) and np.asarray(c.Hx).shape == X.shape and np.asarray(c.Hz).shape == Z.shape, "checks changed", inp)
    R.ok(np.array_equal(c.generators, G), "generators", inp)
    R.ok(c.k == n - gf.rank(G), "k", inp)
    R.ok((c.distance, c.x_distance, c.z_distance) == (d, d if xd is None else xd, d if zd is None else zd), "distances", inp)
    R.ok(c.x_checks_as_pauli_strings() == ["".join("IX"[b] for b in r) for r in X] and c.z_checks_as_pauli_strings() == ["".join("IZ"[b] for b in r) for r in Z], "check strings", inp)
@check("css construction")
def f(R):
    rng = R.rng()
    css(R, 1, None, None)
    for nx, nz in itertools.product(range(1, 4), repeat=2):
        for rx, rz in itertools.product(range(1, 3), repeat=2):
            for _ in range(6): css(R, 1, gf.randmat(rng, rx, nx), gf.randmat(rng, rz, nz))
    for n in (1, 2, 3):
        for a in itertools.product((0, 1), repeat=n):
            for b in itertools.product((0, 1), repeat=n): css(R, 1, np.array([a], dtype=np.int8), np.array([b], dtype=np.int8))
    for a in itertools.product((0, 1), repeat=4):
        for b in itertools.product((0, 1), repeat=4): css(R, 1, np.array([a[:2], a[2:]], dtype=np.int8), np.array([b[:2], b[2:]], dtype=np.int8))
    for _ in range(R.pick(300, 3000)):
        n = rng.randint(2, 20)
        Hx, Hz = gf.randcss(rng, n, rng.randint(1, n), rng.randint(1, n))
        if rng.random() < 0.4: Hz[rng.randrange(len(Hz)), rng.randrange(n)] ^= 1
        d = rng.choice([-1, 0, 1, 2, 3])
        xd, zd = (rng.choice([None, d, d + 1, d - 1, d + 3]) for _ in range(2))
        css(R, d, *rng.choice([(Hx, Hz), (Hx, Hz), (Hx, None), (None, Hz)]), xd, zd)
    # large weights: parities beyond the int8 range
    for n, w in ((130, 128), (300, 256), (260, 130), (400, 384)):
        H = np.zeros((1, n), dtype=np.int8); H[0, :w] = 1
        css(R, 1, H, H.copy()); H2 = H.copy(); H2[0, w - 1] = 0
        css(R, 1, H, H2)

def anti(a, b, n): return int((a[:n] @ b[n:2 * n] + a[n:2 * n] @ b[:n]) % 2)
def stab(R, gens, d, Lz, Lx):
    inp = (gens, d, Lz, Lx); R.case(inp)
    bit = lambda ps: [np.asarray(pauli_to_binary(p)).astype(int) for p in ps]
    import re
    ok = len(gens) > 0 and len({len(g) for g in gens}) == 1 and all(re.fullmatch("[+-]?[IXYZ]+", g) for g in gens)
    if ok and len({g[0] in "+-" for g in gens}) > 1: return   # mixed signs: outside the stated domain
    if ok:
        G = bit(gens); n = (len(G[0]) - 1) // 2
        ok = (d is None or d > 0) and not any(anti(a, b, n) for a in G for b in G)
        if ok and (Lz is None) != (Lx is None): ok = False
        if ok and Lz is not None:
            k = n - gf.rank(np.array(G)); z, x = bit(Lz), bit(Lx)
            ok = all(len(v) == 2 * n + 1 for v in z + x) and len(z) <= k and len(x) <= k
            if ok:
                ok = not any(anti(a, b, n) for a in z + x for b in G)
                M = np.array([[anti(a, b, n) for b in x] for a in z])
                ok = ok and (M.sum(0) == 1).all() and (M.sum(1) == 1).all()
    try: c = StabilizerCode(gens, d, Lz, Lx)
    except InvalidStabilizerCodeError as e:
        if ok: R.bad(f"valid code rejected: {e}", inp)
        return
    except Exception as e: R.bad(f"{type(e).__name__}: {e}", inp); return
    if not ok: R.bad("invalid code accepted", inp); return
    R.ok(c.n == n and np.array_equal(c.generators, np.array(G)) and c.k == n - gf.rank(np.array(G)) and c.distance == (1 if d is None else d), "fields", inp)
    R.ok([s.lstrip("+") for s in gens] == c.stabs_as_pauli_strings(), "strings", inp)
    if Lz is not None: R.ok(np.array_equal(c.Lz, np.array(bit(Lz))) and np.array_equal(c.Lx, np.array(bit(Lx))), "logicals", inp)
@check("stabilizer construction")
def g(R):
    rng = R.rng()
    stab(R, [], None, None, None)
    five = ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]
    for d in (None, 3, 1, 0, -2): stab(R, five, d, None, None); stab(R, five, d, ["ZZZZZ"], ["XXXXX"])
    stab(R, five, 3, ["ZZZZZ"], None); stab(R, five, 3, None, ["XXXXX"]); stab(R, five, 3, ["ZZZZZ"], ["ZZZZZ"]); stab(R, five, 3, ["ZZZZ"], ["XXXXX"]); stab(R, five, 3, ["ZIIII"], ["XXXXX"])
    stab(R, five + ["ZZZZZ"], 3, ["ZZZZZ"], ["XXXXX"])
    for gens in (["ZX", "ZXX"], ["Z", "X"], ["XX", "ZZ"], ["XX", "ZI"], ["AX"], ["X+"], ["ZZ", "zz"], ["-ZZ", "-XX"], ["+X"]): stab(R, gens, None, None, None)
    f = ["ZZZZ", "XXXX"]
    P2 = ["ZZII", "ZIZI", "XXII", "XIXI", "IIII", "ZIII", "YYII", "ZZZZ", "XIIX"]
    for lz in itertools.product(P2, repeat=2):
        for lx in itertools.product(P2, repeat=2):
            if rng.random() < R.pick(0.15, 1): stab(R, f, 2, list(lz), list(lx))
    for lz in P2:
        for lx in P2: stab(R, f, 2, [lz], [lx])
    stab(R, f, 2, ["ZZII"], ["XIXI", "XXII"]); stab(R, f, 2, ["ZZII", "ZIZI"], ["XIXI"]); stab(R, f, 2, ["ZZII", "ZIZI", "ZZZZ"], ["XIXI", "XXII", "XXXX"])
    # [[6, 4, 2]] and [[2m, 2m - 2, 2]]: up to four logical operators per side, all ways of pairing them badly
    for n in (6, 8):
        z = ["".join("Z" if q in (0, i) else "I" for q in range(n)) for i in range(1, n - 1)]
        x = ["".join("X" if q in (i, n - 1) else "I" for q in range(n)) for i in range(1, n - 1)]
        xt = ["".join("X" if q in (0, i) else "I" for q in range(n)) for i in range(1, n - 1)]
        gens = ["X" * n, "Z" * n]
        for _ in range(R.pick(300, 2000)):
            lz = rng.sample(z, rng.randint(1, min(4, len(z)))); lx = rng.sample(rng.choice([x, x, xt]), rng.randint(1, min(4, len(x))))
            stab(R, gens, 2, lz, lx)
        for m in range(1, 5): stab(R, gens, 2, z[:m], x[:m]); stab(R, gens, 2, z[:1], x[:m]); stab(R, gens, 2, z[:m], x[:1])
        for m in range(1, 5): stab(R, gens, 2, z[:1], xt[:m]); stab(R, gens, 2, z[:m], xt[:1])
        for i in range(3): stab(R, gens, 2, [z[i]], [x[i]] * 2); stab(R, gens, 2, [z[i]] * 2, [x[i]] * 2); stab(R, gens, 2, [z[i]], [x[i]] * 3); stab(R, gens, 2, [z[i]] * 3, [x[i]])
    for _ in range(R.pick(400, 3000)):
        n = rng.randint(1, 4)
        gens = ["".join(rng.choice("IIXZY") for _ in range(n)) for _ in range(rng.randint(1, 3))]
        lz = ["".join(rng.choice("IXZY") for _ in range(n)) for _ in range(rng.randint(1, 2))]
        lx = ["".join(rng.choice("IXZY") for _ in range(n)) for _ in range(rng.randint(1, 2))]
        stab(R, gens, rng.choice([None, 1, 2]), *rng.choice([(None, None), (lz, lx), (lz, lx)]))
rt.main("all one- and two-row CSS pairs up to 3 (2) columns, random pairs up to 20 qubits with flipped entries and all distance relations, row weights up to 384; stabilizer codes up to 5 qubits with all small logical operator lists")
