import itertools, rt, cxxbuild
from rt import check
rt.FORK = True
Q = cxxbuild.core()
G = Q.Growth
MODES = {"UFDecoder": [G.AllComponents, G.SingleSmallest, G.SingleRandom, G.SingleQubitRandom], "UFHeuristic": [G.AllComponents, G.InvalidComponents, G.SingleSmallest, G.SingleRandom]}
UNSUP = {"UFDecoder": [G.InvalidComponents], "UFHeuristic": [G.SingleQubitRandom]}
def rep(n): return [[j in (i, i + 1) for j in range(n)] for i in range(n - 1)]
def ring(n): return [[j in (i, (i + 1) % n) for j in range(n)] for i in range(n)]
HAM = [[bool((j + 1) >> b & 1) for j in range(7)] for b in range(3)]
def hgp(a, b):
    """hypergraph product: orthogonal X and Z checks with different row counts"""
    ra, na, rb, nb = len(a), len(a[0]), len(b), len(b[0]); n = na * nb + ra * rb
    def e(): return [False] * n
    X, Z = [], []
    for i in range(ra):
        for j in range(nb):
            r = e()
            for k in range(na): r[k * nb + j] ^= a[i][k]
            for k in range(rb): r[na * nb + i * rb + k] ^= b[k][j]
            X.append(r)
    for i in range(na):
        for j in range(rb):
            r = e()
            for k in range(nb): r[i * nb + k] ^= b[j][k]
            for k in range(ra): r[na * nb + k * rb + j] ^= a[k][i]
            Z.append(r)
    return X, Z
SHOR = ([[i < 6 for i in range(9)], [i >= 3 for i in range(9)]], [[j in (3 * b + i, 3 * b + i + 1) for j in range(9)] for b in range(3) for i in range(2)])
def randm(rng):
    """no zero rows, every qubit checked"""
    m, n = rng.randint(1, 7), rng.randint(1, 9); p = rng.choice([0.2, 0.4, 0.6])
    H = [[rng.random() < p for _ in range(n)] for _ in range(m)]
    for r in H:
        if not any(r): r[rng.randrange(n)] = True
    return H
def blocks(rng):
    a, b = randm(rng), randm(rng); return [r + [False] * len(b[0]) for r in a] + [[False] * len(a[0]) + r for r in b]
def onesided(R):
    yield from (rep(3), rep(7), ring(5), HAM, hgp(rep(3), rep(3))[1], hgp(ring(3), ring(3))[1], hgp(ring(4), ring(4))[0])
    rng = R.rng(7)
    for _ in range(R.pick(300, 3000)): yield randm(rng)
    for _ in range(R.pick(60, 500)): yield blocks(rng)
def degenerate(R):
    """checks that touch no qubit and qubits that no check touches"""
    yield from ([[False, False], [True, True]], [[True, False, False]], [[False]], [[False, False], [False, False]], [[True, True], [False, False], [False, True]])
    rng = R.rng(9)
    for _ in range(R.pick(60, 600)):
        H = randm(rng)
        for i in range(len(H)):
            if rng.random() < 0.4: H[i] = [False] * len(H[0])
        if rng.random() < 0.5:
            j = rng.randrange(len(H[0]))
            for r in H: r[j] = False
        yield H
def twosided(R):
    yield from (SHOR, (SHOR[1], SHOR[0]), (HAM, HAM), hgp(rep(3), rep(2)), hgp(rep(2), rep(3)), hgp(ring(3), rep(3)), hgp(ring(3), ring(3)))
    rng = R.rng(8)
    for _ in range(R.pick(60, 500)):
        a, b = randm(rng), randm(rng); a, b = [r[:4] for r in a[:3]], [r[:4] for r in b[:3]]
        for M in (a, b):
            for r in M:
                if not any(r): r[0] = True
        X, Z = hgp(a, b)
        if all(map(any, X)) and all(map(any, Z)): yield X, Z
def syn(H, e): return [sum(a and b for a, b in zip(r, e)) % 2 == 1 for r in H]
def dec(kind, X, Z):
    c = Q.Code(Z) if X is None else Q.Code(X, Z); d = getattr(Q, kind)(); d.setCode(c); return d
def judge(R, d, n, two, s, inp):
    est, idx = list(d.result.estimate), list(d.result.idxs)
    k = 2 * n if two else n
    if not R.ok(len(est) == k, f"estimate has {len(est)} entries for {k}", inp, key=R.cur + ": one entry per qubit"): return
    bits = [i % n for i, b in enumerate(est) if b]
    R.ok(sorted(bits) == sorted(idx), f"estimate bits {bits}, listed {idx}", inp, key=R.cur + ": listed indices")
    if not any(s): R.ok(not any(est) and not idx, f"zero syndrome, estimate {est}", inp, key=R.cur + ": zero syndrome")
def one(R, kind, syns, graphs=onesided):
    rng = R.rng(1)
    for H in graphs(R):
        m, n = len(H), len(H[0])
        for mode in MODES[kind]:
            if R.out_of_time(): return
            d = dec(kind, None, H); first = True
            for s in syns(rng, H, m, n):
                if not first: d.reset()
                first = False
                d.growth = mode; inp = (kind, str(mode), H, s)
                R.case(inp)
                ok, _ = R.call(lambda: d.decode(s), inp)
                if not ok: break
                judge(R, d, n, False, s, inp)
            # a decoder used for the first time gives a well-formed answer for the same input after a reset, too
def real(rng, H, m, n):
    yield [False] * m
    for w in (1, 1, 2, 3):
        e = [False] * n
        for i in rng.sample(range(n), min(w, n)): e[i] = True
        yield syn(H, e)
    yield [False] * m
def anysyn(rng, H, m, n):
    for _ in range(4): yield [rng.random() < 0.5 for _ in range(m)]
    yield [True] * m
for K in MODES:
    check(f"{K}: syndromes of errors")(lambda R, K=K: one(R, K, real))
    check(f"{K}: arbitrary syndromes")(lambda R, K=K: one(R, K, anysyn))
    check(f"{K}: empty checks and unchecked qubits, syndromes of errors")(lambda R, K=K: one(R, K, real, degenerate))
    check(f"{K}: empty checks and unchecked qubits, arbitrary syndromes")(lambda R, K=K: one(R, K, anysyn, degenerate))
    def two(R, K=K):
        rng = R.rng(3)
        for X, Z in twosided(R):
            n = len(X[0])
            for mode in MODES[K]:
                if R.out_of_time(): return
                d = dec(K, X, Z); first = True
                for w in (0, 1, 1, 2):
                    ex, ez = [False] * n, [False] * n
                    for i in rng.sample(range(n), min(n, w)): rng.choice([ex, ez])[i] = True
                    s = syn(Z, ex) + syn(X, ez); inp = (K, str(mode), X, Z, s)
                    if not first: d.reset()
                    first = False; d.growth = mode; R.case(inp)
                    ok, _ = R.call(lambda: d.decode(s), inp)
                    if not ok: break
                    judge(R, d, n, True, s, inp)
    check(f"{K}: two-sided syndromes")(two)
    def uns(R, K=K):
        for mode in UNSUP[K]:
            d = dec(K, None, rep(4)); d.growth = mode
            R.raises(lambda: d.decode([True, False, True]), Exception, (K, str(mode)), detail="growth mode that the decoder does not support")
    check(f"{K}: unsupported growth modes are rejected")(uns)
@check("partition into connected components")
def part(R):
    rng = R.rng(5)
    for H in onesided(R):
        m, n = len(H), len(H[0]); d = dec("UFDecoder", None, H)
        adj = {i: [n + r for r in range(m) if H[r][i]] for i in range(n)}; adj.update({n + r: [i for i in range(n) if H[r][i]] for r in range(m)})
        for _ in range(R.pick(6, 30)):
            if R.out_of_time(): return
            p = rng.choice([0.3, 0.7, 1.0]); s = {i for i in range(n + m) if rng.random() < p}
            seen, exp = set(), []
            for i in sorted(s):
                if i in seen: continue
                c, st = {i}, [i]
                while st:
                    for y in adj[st.pop()]:
                        if y in s and y not in c: c.add(y); st.append(y)
                seen |= c; exp.append(c)
            ok, r = R.call(lambda: d.comps(s), (H, sorted(s)))
            if ok: R.ok(sorted(map(sorted, r)) == sorted(map(sorted, exp)), f"components {r}, expected {exp}", (H, sorted(s)))
@check("neighbours in the Tanner graph")
def nb(R):
    for H in onesided(R):
        m, n = len(H), len(H[0]); c = Q.Code(H)
        for _ in range(2):
            for i in range(n + m):
                exp = [n + r for r in range(m) if H[r][i]] if i < n else [j for j in range(n) if H[i - n][j]]
                ok, r = R.call(lambda: c.nbrsZ(i), (H, i))
                if ok: R.ok(r == exp, f"{r}", (H, i))
rt.main("repetition, ring, Hamming, toric/planar product codes, random Tanner graphs up to 7x9 and their disjoint unions; two-sided product codes with different numbers of X and Z checks; all growth modes; repeated decoding with resets")
