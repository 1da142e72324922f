import itertools, rt, cxxbuild
from rt import check
rt.FORK = True
Q = cxxbuild.core()
def rows(A): return [sum(1 << j for j, b in enumerate(r) if b) for r in A]
def rank(A):
    piv = {}
    for r in rows(A):
        while r:
            h = r.bit_length()
            if h not in piv: piv[h] = r; break
            r ^= piv[h]
    return len(piv)
def csc(A, n): return [[i for i, r in enumerate(A) if r[j]] for j in range(n)]
def rmat(rng):
    m, n = rng.randint(1, 9), rng.randint(1, 9); k = rng.random()
    if k < 0.15: m, n = rng.choice([(1, 12), (12, 1), (3, 14), (14, 3)])
    if k < 0.5: p = rng.choice([0.15, 0.3, 0.5, 0.8]); A = [[rng.random() < p for _ in range(n)] for _ in range(m)]
    else:                                              # low rank
        r = rng.randint(1, max(1, min(m, n) - 1)); B = [[rng.randint(0, 1) for _ in range(n)] for _ in range(r)]
        A = [[sum(c * b[j] for c, b in zip(cs, B)) % 2 == 1 for j in range(n)] for cs in ([rng.randint(0, 1) for _ in range(r)] for _ in range(m))]
    return A
def mats(R, salt=0):
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        for x in itertools.product([False, True], repeat=m * n): yield [list(x[i * n:(i + 1) * n]) for i in range(m)]
    rng = R.rng(salt)
    for _ in range(R.pick(1500, 20000)): yield rmat(rng)
    for m, n in ((20, 30), (30, 20), (25, 25), (64, 65), (65, 64)):
        for p in (0.1, 0.5): yield [[rng.random() < p for _ in range(n)] for _ in range(m)]
def shuffled(rng, cols): return [rng.sample(c, len(c)) for c in cols]
@check("rank")
def a(R):
    rng = R.rng(1)
    for A in mats(R):
        if R.out_of_time(): return
        m, n = len(A), len(A[0]); exp = rank(A)
        for C in (csc(A, n), shuffled(rng, csc(A, n))):
            ok, r = R.call(lambda: Q.rank(m, n, C), (m, n, C))
            if ok: R.ok(r == exp, f"rank {r}, true rank {exp}", (m, n, C))
@check("solution of consistent systems")
def b(R):
    rng = R.rng(2)
    for A in mats(R, 3):
        if R.out_of_time(): return
        m, n = len(A), len(A[0]); C = csc(A, n)
        for k in range(3):
            x0 = [rng.randint(0, 1) for _ in range(n)] if k else [1] * n
            y = [sum(a and x for a, x in zip(r, x0)) % 2 for r in A]
            ok, x = R.call(lambda: Q.luSolve(m, n, C, y), (m, n, C, y))
            if not ok: continue
            R.ok(len(x) == n and set(x) <= {0, 1} and [sum(a and v for a, v in zip(r, x)) % 2 for r in A] == y, f"solution {x}", (m, n, C, y))
        for l in {0, m - 1, m + 1}: R.raises(lambda: Q.luSolve(m, n, C, [0] * l), Exception, (m, n, C, l), detail="right-hand side of the wrong length accepted")
def vectors(rng, A, n):
    yield [False] * n
    for k in range(2):
        s = [False] * n
        for r in A:
            if rng.random() < 0.5: s = [x != y for x, y in zip(s, r)]
        yield s
        t = list(s); t[rng.randrange(n)] ^= True; yield t
    yield [rng.random() < 0.5 for _ in range(n)]
def member(A, v): return rank(A) == rank(A + [v])
@check("row space membership")
def c(R):
    rng = R.rng(4)
    for A in mats(R, 5):
        if R.out_of_time(): return
        m, n = len(A), len(A[0]); cd = Q.Code(A, A)
        for v in vectors(rng, A, n):
            e = member(A, v)
            ok, r = R.call(lambda: Q.isVectorInRowspace(A, v), (A, v))
            if ok: R.ok(r == e, f"reported {r}, truth {e}", (A, v))
            ok, r = R.call(lambda: cd.isXStabilizer(v), (A, v))
            if ok: R.ok(r == e, f"isXStabilizer {r}, truth {e}", (A, v))
@check("wrong lengths and empty matrices")
def d(R):
    rng = R.rng(6)
    for A in itertools.islice(mats(R, 7), 250, 700):
        n = len(A[0]); cd = Q.Code(A, A)
        for l in {n - 1, n + 1, 2 * n} - {n}:
            for v in ([False] * l, [True] * l, [rng.random() < 0.5 for _ in range(l)]):
                R.raises(lambda: Q.isVectorInRowspace(A, v), Exception, (A, v), detail="vector of the wrong length accepted")
                R.raises(lambda: cd.isXStabilizer(v), Exception, (A, v), detail="vector of the wrong length accepted")
                R.raises(lambda: cd.isStabilizer2(v, [False] * n), Exception, (A, v), detail="vector of the wrong length accepted")
                R.raises(lambda: cd.isStabilizer2([False] * n, v), Exception, (A, v), detail="vector of the wrong length accepted")
                R.raises(lambda: cd.isStabilizer2([True] + [False] * (n - 1), v), Exception, (A, v), detail="vector of the wrong length accepted")
                if l != 2 * n: R.raises(lambda: cd.isStabilizer(v), Exception, (A, v), detail="vector of the wrong length accepted")
        R.raises(lambda: Q.isVectorInRowspace(A, []), Exception, A)
    for A in ([], [[]], [[], []]):
        for v in ([], [False], [True]): R.raises(lambda: Q.isVectorInRowspace(A, v), Exception, (A, v))
@check("two-sided stabilizers")
def e(R):
    rng = R.rng(8)
    for k in range(R.pick(500, 6000)):
        if R.out_of_time(): return
        X = rmat(rng); n = len(X[0]); Z = rmat(rng); Z = [(r + [False] * n)[:n] for r in Z]; cd = Q.Code(X, Z)
        for vx in vectors(rng, X, n):
            for vz in ([False] * n, *itertools.islice(vectors(rng, Z, n), 1, 4)):
                exp = member(X, vx) and member(Z, vz)
                ok, r = R.call(lambda: (cd.isStabilizer2(vx, vz), cd.isStabilizer(vx + vz)), (X, Z, vx, vz))
                if ok: R.ok(r == (exp, exp), f"reported {r}, truth {exp}", (X, Z, vx, vz))
        for v in vectors(rng, X, n):
            ok, r = R.call(lambda: cd.isStabilizer(v), (X, Z, v))
            if ok: R.ok(r == member(X, v), f"one part: reported {r}", (X, Z, v))
@check("code without X checks")
def f(R):
    for A in itertools.islice(mats(R, 9), 300, 340):
        n = len(A[0]); cd = Q.Code(A); v = [True] * n
        R.raises(lambda: cd.isXStabilizer(v), Exception, (A, v)); R.raises(lambda: cd.isStabilizer2(v, v), Exception, (A, v)); R.raises(lambda: cd.isStabilizer(v), Exception, (A, v)); R.raises(lambda: cd.isStabilizer(v + v), Exception, (A, v))
rt.main("all matrices up to 3x3, random and low-rank matrices up to 9x9 and 14x14, up to 65x65; vectors in and next to the row space, all wrong lengths")
