import itertools, rt, cxxbuild
from rt import check
rt.FORK = True
Q = cxxbuild.core()
def bits(rng, n): return [bool(rng.randint(0, 1)) for _ in range(n)]
def mat(rng, r, c): return [bits(rng, c) for _ in range(r)]
def par(row, v): return sum(a and b for a, b in zip(row, v)) % 2 == 1
def small(R):
    for m, n in itertools.product(range(1, 3), range(1, 4)):
        for x in itertools.product([False, True], repeat=m * n): yield [list(x[i * n:(i + 1) * n]) for i in range(m)]
    rng = R.rng()
    for _ in range(R.pick(150, 2000)): yield mat(rng, rng.randint(1, 9), rng.randint(1, 12))
    for n in (63, 64, 65, 127, 128, 130): yield mat(rng, 3, n)
def lens(n): return sorted({0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n} - {-1})
@check("one-sided syndrome")
def a(R):
    rng = R.rng(1)
    for H in small(R):
        if R.out_of_time(): break
        n = len(H[0])
        for l in lens(n):
            e = bits(rng, l); c = Q.Code(H)
            if l == n:
                ok, s = R.call(lambda: c.getXSyndrome(e), (H, e))
                if ok: R.ok(s == [par(r, e) for r in H], f"syndrome {s}", (H, e))
            else: R.raises(lambda: c.getXSyndrome(e), Exception, (H, e), detail="error of the wrong length accepted")
@check("two-sided syndrome")
def b(R):
    rng = R.rng(2)
    for H in small(R):
        if R.out_of_time(): break
        n = len(H[0]); X = mat(rng, rng.randint(1, 4), n); c = Q.Code(X, H)
        for l in lens(n):
            e = bits(rng, l)
            if l == n:
                ok, s = R.call(lambda: c.getXSyndrome(e), (X, H, e))
                if ok: R.ok(s == [par(r, e) for r in H], f"syndrome {s}", (X, H, e))
            elif l == 2 * n:
                ok, s = R.call(lambda: c.getXSyndrome(e), (X, H, e))
                if ok: R.ok(s == [par(r, e[:n]) for r in H] + [par(r, e[n:]) for r in X], f"syndrome {s}", (X, H, e))
            else: R.raises(lambda: c.getXSyndrome(e), Exception, (X, H, e), detail="error of the wrong length accepted")
            f = bits(rng, rng.choice(lens(n)))
            if len(e) == len(f) == n:
                ok, s = R.call(lambda: c.getSyndrome(e, f), (X, H, e, f))
                if ok: R.ok(s == [par(r, e) for r in H] + [par(r, f) for r in X], f"syndrome {s}", (X, H, e, f))
            else: R.raises(lambda: c.getSyndrome(e, f), Exception, (X, H, e, f), detail="error of the wrong length accepted")
        e, f = bits(rng, n), bits(rng, n)
        ok, s = R.call(lambda: c.getSyndrome(e, f), (X, H, e, f))
        if ok: R.ok(s == [par(r, e) for r in H] + [par(r, f) for r in X], f"syndrome {s}", (X, H, e, f))
        ok, s = R.call(lambda: (c.getHz(), c.getHx(), c.n), (X, H))
        if ok: R.ok(s == (H, X, n), f"stored {s}", (X, H))
@check("one-sided code, two-sided error")
def c_(R):
    rng = R.rng(3)
    for H in itertools.islice(small(R), 40):
        n = len(H[0]); R.raises(lambda: Q.Code(H).getSyndrome(bits(rng, n), bits(rng, n)), Exception, H); R.raises(lambda: Q.Code(H).getXSyndrome(bits(rng, 2 * n)), Exception, H)
@check("empty matrices")
def e_(R):
    for H in ([], [[]], [[], []]):
        R.raises(lambda: Q.Code(H), Exception, H); R.raises(lambda: Q.Code([[True]], H), Exception, H); R.raises(lambda: Q.Code(H, [[True]]), Exception, H)
        R.raises(lambda: Q.rectMatrixMultiply(H, [True], [False]), Exception, H); R.raises(lambda: Q.getTranspose(H), Exception, H)
@check("matrix-vector product")
def d(R):
    rng = R.rng(4)
    for H in small(R):
        if R.out_of_time(): break
        m, n = len(H), len(H[0])
        for l in {0, n - 1, n, n + 1}:
            for q in {0, m - 1, m, m + 2}:
                v, r = bits(rng, l), bits(rng, q)
                if l == n and q >= m:
                    ok, s = R.call(lambda: Q.rectMatrixMultiply(H, v, r), (H, v, r))
                    if ok: R.ok(s == [x ^ par(H[i], v) if i < m else x for i, x in enumerate(r)], f"{s}", (H, v, r))
                else: R.raises(lambda: Q.rectMatrixMultiply(H, v, r), Exception, (H, v, r), detail="wrong size accepted")
@check("transpose, columns, residual, row swap")
def f(R):
    rng = R.rng(5)
    for H in small(R):
        if R.out_of_time(): break
        m, n = len(H), len(H[0])
        ok, t = R.call(lambda: Q.getTranspose(H), H)
        if ok: R.ok(t == [[H[i][j] for i in range(m)] for j in range(n)], f"{t}", H)
        ok, t = R.call(lambda: Q.toCsc(H), H)
        if ok: R.ok([sorted(x) for x in t] == [[i for i in range(m) if H[i][j]] for j in range(n)], f"{t}", H)
        i, j = rng.randrange(m), rng.randrange(m)
        ok, t = R.call(lambda: Q.swapRows(H, i, j), (H, i, j))
        if ok:
            w = [list(r) for r in H]; w[i], w[j] = w[j], w[i]; R.ok(t == w, f"{t}", (H, i, j))
        r = bits(rng, n)
        for l in {n, n + 1, n - 1}:
            e = bits(rng, l)
            if l >= n:
                ok, t = R.call(lambda: Q.computeResidualErr(e, r), (e, r))
                if ok: R.ok(t == [a != b for a, b in zip(r, e)], f"{t}", (e, r))
            else: R.raises(lambda: Q.computeResidualErr(e, r), Exception, (e, r), detail="error shorter than the residual accepted")
rt.main("all matrices up to 2x3, random matrices up to 9x12 and 3x130, vectors of all lengths around n and 2n")
