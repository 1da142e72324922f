import itertools, os, tempfile, shutil, json, pathlib, contextlib
import warnings; warnings.filterwarnings("ignore")
import numpy as np, scipy.io as sio, scipy.sparse as sp
import rt, gf
from rt import check
from mqt.qecc.analog_information_decoding.code_construction import code_constructor as D, sparse_code_constructor as S

def den(x): return np.asarray(x.todense() if sp.issparse(x) else x).astype(int)
def chain(rng, dims):
    """random binary matrices a_i: dims[i] x dims[i+1] with vanishing consecutive products"""
    ms = [gf.randmat(rng, dims[0], dims[1]).astype(int)]
    for n in dims[2:]:
        K = gf.kernel(ms[-1])
        ms.append((gf.randmat(rng, n, len(K)).astype(int) @ K % 2).T if len(K) else np.zeros((ms[-1].shape[1], n), int))
    return ms
def spec3(a1, a2, p):
    r, c = p.shape; I = lambda n: np.eye(n, dtype=int)
    n0, n1 = a1.shape; n2 = a2.shape[1]
    d1 = np.hstack([np.kron(a1, I(r)), np.kron(I(n0), p)])
    d2 = np.block([[np.kron(a2, I(r)), np.kron(I(n1), p)], [np.zeros((n0 * c, n2 * r), int), np.kron(a1, I(c))]])
    return d1, d2, np.vstack([np.kron(I(n2), p), np.kron(a2, I(c))])
def spec4(a1, a2, a3, p):
    r, c = p.shape; I = lambda n: np.eye(n, dtype=int)
    n0, n1 = a1.shape; n2, n3 = a3.shape
    d1 = np.hstack([np.kron(a1, I(r)), np.kron(I(n0), p)])
    d2 = np.block([[np.kron(a2, I(r)), np.kron(I(n1), p)], [np.zeros((n0 * c, n2 * r), int), np.kron(a1, I(c))]])
    d3 = np.block([[np.kron(a3, I(r)), np.kron(I(n2), p)], [np.zeros((n1 * c, n3 * r), int), np.kron(a2, I(c))]])
    return d1, d2, d3, np.vstack([np.kron(I(n3), p), np.kron(a3, I(c))])
def cmp(R, inp, got, want, tag):
    if not R.ok(len(got) == len(want), f"{tag}: number of maps", inp): return
    for k, (g, w) in enumerate(zip(got, want)):
        g = den(g); R.ok(g.shape == w.shape and np.array_equal(g % 2, w % 2), f"{tag}: boundary map {k + 1}", inp)
    for k in range(len(got) - 1):
        a, b = den(got[k]), den(got[k + 1])
        R.ok(a.shape[1] == b.shape[0] and not (a @ b % 2).any(), f"{tag}: maps {k + 1} and {k + 2} compose to zero", inp)
@check("product maps")
def f(R):
    rng = R.rng()
    for t in range(R.pick(150, 1500)):
        if R.out_of_time(): break
        dims = [rng.randint(1, 4) for _ in range(4)]
        a1, a2, a3 = chain(rng, dims); p = gf.randmat(rng, rng.randint(1, 4), rng.randint(1, 4)).astype(int)
        ty = rng.choice([int, np.int32, np.int8])
        inp = [m.tolist() for m in (a1, a2, a3, p)]; R.case(inp)
        A = [m.astype(ty) for m in (a1, a2, a3, p)]; Q = [sp.csr_matrix(m) for m in A]
        ok, r = R.call(lambda: D.generate_3d_product_code(A[0], A[1], A[3]), inp)
        if ok: cmp(R, inp, r, spec3(a1, a2, p), "dense 3D")
        ok, r = R.call(lambda: S.generate_3d_product_code(Q[0], Q[1], Q[3]), inp)
        if ok: cmp(R, inp, r, spec3(a1, a2, p), "sparse 3D")
        for ch in (True, False):
            ok, r = R.call(lambda: D.generate_4d_product_code(*A, checks=ch), inp)
            if ok: cmp(R, inp, r, spec4(a1, a2, a3, p), "dense 4D")
            ok, r = R.call(lambda: S.generate_4d_product_code(*Q, checks=ch), inp)
            if ok: cmp(R, inp, r, spec4(a1, a2, a3, p), "sparse 4D")
        R.ok(all(np.array_equal(x, y) for x, y in zip(A, (a1, a2, a3, p))) and all(np.array_equal(den(x), y) for x, y in zip(Q, (a1, a2, a3, p))), "arguments unchanged", inp)
@check("non-composing chains are rejected")
def g(R):
    rng = R.rng()
    for t in range(R.pick(150, 1000)):
        n = [rng.randint(1, 3) for _ in range(5)]
        ms = chain(rng, n); k = rng.randrange(4); ms[k] = ms[k].copy()
        if ms[k].size: ms[k][rng.randrange(ms[k].shape[0]), rng.randrange(ms[k].shape[1])] ^= 1
        bad = any((ms[i] @ ms[i + 1] % 2).any() for i in range(3)); inp = [m.tolist() for m in ms]; R.case(inp)
        for mod, xs in ((D, ms), (S, [sp.csr_matrix(m) for m in ms])):
            try: mod.run_checks_scipy(*xs); e = False
            except RuntimeError: e = True
            except Exception as x: R.bad(f"{type(x).__name__}: {x}", inp); continue
            R.ok(e == bad, f"{mod.__name__}: rejected={e}, composition vanishes={not bad}", inp)
        p = gf.randmat(rng, 2, 2).astype(int)
        b3 = (ms[0] @ ms[1] % 2).any()
        for mod, xs in ((D, [ms[0], ms[1], p]), (S, [sp.csr_matrix(m) for m in (ms[0], ms[1], p)])):
            try: mod.generate_3d_product_code(*xs); e = False
            except RuntimeError: e = True
            except Exception as x: R.bad(f"{type(x).__name__}: {x}", inp); continue
            R.ok(e == b3, f"{mod.__name__}: 3D rejected={e}, a1 a2 vanishes={not b3}", inp)

@contextlib.contextmanager
def scratch():
    """cwd and every absolute path used by the sparse module redirected into a scratch directory"""
    d = tempfile.mkdtemp(prefix="c25_"); old = os.getcwd(); os.chdir(d)
    red = lambda p: d + "/root" + str(p) if str(p).startswith("/") and not str(p).startswith(d) else str(p)
    class NP:
        def __getattr__(self, k): return getattr(np, k)
        def savetxt(self, f, *a, **k): return np.savetxt(red(f), *a, **k)
    class SIO:
        def __getattr__(self, k): return getattr(sio, k)
        def mmwrite(self, f, *a, **k): return sio.mmwrite(red(f), *a, **k)
    class SUB:
        def run(self, *a, **k): raise RuntimeError("no subprocess here")
    saved = {(m, n): getattr(m, n) for m in (D, S) for n in ("np", "sio", "Path", "subprocess") if hasattr(m, n)}
    for (m, n) in saved: setattr(m, n, {"np": NP(), "sio": SIO(), "Path": lambda p, *a: pathlib.Path(red(pathlib.Path(p, *a))), "subprocess": SUB()}[n])
    try: yield d
    finally:
        for (m, n), v in saved.items(): setattr(m, n, v)
        os.chdir(old); shutil.rmtree(d, ignore_errors=True)
def load(d, nm):
    a = np.loadtxt(f"{d}/{nm}.txt", ndmin=2).astype(int); b = den(sio.mmread(f"{d}/{nm}.mtx"))
    return a.reshape(b.shape), b
def rep(k): return np.array([[int(j in (i, i + 1)) for j in range(k)] for i in range(k - 1)])
def ring(k): return np.array([[int(j in (i, (i + 1) % k)) for j in range(k)] for i in range(k)])
def one(R, seeds, lg, spr):
    inp = [("sparse" if spr else "dense"), lg, [s.tolist() for s in seeds]]; R.case(inp)
    with scratch() as d:
        try: S.create_code("hgp", seeds[:3], "x", compute_logicals=lg) if spr else D.create_code("hgp", seeds, "x", compute_logicals=lg, checks=True)
        except Exception as e: R.bad(f"create_code raised {type(e).__name__}: {e}", inp); return
        dirs = [p for p, _, fs in os.walk(d) if "hx.txt" in fs]
        if not R.ok(len(dirs) == 1, "the check matrices are stored", inp): return
        p = dirs[0]; names = ["hx", "hz", "mz"] + ([] if spr else ["mx"]) + (["lx", "lz"] if lg else [])
        M = {}
        for nm in names:
            try: a, b = load(p, nm)
            except Exception as e: R.bad(f"{nm} not stored: {type(e).__name__}", inp); return
            R.ok(np.array_equal(a, b), f"{nm}: text and matrix-market files agree", inp); M[nm] = b
        R.ok(lg == os.path.exists(p + "/lx.txt") == os.path.exists(p + "/lz.mtx"), "logical operators stored exactly when requested", inp)
        from bposd.hgp import hgp
        h = hgp(seeds[0], seeds[1]); w3 = spec3(h.hx.astype(int), h.hz.T.astype(int), seeds[2])
        R.ok(not (h.hx @ h.hz.T % 2).any(), "assumed contract of bposd.hgp", inp)
        if spr: want = {"hx": w3[0], "hz": w3[1].T, "mz": w3[2].T}
        else:
            w4 = spec4(*[x % 2 for x in w3], seeds[3]); want = {"mx": w4[0], "hx": w4[1], "hz": w4[2].T, "mz": w4[3].T}
        for nm, w in want.items(): R.ok(np.array_equal(M[nm] % 2, w % 2), f"{nm} is the prescribed product map", inp)
        n = M["hx"].shape[1]
        R.ok(M["hz"].shape[1] == n and not (M["hx"] @ M["hz"].T % 2).any(), "X and Z checks orthogonal", inp)
        R.ok(not (M["mz"] @ M["hz"] % 2).any(), "Z meta checks annihilate the Z checks", inp)
        if not spr: R.ok(not (M["mx"] @ M["hx"] % 2).any(), "X meta checks annihilate the X checks", inp)
        k = n - gf.rank(M["hx"]) - gf.rank(M["hz"])
        if lg:
            for L, H, G in (("lx", "hz", "hx"), ("lz", "hx", "hz")):
                l = M[L]
                R.ok(len(l) == k or (k == 0 and l.size == 0), f"{L}: {len(l)} logical operators, k = {k}", inp)
                if k: R.ok(not (M[H] @ l.T % 2).any() and gf.rank(np.vstack([M[G], l])) == gf.rank(M[G]) + k, f"{L}: genuine independent logical operators", inp)
        if spr:
            try: c = json.load(open(p + "/code_params.txt"))
            except Exception as e: R.bad(f"code parameters: {type(e).__name__}", inp); return
            R.ok(c == {"n": n, "k": k}, f"stored parameters {c}, expected n={n} k={k}", inp)
@check("stored codes")
def h(R):
    rng = R.rng()
    fam = [rep(2), rep(3), ring(2) * 0 + np.eye(2, dtype=int), ring(3), np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1], [1, 1, 1]])]
    for spr in (True, False):
        for lg in (True, False):
            for s in (fam[1], fam[3]): one(R, [s] * 3 + [rep(2)], lg, spr)
            for _ in range(R.pick(6, 40)):
                if R.out_of_time(): break
                one(R, [fam[rng.choice([0, 1, 3])] if rng.random() < 0.5 else gf.randmat(rng, rng.randint(1, 2), rng.randint(1, 3)).astype(int) for _ in range(3)] + [rng.choice([rep(2), rep(3), gf.randmat(rng, 1, 2).astype(int)])], lg, spr)
    for mod in (D, S):
        with scratch(): R.raises(lambda: mod.create_code("lp", [], "x"), ValueError, mod.__name__)
rt.main("random composable chains with all dimensions up to 4, three integer types, both 4D check settings, chains with one flipped entry, and stored codes from repetition, ring and small random seeds")
