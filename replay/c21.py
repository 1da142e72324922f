import math, itertools
import numpy as np
import rt
from rt import check
import mqt.qecc.analog_information_decoding.utils.simulation_utils as U
REAL = np.random.default_rng
class Fake:
    """stand-in for numpy's generator: hands out chosen draws"""
    def __init__(self, draws): self.d, self.used, self.foreign, self.g, self.norm = list(draws), 0, False, REAL(7), []
    def __call__(self, *a): return self
    def random(self, size=None):
        if size is None:
            if self.used >= len(self.d): self.foreign = True; return 0.999
            v = self.d[self.used]; self.used += 1; return v
        k = int(np.prod(size))
        if self.used + k > len(self.d): self.foreign = True; return np.full(size, 0.999)
        v = np.array(self.d[self.used:self.used + k]).reshape(size); self.used += k; return v
    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size); return low + (high - low) * r
    def normal(self, loc=0.0, scale=1.0, size=None):
        self.norm.append((np.array(loc, dtype=float), np.array(scale, dtype=float), size))
        z = self.z(np.shape(loc) if size is None else size)
        return loc + scale * z
    def standard_normal(self, size=None): self.norm.append((np.zeros(1), np.ones(1), size)); return self.z(size)
    def z(self, size): 
        k = int(np.prod(size)) if size is not None else 1
        return np.resize(np.array([0.3, -1.2, 2.5, -0.1, 0.7]), k).reshape(size if size is not None else ())
    def __getattr__(self, n): self.__dict__["foreign"] = True; return getattr(self.g, n)
def with_draws(draws, fn):
    f = Fake(draws); np.random.default_rng = f
    try: return fn(), f
    finally: np.random.default_rng = REAL
@check("error channels")
def a(R):
    rng = R.rng()
    def one(p, b, n):
        ok, r = R.call(lambda: U.error_channel_setup(p, b, n), (p, b, n))
        if not ok: return
        x, y, z = (np.asarray(v, dtype=float) for v in r)
        bb = [float(v) for v in b]
        if math.inf in bb:
            k = bb.index(math.inf); want = [p if j == k else 0.0 for j in range(3)]
        else: want = [p * v / sum(bb) for v in bb]
        for got, w in zip((x, y, z), want):
            R.ok(got.shape == (n,) and np.allclose(got, w, atol=1e-12) and (got >= 0).all(), f"{[x.tolist(), y.tolist(), z.tolist()]} instead of {want}", (p, bb, n))
        R.ok(np.allclose(x + y + z, p), "sum", (p, bb, n))
    for k in range(3):
        for p in (0.0, 0.01, 0.3, 1.0):
            b = [rng.choice([0.0, 0.5, 1.0, 7.0]) for _ in range(3)]; b[k] = math.inf
            one(p, b, 4); one(p, np.array(b), 3)
    for _ in range(R.pick(200, 3000)):
        b = [rng.choice([0, 0.5, 1, 2, 10, rng.random()]) for _ in range(3)]
        if sum(b) == 0: continue
        one(rng.choice([0, 1, rng.random()]), rng.choice([b, np.array(b, dtype=float)]), rng.randint(0, 8))
@check("sampled errors")
def b(R):
    rng = R.rng()
    for t in range(R.pick(300, 4000)):
        if R.out_of_time(): break
        n = rng.randint(1, 8)
        ps = [np.array([rng.choice([0, .125, .25, .375, rng.random() / 3]) for _ in range(n)]) for _ in range(3)]
        px, py, pz = ps
        draws = []
        for i in range(n):
            e = [0.0, pz[i], pz[i] + px[i], px[i] + py[i] + pz[i]]
            draws.append(float(min(max(rng.choice([rng.random()] + e + [v - 1e-9 for v in e] + [v + 1e-9 for v in e]), 0), 1 - 1e-12)))
        rx, rz = np.array([rng.randint(0, 1) for _ in range(n)], dtype=np.int32), np.array([rng.randint(0, 1) for _ in range(n)], dtype=np.int32)
        inp = dict(n=n, px=px.tolist(), py=py.tolist(), pz=pz.tolist(), rx=rx.tolist(), rz=rz.tolist(), draws=draws)
        try: (ex, ez), f = with_draws(draws, lambda: U.generate_err(n, (px, py, pz), [rx.copy(), rz.copy()]))
        except Exception as ex_: R.bad(f"raised {ex_!r}", inp); continue
        if f.foreign: continue
        for i in range(n):
            r = draws[i]
            fz = r < pz[i] or (pz[i] + px[i] <= r < px[i] + py[i] + pz[i]); fx = pz[i] <= r < px[i] + py[i] + pz[i]
            R.ok(ex[i] == (rx[i] + fx) % 2 and ez[i] == (rz[i] + fz) % 2, f"qubit {i}: got ({ex[i]},{ez[i]})", inp)
@check("sampled error kinds have the stated frequencies")
def b2(R):
    """whatever the draws mean: on a fine grid of draws each kind of error gets its share"""
    K = 4000; grid = [(k + 0.5) / K for k in range(K)]
    for px, py, pz in [(.1, .2, .3), (.25, 0, .5), (0, .3, 0), (.05, .05, .05)]:
        A = [np.full(K, v) for v in (px, py, pz)]
        (ex, ez), f = with_draws(grid, lambda: U.generate_err(K, A, [np.zeros(K, int), np.zeros(K, int)]))
        if f.foreign: continue
        got = ((ex == 1) & (ez == 0)).mean(), ((ex == 1) & (ez == 1)).mean(), ((ex == 0) & (ez == 1)).mean()
        R.ok(np.allclose(got, (px, py, pz), atol=1e-3), f"kinds {got}", (px, py, pz))
@check("sampled syndrome errors")
def c(R):
    rng = R.rng()
    for t in range(R.pick(200, 2000)):
        shape = rng.choice([(rng.randint(1, 8),), (rng.randint(1, 4), rng.randint(1, 4))])
        p = np.array([rng.choice([0, 1, .5, rng.random()]) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
        draws = [min(rng.choice([0.0, v, max(v - 1e-9, 0), rng.random()]), 1 - 1e-12) for v in p.ravel()]
        r, f = with_draws(draws, lambda: U.generate_syndr_err(p))
        if f.foreign: continue
        want = (np.array(draws).reshape(shape) < p).astype(int)
        R.ok(r.shape == shape and np.array_equal(r, want), f"{r.tolist()} != {want.tolist()}", (p.tolist(), draws))
@check("sign maps")
def d(R):
    rng = R.rng()
    for t in range(R.pick(200, 2000)):
        n = rng.randint(1, 10); s = np.array([rng.randint(0, 1) for _ in range(n)])
        if t % 5 == 0: s = s.reshape(1, -1)
        g = U.get_signed_from_binary(s)
        R.ok(g.shape == s.shape and np.array_equal(g, 1 - 2 * s), "signed", s.tolist())
        R.ok(np.array_equal(U.get_binary_from_analog(g.astype(float)), s), "round trip", s.tolist())
        a = np.array([rng.choice([0.0, -0.0, 1e-300, -1e-300, rng.uniform(-3, 3), 1, -1]) for _ in range(n)])
        R.ok(np.array_equal(U.get_binary_from_analog(a), (a <= 0).astype(int)), "threshold", a.tolist())
        for sg in (0.0, 0.4, 2.0):
            r, f = with_draws([], lambda: U.get_noisy_analog_syndrome(s, sg))
            if f.foreign: continue
            R.ok(r.shape == s.shape, "shape", s.tolist())
            if sg == 0: R.ok(np.array_equal(r, 1 - 2 * s), "noiseless reading", s.tolist())
            else: R.ok(np.allclose(r, (1 - 2 * s) + sg * f.z(s.shape)), f"centred at the sign, width sigma: {r.tolist()}", (s.tolist(), sg))
@check("analog values")
def e(R):
    rng = R.rng()
    for t in range(R.pick(200, 2000)):
        n = rng.randint(2, 8); y = np.array([rng.choice([0.0, rng.uniform(-2, 2), 1, -1, rng.uniform(-.01, .01)]) for _ in range(n)]); sg = rng.choice([0.0, -1.0, 0.2, 0.5, 1.0, rng.uniform(.15, 3)])
        v = np.asarray(U.get_virtual_check_init_vals(y, sg)); l = np.asarray(U.get_analog_llr(y, sg))
        if sg <= 0:
            R.ok(v.shape == y.shape and (v == 0).all() and (l == 0).all(), "no noise", (y.tolist(), sg)); continue
        R.ok(np.allclose(l, 2 * y / sg ** 2), "llr", (y.tolist(), sg))
        w = 1 / (np.exp(np.abs(2 * y / sg ** 2)) + 1)
        R.ok(v.shape == y.shape and np.allclose(v, w, rtol=1e-9, atol=0) and (v >= 0).all() and (v <= .5).all(), f"{v.tolist()} != {w.tolist()}", (y.tolist(), sg))
        for i, j in itertools.combinations(range(n), 2):
            if abs(y[i]) < abs(y[j]) - 1e-6: R.ok(v[i] > v[j], "monotone", (y[i], y[j], sg))
    for y in ([1000.0, -1000.0, 0.0],):
        with np.errstate(over="ignore"): v = U.get_virtual_check_init_vals(np.array(y), 0.1)
        R.ok(np.allclose(v, [0, 0, .5]), "large readings", y)
@check("rate and width conversions")
def f(R):
    from scipy.special import erfc
    R.ok(U.get_sigma_from_syndr_er(0.0) == 0 and U.get_error_rate_from_sigma(0.0) == 0, "zero")
    rng = R.rng(); prev = 0
    es = sorted([1e-10, 1e-5, 1e-3, .01, .1, .3, .45, .499] + [rng.uniform(1e-6, .49) for _ in range(R.pick(100, 1000))])
    for x in es:
        s = U.get_sigma_from_syndr_er(x)
        R.ok(s > 0 and s >= prev and math.isclose(U.get_error_rate_from_sigma(s), x, rel_tol=1e-9), f"round trip of rate: {s}", x); prev = s
    for s in [.05, .1, .3, .5, 1, 2, 10] + [rng.uniform(.1, 5) for _ in range(R.pick(100, 1000))]:
        r = U.get_error_rate_from_sigma(s)
        R.ok(0 <= r < .5 and math.isclose(r, .5 * erfc(1 / (math.sqrt(2) * s)), rel_tol=1e-9) and (r < 1e-12 or math.isclose(U.get_sigma_from_syndr_er(r), s, rel_tol=1e-5)), f"round trip of width: {r}", s)
rt.main("random rates, biases (with infinite entries), sizes up to 8, draws at and around the interval borders, readings in [-3,3] and +-1000, widths 0..10")
