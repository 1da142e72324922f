from contracts.lib import *
from vc.models import SQRT, EXP, ERFC, ERFCINV
U = "analog_information_decoding.utils.simulation_utils"
NOTES = dict(
    assumptions=["floating point treated as real arithmetic", "numpy random generators return every value of their range (draws are universally quantified)",
                 "EXP/SQRT/ERFC/ERFCINV are uninterpreted with the textbook facts: EXP(0)=1, EXP increasing; SQRT(t)>=0, SQRT(t)^2=t; ERFC and ERFCINV inverse to each other, ERFC into (0,1) on positive arguments",
                 "preconditions: rate in [0,1], nonnegative bias with positive sum (or an infinite entry), binary residual errors and syndromes"],
    outside=["numpy/scipy special functions (assumed contracts, sampled by the replay)"])

# ------------------------------------------------------------------ channels
def chan(name, setup):
    @contract("C21", U + ":error_channel_setup", name)
    def f(c):
        p = Real("p"); n = Nat("n"); E.assume(z3.And(p.t >= 0, p.t <= 1))
        bias, want = setup(c, p.t)
        b = [V(x) if z3.is_expr(x) else x for x in bias]
        def post(r):
            x, y, z = r
            i = fresh("i"); E.assume(z3.And(i >= 0, i < n.t))
            for nm, a in zip("XYZ", (x, y, z)):
                c.ob(f"{nm} channel has one entry per qubit", z3.And(*[lift(d) == n.t for d in a._shape]) if a.ndim == 1 else False)
            px, py, pz = (A.cast(a.at(i), "f") for a in (x, y, z))
            want(px, py, pz)
        c.run(lambda: c.fn()(p, b, n), post)
def finite(c, p):
    bx, by, bz = (Real(f"b{k}").t for k in "xyz")
    for b in (bx, by, bz): E.assume(z3.And(b >= 0, b < INF))
    E.assume(bx + by + bz > 0)
    def want(px, py, pz):
        s = bx + by + bz
        c.ob("channels in proportion to the bias", z3.And(px * s == p * bx, py * s == p * by, pz * s == p * bz))
        lemma(c, "cross-multiplied", z3.And(px * s == p * bx, py * s == p * by, pz * s == p * bz))
        for nm, q, b in zip("XYZ", (px, py, pz), (bx, by, bz)):
            lemma(c, "product of nonnegatives", p * b >= 0)
            c.ob(f"{nm} channel nonnegative", z3.Implies(q * s == p * b, z3.Implies(p * b >= 0, q >= 0)))
        t = fresh("tot", R)
        c.ob("channels sum to the physical rate", z3.Implies(z3.And(t == px + py + pz, t * s == p * s), px + py + pz == p))
        c.ob("channel sum times bias sum", (px + py + pz) * s == p * s)
    return (bx, by, bz), want
chan("channel_finite_bias", finite)
def inf_at(k):
    def setup(c, p):
        bs = [INF if j == k else Real(f"b{j}").t for j in range(3)]
        for j in range(3):
            if j != k: E.assume(z3.And(bs[j] >= 0, bs[j] < INF))
        def want(*q):
            c.ob("the infinitely biased channel carries the whole rate", z3.And(*[x == (p if j == k else 0) for j, x in enumerate(q)]))
        return bs, want
    return setup
for k in range(3): chan(f"channel_infinite_{'xyz'[k]}", inf_at(k))

# ------------------------------------------------------------------ sampling
def draw(c, *ts):
    """the random number (one per position) a result depends on"""
    out = {}
    def go(x):
        if z3.is_app(x):
            if x.sort() == R and x.decl().name().startswith("sk_rand"): out[x.sexpr()] = x
            for y in x.children(): go(y)
    for t in ts: go(t)
    c.ob("exactly one random draw per position", len(out) == 1)
    return next(iter(out.values())) if out else fresh("nodraw", R)
@contract("C21", U + ":generate_err")
def gen_err(c):
    n = Nat("n")
    rx, rz = binvec("rx", n), binvec("rz", n)
    px, py, pz = (sym_array("p" + k, (n,), kind="f") for k in "xyz")
    ox, oz = rx.snapshot(), rz.snapshot()
    def post(r):
        x, z = r
        i = fresh("q"); E.assume(z3.And(i >= 0, i < n.t))
        E.assume(z3.And(*[t.at(i) >= 0 for t in (px, py, pz)]))
        dx, dz = x.at(i) != ox.at(i), z.at(i) != oz.at(i)
        d = draw(c, x.at(i), z.at(i))
        a, b, e = px.at(i), py.at(i), pz.at(i)
        c.ob("X part stays binary", z3.And(x.at(i) >= 0, x.at(i) <= 1)); c.ob("Z part stays binary", z3.And(z.at(i) >= 0, z.at(i) <= 1))
        c.ob("X part keeps its length", lift(x._shape[0]) == n.t); c.ob("Z part keeps its length", lift(z._shape[0]) == n.t)
        c.ob("Z part toggles exactly on draws in the Z or Y interval", dz == z3.Or(d < e, z3.And(d >= e + a, d < e + a + b)))
        c.ob("X part toggles exactly on draws in the X or Y interval", dx == z3.And(d >= e, d < e + a + b))
    c.run(lambda: c.fn()(n, (px, py, pz), [rx, rz]), post, modifies=[rx, rz])

@contract("C21", U + ":generate_syndr_err")
def gen_syn(c):
    n = Nat("n"); p = sym_array("p", (n,), kind="f")
    c.run(lambda: c.fn()(p), lambda r: arr_is(c, "error vector flags exactly the draws below the probability", r, (n,), lambda i: b01(draw(c, r.at(i)) < p.at(i))))

# ------------------------------------------------------------------ sign maps
@contract("C21", U + ":get_signed_from_binary")
def signed(c):
    n = Nat("n"); s = binvec("s", n)
    c.run(lambda: c.fn()(s), lambda r: arr_is(c, "sign vector", r, (n,), lambda i: z3.If(s.at(i) == 0, z3.IntVal(1), z3.IntVal(-1))))
@contract("C21", U + ":get_binary_from_analog")
def binary(c):
    n = Nat("n"); s = sym_array("a", (n,), kind="f")
    c.run(lambda: c.fn()(s), lambda r: arr_is(c, "one exactly for readings <= 0", r, (n,), lambda i: b01(s.at(i) <= 0)))
@contract("C21", U + ":get_binary_from_analog", "roundtrip")
def roundtrip(c):
    n = Nat("n"); s = binvec("s", n)
    c.run(lambda: c.fn()(c.fn(U + ":get_signed_from_binary")(s)), lambda r: arr_is(c, "binary -> signed -> binary is the identity", r, (n,), lambda i: s.at(i)))
@contract("C21", U + ":get_noisy_analog_syndrome")
def noisy(c):
    n = Nat("n"); s = binvec("s", n); sg = Real("sigma"); E.assume(sg.t >= 0)
    def post(r):
        c.ob("one reading per bit", z3.And(r.ndim == 1, lift(r._shape[0]) == n.t))
        i = fresh("i"); E.assume(z3.And(i >= 0, i < n.t))
        c.ob("without noise the reading is the sign of the bit", z3.Implies(sg.t == 0, r.at(i) == z3.If(s.at(i) == 0, z3.RealVal(1), z3.RealVal(-1))))
        loc = [a for a in np._normal_log]
        c.ob("one Gaussian sample is drawn for the whole syndrome", len(loc) == 1)
        if loc:
            l, sc, out = loc[-1]
            c.ob("Gaussian centred at the sign of each bit", A.cast(l.at(i), "f") == z3.If(s.at(i) == 0, z3.RealVal(1), z3.RealVal(-1)))
            c.ob("Gaussian of width sigma", sc == sg.t)
            c.ob("the reading is the sample", z3.Implies(sg.t != 0, r.at(i) == out.at(i)))
    c.run(lambda: (np._normal_log.clear(), c.fn()(s, sg))[1], post)

# ------------------------------------------------------------------ analog values
@contract("C21", U + ":get_analog_llr")
def llr(c):
    n = Nat("n"); s = sym_array("a", (n,), kind="f"); sg = Real("sigma")
    def post(r):
        c.ob("one value per reading", z3.And(r.ndim == 1, lift(r._shape[0]) == n.t))
        i = fresh("i"); E.assume(z3.And(i >= 0, i < n.t))
        c.ob("value is 2y/sigma^2, zero without noise", z3.If(sg.t <= 0, A.cast(r.at(i), "f") == 0, A.cast(r.at(i), "f") == (2 * s.at(i)) / (sg.t * sg.t)))
    c.run(lambda: c.fn()(s, sg), post)
def exp_facts(*ts):
    ts = [z3.RealVal(0)] + [z3.simplify(t) for t in ts]
    E.assume(EXP(z3.RealVal(0)) == 1)
    for a in ts:
        E.assume(EXP(a) > 0)
        for b in ts: E.assume(z3.Implies(a < b, EXP(a) < EXP(b)))
        for b in ts: E.assume(z3.Implies(a == b, EXP(a) == EXP(b)))
@contract("C21", U + ":get_virtual_check_init_vals")
def init_vals(c):
    n = Nat("n"); s = sym_array("y", (n,), kind="f"); sg = Real("sigma")
    def post(r):
        c.ob("one value per reading", z3.And(r.ndim == 1, lift(r._shape[0]) == n.t))
        i, j = fresh("i"), fresh("j"); E.assume(z3.And(i >= 0, i < n.t, j >= 0, j < n.t))
        vi, vj = A.cast(r.at(i), "f"), A.cast(r.at(j), "f")
        ai, aj = s.at(i), s.at(j)
        ab = lambda t: z3.If(t >= 0, t, -t)
        L = lambda t: ab((2 * t) / (sg.t * sg.t))
        xi, xj = fresh("Li", R), fresh("Lj", R)
        E.assume(z3.And(xi == L(ai), xj == L(aj)))
        pos = sg.t > 0
        c.ob("without noise every value is zero", z3.Implies(z3.Not(pos), vi == 0))
        lemma(c, "square positive", z3.Implies(pos, sg.t * sg.t > 0))
        # monotone in |y|: |2y/s^2| >= 0 and grows with |y|
        k = fresh("k", R); E.assume(k == 2 / (sg.t * sg.t))
        lemma(c, "scale positive", z3.Implies(pos, k > 0))
        for x, a in ((xi, ai), (xj, aj)): lemma(c, "magnitude is scale times |y|", z3.Implies(pos, x == k * ab(a)))
        lemma(c, "magnitude grows with |y|", z3.Implies(z3.And(pos, ab(ai) < ab(aj)), xi < xj))
        lemma(c, "magnitude nonnegative", z3.And(xi >= 0, xj >= 0))
        exp_facts(xi, xj)                  # EXP increasing, EXP(0) = 1
        c.ob("value is 1/(e^|2y/sigma^2| + 1)", z3.Implies(pos, vi == 1 / (EXP(L(ai)) + 1)))
        lemma(c, "cross-multiplied", z3.Implies(pos, z3.And(vi * (EXP(xi) + 1) == 1, vj * (EXP(xj) + 1) == 1)))
        c.ob("value in (0, 1/2]", z3.Implies(pos, z3.And(vi > 0, vi * 2 <= 1)))
        c.ob("values grow as the reading approaches zero", z3.Implies(z3.And(pos, ab(ai) < ab(aj)), vi > vj))
    c.run(lambda: c.fn()(s, sg), post)

# ------------------------------------------------------------------ conversions
@contract("C21", U + ":get_sigma_from_syndr_er")
def sigma_of(c):
    e = Real("e"); E.assume(z3.And(e.t >= 0, e.t * 2 < 1))
    w = ERFCINV(2 * e.t)
    E.assume(z3.Implies(e.t > 0, z3.And(w > 0, ERFC(w) == 2 * e.t)))
    q = SQRT(z3.RealVal(2)); E.assume(z3.And(q > 0, q * q == 2))
    f, g = c.fn(), c.fn(U + ":get_error_rate_from_sigma")
    def post(r):
        s, back = r
        s, back = to_real(lift(s)), to_real(lift(back))
        c.ob("zero rate gives zero width", z3.Implies(e.t == 0, s == 0))
        c.ob("width is 1/(sqrt 2 erfcinv(2 rate))", z3.Implies(e.t > 0, s * (q * w) == 1))
        lemma(c, "q w positive", z3.Implies(e.t > 0, q * w > 0))
        lemma(c, "cross-multiplied", z3.Implies(e.t > 0, s * (q * w) == 1))
        lemma(c, "width positive", z3.Implies(e.t > 0, s > 0))
        # 2 s^2 = 1/w^2, so sqrt(2 s^2) = 1/w
        t = 2 * s * s
        args = E_args(back, SQRT)
        for a in args:
            E.assume(z3.Implies(a >= 0, z3.And(SQRT(a) >= 0, SQRT(a) * SQRT(a) == a)))
            ok = c.ob("argument of the root is 2 sigma^2", z3.Implies(e.t > 0, a == t))
            x, y = fresh("sa", R), fresh("sw", R)
            E.assume(z3.And(x == SQRT(a), y == s * q))
            E.assume(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
            lemma(c, "(s q)^2 = 2 s^2", y * y == t)
            lemma(c, "root of 2 s^2 is q s", z3.Implies(z3.And(e.t > 0, x * x == t, y * y == t, x >= 0, y >= 0), x == y))
            lemma(c, "s q nonnegative", z3.Implies(e.t > 0, y >= 0))
            lemma(c, "root times w is 1", z3.Implies(e.t > 0, x * w == 1))
            lemma(c, "inverse root is w", z3.Implies(e.t > 0, 1 / x == w))
        c.ob("converting the width back gives the rate", back == e.t)
    def thunk():
        s = f(e); return s, g(s)
    c.run(thunk, post)
def E_args(t, fn):
    out, seen = [], set()
    def go(x):
        if x.get_id() in seen: return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(fn) and not z3.is_rational_value(x.arg(0)): out.append(x.arg(0))
            for y in x.children(): go(y)
    go(t); return out
@contract("C21", U + ":get_error_rate_from_sigma")
def rate_of(c):
    s = Real("sigma"); E.assume(s.t >= 0)
    f, g = c.fn(), c.fn(U + ":get_sigma_from_syndr_er")
    q = SQRT(z3.RealVal(2)); E.assume(z3.And(q > 0, q * q == 2))
    w = fresh("w", R)      # 1/(sqrt 2 sigma)
    E.assume(z3.Implies(s.t > 0, z3.And(w > 0, w * q * s.t == 1)))
    E.assume(z3.Implies(s.t > 0, z3.And(ERFC(w) > 0, ERFC(w) < 1, ERFCINV(ERFC(w)) == w)))
    def post(r):
        e, back = r
        e, back = to_real(lift(e)), to_real(lift(back))
        for a in E_args(e, SQRT):
            E.assume(z3.Implies(a >= 0, z3.And(SQRT(a) >= 0, SQRT(a) * SQRT(a) == a)))
            c.ob("argument of the root is 2 sigma^2", z3.Implies(s.t > 0, a == 2 * s.t * s.t))
            x, y = fresh("sa", R), fresh("sq", R)
            E.assume(z3.And(x == SQRT(a), y == s.t * q)); E.assume(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
            lemma(c, "(s q)^2 = 2 s^2", y * y == 2 * s.t * s.t); lemma(c, "s q nonnegative", y >= 0)
            lemma(c, "root of 2 s^2 is q s", z3.Implies(z3.And(s.t > 0, x * x == y * y, x >= 0, y >= 0), x == y))
            lemma(c, "inverse root is w", z3.Implies(s.t > 0, 1 / x == w))
        c.ob("zero width gives zero rate", z3.Implies(s.t == 0, e == 0))
        c.ob("rate is half erfc(1/(sqrt 2 sigma))", z3.Implies(s.t > 0, e * 2 == ERFC(w)))
        c.ob("rate between 0 and one half", z3.And(e >= 0, 2 * e < 1))
        lemma(c, "rate positive", z3.Implies(s.t > 0, z3.And(e > 0, 2 * e == ERFC(w))))
        for a in E_args(back, ERFCINV): E.assume(z3.Implies(a == ERFC(w), ERFCINV(a) == w))
        lemma(c, "q w positive", z3.Implies(s.t > 0, q * w > 0))
        lemma(c, "inverse of q w is s", z3.Implies(s.t > 0, z3.And(1 / (q * w) == s.t, 1 / q / w == s.t)))
        c.ob("converting the rate back gives the width", back == s.t)
    def thunk():
        e = f(s); return e, g(e)
    c.run(thunk, post)
