from contracts.lib import *
M = "codes.css_code"; S = "codes.stabilizer_code"
NOTES = dict(assumptions=["numpy integer arithmetic is treated as mathematical", "check matrices and generators given as arrays are 0/1 arrays"],
             outside=["ldpc.mod2.rank (external; assumed contract)"])

def ortho(X, Z, n):
    i, j = z3.Ints("oi oj")
    return z3.ForAll([i, j], z3.Implies(z3.And(rng(i, X._shape[0]), rng(j, Z._shape[0])), z3.Not(par(0, n, lambda q: z3.And(X.at(i, q) == 1, Z.at(j, q) == 1)))))

def accept_iff(c, thunk, valid, excs, name, extra=None, modifies=()):
    """thunk() returns normally exactly when valid, and raises one of excs exactly otherwise"""
    def post(r):
        c.ob(f"{name}: accepted only if valid", valid)
        if extra: extra(r)
    def raises(e):
        c.ob(f"{name}: rejected with the declared exception", z3.BoolVal(type(e).__name__ in excs))
        c.ob(f"{name}: rejected only if invalid", z3.Not(valid))
    c.run(thunk, post, raises, modifies=modifies)

CE = ("InvalidCSSCodeError",); SE = ("InvalidStabilizerCodeError",)
@contract("C08", M + ":CSSCode._check_valid_check_matrices")
def check_matrices(c):
    n1, n2, rx, rz = Nat("n1", 1), Nat("n2", 1), Nat("rx"), Nat("rz")
    X, Z = binmat("Hx", rx, n1), binmat("Hz", rz, n2)
    f = c.fn()
    accept_iff(c, lambda: f(None, None), z3.BoolVal(False), CE, "no matrix")
    accept_iff(c, lambda: f(X, None), z3.BoolVal(True), CE, "only X")
    accept_iff(c, lambda: f(None, Z), z3.BoolVal(True), CE, "only Z")
    accept_iff(c, lambda: f(X, Z), z3.And(n1.t == n2.t, ortho(X, Z, n1)), CE, "both")

def init(c, X, Z, n, rx, rz, xd, zd, nm, valid):
    cl = c.cls(M, "CSSCode")
    LX, LZ = object(), object()
    calls = []
    cl._compute_logical = staticmethod(lambda a, b: (calls.append((a, b)), ("L", a, b))[1])
    d = Int("d")
    o = object.__new__(cl); o.__dict__["_vc_born"] = born()
    xdv = d if xd is None else xd; zdv = d if zd is None else zd
    ok = z3.And(valid, d.t > 0, xdv.t >= d.t, zdv.t >= d.t)
    def extra(_):
        zero = z3.IntVal(0)
        arr_is(c, f"{nm}: Hx", o.Hx, (rx if X is not None else 0, n), lambda i, j: X.at(i, j) if X is not None else zero)
        arr_is(c, f"{nm}: Hz", o.Hz, (rz if Z is not None else 0, n), lambda i, j: Z.at(i, j) if Z is not None else zero)
        rxx = lift(rx) if X is not None else z3.IntVal(0); rzz = lift(rz) if Z is not None else z3.IntVal(0)
        sh = (mk(rxx + rzz), 2 * n + 1)
        def gen(i, j):
            t = zero
            if X is not None: t = z3.If(z3.And(i < rxx, j < n.t), X.at(i, j), t)
            if Z is not None: t = z3.If(z3.And(i >= rxx, j >= n.t, j < 2 * n.t), Z.at(i - rxx, j - n.t), t)
            return t
        arr_is(c, f"{nm}: stabilizer generators", o.generators, sh, gen)
        c.ob(f"{nm}: n", lift(o.n) == n.t)
        c.ob(f"{nm}: distances", z3.And(lift(o.distance) == d.t, lift(o.x_distance) == xdv.t, lift(o.z_distance) == zdv.t))
        c.ob(f"{nm}: X logicals from (Hz, Hx), Z logicals from (Hx, Hz)", o.Lx[1] is o.Hz and o.Lx[2] is o.Hx and o.Lz[1] is o.Hx and o.Lz[2] is o.Hz)
    accept_iff(c, lambda: cl.__init__(o, d, X, Z, xd, zd), ok, CE + SE, nm, extra, modifies=[o])

@contract("C08", M + ":CSSCode.__init__", "init_both")
def init_both(c):
    n, rx, rz = Nat("n", 1), Nat("rx"), Nat("rz")
    E.assume(rx.t + rz.t >= 1)
    X, Z = binmat("Hx", rx, n), binmat("Hz", rz, n)
    init(c, X, Z, n, rx, rz, None, None, "both", ortho(X, Z, n))
@contract("C08", M + ":CSSCode.__init__", "init_distances")
def init_dist(c):
    n, rx, rz = Nat("n", 1), Nat("rx", 1), Nat("rz", 1)
    X, Z = binmat("Hx", rx, n), binmat("Hz", rz, n)
    init(c, X, Z, n, rx, rz, Int("xd"), Int("zd"), "x/z distances", ortho(X, Z, n))
@contract("C08", M + ":CSSCode.__init__", "init_x")
def init_x(c):
    n, rx = Nat("n", 1), Nat("rx", 1); X = binmat("Hx", rx, n)
    init(c, X, None, n, rx, None, None, None, "only X", z3.BoolVal(True))
@contract("C08", M + ":CSSCode.__init__", "init_z")
def init_z(c):
    n, rz = Nat("n", 1), Nat("rz", 1); Z = binmat("Hz", rz, n)
    init(c, None, Z, n, None, rz, None, Int("zd"), "only Z", z3.BoolVal(True))

@contract("C08", S + ":StabilizerCode._check_stabilizer_generators")
def generators_strings(c):
    """strings of one length that are Pauli strings, at least one"""
    m = Nat("m", 0); f = z3.Function("gs", I, I, I); ln = z3.Function("gl", I, I)
    k = fresh("k"); E.assume(z3.ForAll([k], ln(k) >= 0, patterns=[ln(k)]))
    gs = PList.of_seq(Seq(m, lambda i: SStr(V(ln(lift(i))), lambda q, i=i: f(lift(i), q))))
    ok = lambda t: z3.Or(*[t == ord(x) for x in "IXYZ"])
    i, j = z3.Ints("gi gj")
    valid = z3.And(m.t > 0, z3.ForAll([i], z3.Implies(rng(i, m), z3.And(ln(i) == ln(0), ln(i) > 0, z3.Or(ok(f(i, 0)), f(i, 0) == ord("+"), f(i, 0) == ord("-")), z3.ForAll([j], z3.Implies(rng(j, V(ln(i)), 1), ok(f(i, j))))))))
    accept_iff(c, lambda: c.fn()(gs), valid, SE, "Pauli strings")
@contract("C08", S + ":StabilizerCode._check_stabilizer_generators")
def generators_array(c):
    n, r = Nat("n", 1), Nat("r"); G = binmat("G", r, 2 * n + 1)
    accept_iff(c, lambda: c.fn()(G), r.t > 0, SE, "array")

def sip2(A, i, B, j, n):
    return par(0, n, lambda q: xor(z3.And(A.at(i, q) == 1, B.at(j, q + n.t) == 1), z3.And(A.at(i, q + n.t) == 1, B.at(j, q) == 1)))
def all_comm(A, ra, B, rb, n):
    i, j = z3.Ints("ci cj")
    return z3.ForAll([i, j], z3.Implies(z3.And(rng(i, ra), rng(j, rb)), z3.Not(sip2(A, i, B, j, n))))

@contract("C08", S + ":StabilizerCode._check_code_correct", "no_logicals")
def correct_none(c):
    n, r, k = Nat("n", 1), Nat("r", 1), Int("k"); G = binmat("G", r, 2 * n)
    o = c.obj(S, "StabilizerCode", n=n, k=k, symplectic_matrix=G, Lz=None, Lx=None, Lz_symplectic=None, Lx_symplectic=None)
    accept_iff(c, lambda: o._check_code_correct(), all_comm(G, r, G, r, n), SE, "no logicals")
@contract("C08", S + ":StabilizerCode._check_code_correct", "one_logical")
def correct_one(c):
    n, r, k, a = Nat("n", 1), Nat("r", 1), Int("k"), Nat("a", 1); G = binmat("G", r, 2 * n); L = binmat("L", a, 2 * n + 1)
    for kw in (dict(Lz=L, Lx=None), dict(Lz=None, Lx=L)):
        o = c.obj(S, "StabilizerCode", n=n, k=k, symplectic_matrix=G, Lz_symplectic=None, Lx_symplectic=None, **kw)
        accept_iff(c, lambda: o._check_code_correct(), z3.BoolVal(False), SE, "only one side of logicals " + str([x for x in kw if kw[x] is not None]))
@contract("C08", S + ":StabilizerCode._check_code_correct", "logicals")
def correct_logicals(c):
    n, r, k, a, b = Nat("n", 1), Nat("r", 1), Int("k"), Nat("a", 1), Nat("b", 1)
    n1, n2 = Nat("n1", 1), Nat("n2", 1)
    G = binmat("G", r, 2 * n)
    Lz, Lx = binmat("Lz", a, 2 * n1 + 1), binmat("Lx", b, 2 * n2 + 1)
    o = c.obj(S, "StabilizerCode", n=n, k=k, symplectic_matrix=G, Lz=Lz, Lx=Lx, Lz_symplectic=Lz[:, :-1], Lx_symplectic=Lx[:, :-1])
    i = z3.Int("li")
    anti = lambda x, y: sip2(Lz, x, Lx, y, n1)
    # n1 == n2 == n is part of validity, so the parities may range over n1 (n2)
    rest = z3.And(n1.t == n.t, n2.t == n.t, a.t <= k.t, b.t <= k.t, all_comm(Lz, a, G, r, n1), all_comm(Lx, b, G, r, n2), all_comm(G, r, G, r, n))
    def ones(ax):
        # sum over the other axis equals one
        return z3.ForAll([i], z3.Implies(rng(i, a if ax else b), ssum(0, b if ax else a, (lambda q: b01(anti(i, q))) if ax else (lambda q: b01(anti(q, i)))) == 1))
    accept_iff(c, lambda: o._check_code_correct(), z3.And(rest, ones(1), ones(0)), SE, "conjugate pairs")

@contract("C08", S + ":StabilizerCode.__init__")
def st_init(c):
    """fields are derived from the arguments; distance must be positive"""
    n, r, a, b = Nat("n", 1), Nat("r", 1), Nat("a", 1), Nat("b", 1)
    cl = c.cls(S, "StabilizerCode")
    checked = []
    cl._check_code_correct = lambda self: checked.append(dict(self.__dict__))
    G = binmat("G", r, 2 * n + 1); Lz, Lx = binmat("Lz", a, 2 * n + 1), binmat("Lx", b, 2 * n + 1)
    for nm, kw in (("plain", {}), ("logicals", dict(Lz=Lz, Lx=Lx))):
        for dd in (None, Int("dist")):
            o = object.__new__(cl); o.__dict__["_vc_born"] = born()
            del checked[:]
            def extra(_, o=o, kw=kw, dd=dd):
                arr_is(c, f"{nm}: generators", o.generators, (r, 2 * n + 1), lambda i, j: G.at(i, j))
                arr_is(c, f"{nm}: symplectic part", o.symplectic_matrix, (r, 2 * n), lambda i, j: G.at(i, j))
                arr_is(c, f"{nm}: phases", o.phases, (r,), lambda i: G.at(i, 2 * n.t))
                c.ob(f"{nm}: n", lift(o.n) == n.t)
                c.ob(f"{nm}: k = n - rank", lift(o.k) == n.t - lift(gf2.rank(G)))
                c.ob(f"{nm}: distance", lift(o.distance) == (1 if dd is None else dd.t))
                for q, L in (("Lz", Lz), ("Lx", Lx)):
                    if kw:
                        arr_is(c, f"{nm}: {q}", getattr(o, q), L._shape, lambda i, j: L.at(i, j))
                        arr_is(c, f"{nm}: {q} symplectic", getattr(o, q + "_symplectic"), (L._shape[0], 2 * n), lambda i, j: L.at(i, j))
                    else: c.ob(f"{nm}: {q} absent", getattr(o, q) is None and getattr(o, q + "_symplectic") is None)
                c.ob(f"{nm}: validated after all fields are set", len(checked) >= 1 and {"generators", "Lz", "Lx", "k", "n", "symplectic_matrix"} <= set(checked[-1]))
            accept_iff(c, lambda: cl.__init__(o, G, dd, **kw), z3.BoolVal(True) if dd is None else dd.t > 0, SE, nm + (" with distance" if dd is not None else ""), extra, modifies=[o])
