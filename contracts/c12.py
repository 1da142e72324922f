from contracts.lib import *
BB = "codes.bb_codes"; HX = "codes.hexagonal_color_code"; SO = "codes.square_octagon_color_code"; CC = "codes.color_code"
NOTES = dict(assumptions=["odd distances >= 3 for the colour codes; non-negative exponents; all sizes l, m >= 1"],
             trusted=["numpy.linalg.matrix_power(M, p) is the p-fold product of M",
                      "polynomials in two commuting matrices commute; rows with a triangular system of pivots are independent"])

# ------------------------------------------------------------------ bicycle codes
@contract("C12", BB + ":_shift_matrix")
def shift(c):
    l = Nat("l", 1)
    c.run(lambda: c.fn()(l), lambda r: arr_is(c, "cyclic shift", r, (l, l), lambda i, j: b01(j == (i + 1) % l.t)))
def shiftspec(l): return lambda i, j: b01(j == (i + 1) % lift(l))
def kron_spec(x, y, m): return lambda i, j: x(i / lift(m), j / lift(m)) * y(i % lift(m), j % lift(m))
def stub_shift(c, m):
    m._shift_matrix = lambda l: A.SArr((l, l), shiftspec(l), "i")
for which in ("x", "y"):
    def mk_(which):
        @contract("C12", BB + f":_{which}_matrix")
        def f(c):
            l, m = Nat("l", 1), Nat("m", 1); mod = c.mod(BB); stub_shift(c, mod)
            idt = lambda i, j: b01(i == j)
            spec = kron_spec(shiftspec(l), idt, m) if which == "x" else kron_spec(idt, shiftspec(m), m)
            c.run(lambda: c.fn()(l, m), lambda r: arr_is(c, f"{which}: shift of one coordinate, identity on the other", r, (l * m, l * m), spec))
    mk_(which)
PX, PY = z3.Function("POWX", I, I, I, I), z3.Function("POWY", I, I, I, I)
@contract("C12", BB + ":_cyclic_matrix_sum")
def msum(c):
    alg = matalg_on()
    l, m = Nat("l", 1), Nat("m", 1); N = l * m
    nx, ny = Nat("nx"), Nat("ny")
    fx, fy = z3.Function("xt", I, I), z3.Function("yt", I, I)
    xs = PList([("s", nx, lambda i: V(fx(lift(i))))]); ys = PList([("s", ny, lambda i: V(fy(lift(i))))])
    mod = c.mod(BB)
    x, y = sym_array("X", (N, N)), sym_array("Y", (N, N))
    def xm(a, b): c.ob("x matrix of the given sizes", z3.And(lift(a) == l.t, lift(b) == m.t)); return x
    def ym(a, b): c.ob("y matrix of the given sizes", z3.And(lift(a) == l.t, lift(b) == m.t)); return y
    mod._x_matrix, mod._y_matrix = xm, ym
    def mpow(a, p):
        F = PX if a is x else PY if a is y else None
        if F is None: raise Unsupported("power of another matrix")
        p = lift(p); return A.SArr((N, N), lambda i, j: F(p, i, j), "i")
    class LA: matrix_power = staticmethod(mpow)
    npx = type("NPX", (), {"__getattr__": lambda s, k: getattr(np, k)})(); npx.linalg = LA
    mod.np = npx
    st = {"n": 0}
    def spec(kx, ky):
        return lambda i, j: ssum(0, kx, lambda t: PX(fx(t), i, j)) + ssum(0, ky, lambda t: PY(fy(t), i, j))
    def same(a, sp):
        return arr_is(c, "partial sum", a, (N, N), sp)
    def bounds():
        h = E.loops
        ph = getattr(h, "phase", 0)
        return ph
    def init(vals, n):
        ph = h.hit
        same(vals["a"], spec(0, 0) if ph == 1 else spec(nx.t, 0))
    def havoc(vals, k):
        s = spec(k, 0) if h.hit == 1 else spec(nx.t, k)
        a = A.SArr((N, N), lambda i, j: to_real(lift(s(i, j))), "f")
        return {"a": a}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next")
        same(new["a"], spec(k + 1, 0) if h.hit == 1 else spec(nx.t, k + 1))
    h = LoopHook(c, "_cyclic_matrix_sum", init, havoc, step)
    c.run(lambda: c.fn()(xs, ys, l, m), lambda r: arr_is(c, "sum of the powers of x and of y named by the two exponent lists", r, (N, N), spec(nx.t, ny.t)), frame=False)
    c.ob("both loops are over the exponent lists", h.hit == 2)

@contract("C12", BB + ":_cyclic_code_check_matrix")
def check_matrix(c):
    alg = matalg_on()
    m, l = Nat("m", 1), Nat("l", 1); N = l * m
    a, b = sym_array("a", (N, N)), sym_array("b", (N, N))
    # callee contract: polynomials in the two commuting shifts, hence members of one commuting family
    for t in (a, b): alg.REL.fam[id(t.fn)] = "xy"; alg.REL.keep.append(t.fn)
    ta, tb = (Tok("xa"), Tok("ya")), (Tok("xb"), Tok("yb"))
    mod = c.mod(BB)
    def ms(x, y, l2, m2):
        c.ob("sizes are passed in order", z3.And(lift(l2) == l.t, lift(m2) == m.t))
        if x is ta[0] and y is ta[1]: return a
        if x is tb[0] and y is tb[1]: return b
        c.ob("exponent lists are passed in order", False); raise PathEnd()
    mod._cyclic_matrix_sum = ms
    def post(r):
        if not c.ob("two matrices", isinstance(r, tuple) and len(r) == 2): return
        hx, hz = r
        w = N * 2
        bit = lambda t: b01(odd(t))
        arr_is(c, "X checks are [a | b] modulo two", hx, (N, w), lambda i, j: z3.If(j < lift(N), bit(a.at(i, j)), bit(b.at(i, j - lift(N)))))
        arr_is(c, "Z checks are [b' | a'] modulo two", hz, (N, w), lambda i, j: z3.If(j < lift(N), bit(b.at(j, i)), bit(a.at(j - lift(N), i))))
        z = alg.mul(alg.get(hx), alg.transpose(alg.get(hz)))
        c.ob("X and Z checks are orthogonal modulo two", z is not None and alg.is_zero(z))
    c.run(lambda: c.fn()(m, l, ta, tb), post, frame=False)

# ------------------------------------------------------------------ colour codes: qubit sets
class GSet:
    """set of integer pairs: membership predicate and number of elements; adding requires a new element"""
    def __init__(self, c, name, mem, cnt): self.c, self.name, self.mem, self.cnt = c, name, mem, cnt; self._vc_born = born()
    def _vc_save(self): return self.mem, self.cnt
    def _vc_load(self, st): self.mem, self.cnt = st
    def put(self, mem, cnt): E.touch(self); self.mem, self.cnt = mem, cnt
    def add(self, q):
        x, y = (lift(v) for v in (q if isinstance(q, tuple) else seqs.as_plist(q).concrete()))
        old, n = self.mem, self.cnt
        self.c.ob(f"{self.name}: coordinates are added once", z3.Not(old(x, y)))
        self.put(lambda a, b: z3.Or(old(a, b), z3.And(a == x, b == y)), n + 1)
    def union(self, o):
        x, y = fresh("ux"), fresh("uy")
        self.c.ob("united sets are disjoint", z3.Not(z3.And(self.mem(x, y), o.mem(x, y))))
        return GSet(self.c, "union", lambda a, b: z3.Or(self.mem(a, b), o.mem(a, b)), self.cnt + o.cnt)
    def update(self, o):
        x, y = fresh("ux"), fresh("uy")
        self.c.ob("united sets are disjoint", z3.Not(z3.And(self.mem(x, y), o.mem(x, y))))
        m, n = self.mem, self.cnt
        self.put(lambda a, b: z3.Or(m(a, b), o.mem(a, b)), n + o.cnt)
    def vc_len(self): return mk(self.cnt)
def gset(c, name, empty_row=None):
    f = z3.Function("MEM_" + name, I, I, B); n = z3.Int("CNT_" + name)
    if empty_row is not None:
        a = z3.Int("ea"); E.assume(z3.ForAll([a], z3.Not(f(a, lift(empty_row))), patterns=[f(a, lift(empty_row))]))
    return GSet(c, name, lambda x, y: f(x, y), n)
def same_set(c, name, s, mem, cnt):
    x, y = fresh("sx"), fresh("sy")
    c.ob(f"{name}: elements", s.mem(x, y) == mem(x, y))
    c.ob(f"{name}: number of elements", s.cnt == cnt)
def mx0(t): return z3.If(t > 0, t, z3.IntVal(0))

# rows of the hexagonal lattice: position i sits at (y + 2 i, y); residues of i modulo 3 say data or face
RES = {"red_row": (0, 2), "blue_row": (0, 1), "green_row": (1, 2)}
def count_res(n, res):
    """number of 0 <= i < n with i % 3 in res"""
    return z3.Sum(*[(n + (2 - r)) / 3 for r in res])
def hexrow(x, y, y0, n, res):
    i = (x - y0) / 2
    return z3.And(y == y0, x >= y0, (x - y0) % 2 == 0, i < n, z3.Or(*[i % 3 == r for r in res]))
def by_value(vals, t):
    """loop variables whose initial value is t"""
    return [k for k, v in vals.items() if isinstance(v, (V, int)) and not isinstance(v, bool) and lift(v).sort() == I and E.entails(lift(v) == t)]
def hexrowspec(meth):
    @contract("C12", HX + ":HexagonalColorCode." + meth)
    def f(c):
        y, n = Nat("y"), Int("x_max")
        D_, A_ = gset(c, "data", y), gset(c, "faces", y)
        o = c.obj(HX, "HexagonalColorCode", data_qubits=D_, ancilla_qubits=A_)
        d0, a0, nd, na = D_.mem, A_.mem, D_.cnt, A_.cnt
        res = RES[meth]; oth = tuple(r for r in range(3) if r not in res)
        def state(i): return (lambda X, Y: z3.Or(d0(X, Y), hexrow(X, Y, y.t, i, res)), nd + count_res(i, res)), (lambda X, Y: z3.Or(a0(X, Y), hexrow(X, Y, y.t, i, oth)), na + count_res(i, oth))
        loc = {}
        def init(vals):
            # the counter and the coordinate of the loop, whatever they are called
            iv = by_value(vals, z3.IntVal(0)); xv = by_value(vals, y.t)
            c.ob("starts at the first position", bool(iv and xv))
            if not (iv and xv): raise Unsupported("loop variables of the row")
            loc["v"] = (iv[0], xv[0])
        def pick(vals): return loc["v"]
        def havoc(vals):
            i, xr = pick(vals)
            k = fresh("i"); E.assume(z3.And(k >= 0, k <= mx0(n.t)))
            (dm, dn), (am, an) = state(k); D_.put(dm, dn); A_.put(am, an)
            return {i: V(k), xr: V(y.t + 2 * k)}
        def step(old, new):
            i, xr = pick(old); k = lift(old[i])
            c.ob("one position further", z3.And(lift(new[i]) == k + 1, lift(new[xr]) == y.t + 2 * (k + 1)))
            (dm, dn), (am, an) = state(k + 1); same_set(c, "data qubits", D_, dm, dn); same_set(c, "faces", A_, am, an)
        WhileHook(c, meth, init, havoc, step)
        def post(r):
            (dm, dn), (am, an) = state(mx0(n.t)); same_set(c, "row: data qubits", D_, dm, dn); same_set(c, "row: faces", A_, am, an)
        c.run(lambda: getattr(o, meth)(n, y), post, frame=False)
    f.__name__ = meth
for m_ in RES: hexrowspec(m_)

COL = ("red_row", "blue_row", "green_row")      # colours in the order red, blue, green: row y has colour y % 3
def hexD(x, y, W):
    n = W - y
    return z3.And(y >= 0, y < W, z3.Or(*[z3.And(y % 3 == j, hexrow(x, y, y, n, RES[COL[j]])) for j in range(3)]))
def hexA(x, y, W):
    n = W - y
    return z3.And(y >= 0, y < W, z3.Or(*[z3.And(y % 3 == j, hexrow(x, y, y, n, tuple(r for r in range(3) if r not in RES[COL[j]]))) for j in range(3)]))
def hexcount(t, s, j):
    """data qubits and twice the faces in the first 3 s + j rows for W = 3 t + 1"""
    full = 6 * t * s - 3 * s * (s - 1); L = 3 * t + 1 - 3 * s
    d = full; a = 3 * t * s * 2 - 3 * s * (s - 1) - 0 * s
    # rows 3s, 3s+1 have 2u+1, 2u data qubits and u, u faces (u = t - s); row 3s+2 has 2u-1 and u
    u = t - s
    if j >= 1: d, a = d + 2 * u + 1, a + 2 * u
    if j >= 2: d, a = d + 2 * u, a + 2 * u
    return d, a
@contract("C12", HX + ":HexagonalColorCode.add_qubits")
def hexadd(c):
    t = Nat("t", 1); d = t * 2 + 1; W = 3 * t.t + 1
    F = lambda x, y: z3.BoolVal(False)
    D_, A_ = GSet(c, "data", F, z3.IntVal(0)), GSet(c, "faces", F, z3.IntVal(0))
    o = c.obj(HX, "HexagonalColorCode", data_qubits=D_, ancilla_qubits=A_, distance=d)
    def stub(meth):
        res = RES[meth]; oth = tuple(r for r in range(3) if r not in res)
        def f(n, y):
            n, y = lift(n), lift(y); x = fresh("rx")
            c.ob("callee precondition: the row is still empty", z3.And(y >= 0, z3.Not(D_.mem(x, y)), z3.Not(A_.mem(x, y))))
            for S_, rs in ((D_, res), (A_, oth)):
                m, k = S_.mem, S_.cnt
                S_.put((lambda m, rs: lambda X, Y: z3.Or(m(X, Y), hexrow(X, Y, y, n, rs)))(m, rs), k + count_res(mx0(n), rs))
        return f
    for m_ in RES: setattr(o, m_, stub(m_))
    loc = {}
    def st(y, s, j):
        cd, ca2 = hexcount(t.t, s, j)
        return (lambda X, Y: z3.And(Y < y, hexD(X, Y, W))), cd, (lambda X, Y: z3.And(Y < y, hexA(X, Y, W))), ca2
    def init(vals):
        xv, yv = by_value(vals, W), by_value(vals, z3.IntVal(0))
        c.ob("starts with the full bottom row", bool(xv and yv))
        if not (xv and yv): raise Unsupported("loop variables")
        loc["v"] = xv[0], yv[0]
    def havoc(vals):
        xm, yy = loc["v"]; s = fresh("s"); j = E.choose(3); y = 3 * s + j
        E.assume(z3.And(s >= 0, y >= 0, y <= W)); loc["s"], loc["j"] = s, j
        dm, cd, am, ca2 = st(y, s, j); ca = fresh("cf"); E.assume(2 * ca == ca2)
        D_.put(dm, cd); A_.put(am, ca)
        return {xm: V(W - y), yy: V(y)}
    def step(old, new):
        xm, yy = loc["v"]; s, j = loc["s"], loc["j"]
        s, j = (s, j + 1) if j < 2 else (s + 1, 0)
        y = 3 * s + j
        c.ob("one row up", z3.And(lift(new[xm]) == W - y, lift(new[yy]) == y))
        dm, cd, am, ca2 = st(y, s, j)
        x_, y_ = fresh("sx"), fresh("sy")
        c.ob("data qubits: elements", D_.mem(x_, y_) == dm(x_, y_)); c.ob("faces: elements", A_.mem(x_, y_) == am(x_, y_))
        c.ob("data qubits: number of elements", D_.cnt == cd); c.ob("faces: number of elements", 2 * A_.cnt == ca2)
    h = WhileHook(c, "add_qubits", init, havoc, step)
    def post(r):
        x_, y_ = fresh("sx"), fresh("sy")
        s_ = o.data_qubits; a_ = o.ancilla_qubits
        c.ob("data qubits of the lattice", s_.mem(x_, y_) == hexD(x_, y_, W)); c.ob("faces of the lattice", a_.mem(x_, y_) == hexA(x_, y_, W))
        c.ob("documented number of qubits (3 d^2 + 1) / 4", 4 * s_.cnt == 3 * (d.t * d.t) + 1)
        c.ob("twice as many faces as qubits minus one", 2 * a_.cnt == s_.cnt - 1)
    c.run(lambda: o.add_qubits(), post, frame=False)

# ------------------------------------------------------------------ square-octagon lattice
def pos6(i, x0): return x0 + 6 * (i / 2) + 2 * (i % 2)
def datarow(x, y, y0, x0, n):
    r = x - x0
    return z3.And(y == y0, r >= 0, z3.Or(z3.And(r % 6 == 0, 2 * (r / 6) < n), z3.And(r % 6 == 2, 2 * (r / 6) + 1 < n)))
def ancrow(x, y, y0, x0, n, par_):
    r = x - x0
    return z3.And(y == y0, r >= 0, r % 6 == 3 * par_, 2 * (r / 6) + par_ < n)
ROWS = {  # method -> (set names for even / odd positions, start of the row)
    "even_data_qubit_row": (("data", "data"), lambda y: y - 1),
    "odd_data_qubit_row": (("data", "data"), lambda y: y + 1),
    "even_ancilla_qubit_row": (("square", "octagon"), lambda y: y + 1),
    "odd_ancilla_qubit_row": (("octagon", "square"), lambda y: y - 2)}
ATTR = {"data": "data_qubits", "square": "square_ancilla_qubits", "octagon": "octagon_ancilla_qubits"}
def soeffect(meth, y, n):
    """what a row method adds: set -> (membership, number)"""
    (e, o), x0 = ROWS[meth]; x0 = x0(y); m = mx0(n)
    if e == o: return {e: (lambda X, Y: datarow(X, Y, y, x0, m), m)}
    return {e: (lambda X, Y: ancrow(X, Y, y, x0, m, 0), (m + 1) / 2), o: (lambda X, Y: ancrow(X, Y, y, x0, m, 1), m / 2)}
def sorow(meth):
    @contract("C12", SO + ":SquareOctagonColorCode." + meth)
    def f(c):
        y, n = Nat("y"), Nat("x_max")
        S_ = {k: gset(c, k, y) for k in ATTR}
        o = c.obj(SO, "SquareOctagonColorCode", **{ATTR[k]: S_[k] for k in ATTR})
        base = {k: (S_[k].mem, S_[k].cnt) for k in ATTR}
        names, x0 = ROWS[meth]; x0 = x0(y.t); step_ = 3 if "ancilla" in meth else None
        def state(i):
            eff = soeffect(meth, y.t, i); out = {}
            for k, (m, cn) in base.items():
                if k in eff: out[k] = ((lambda m, e: lambda X, Y: z3.Or(m(X, Y), e(X, Y)))(m, eff[k][0]), cn + eff[k][1])
                else: out[k] = (m, cn)
            return out
        def same(tag, i):
            for k, (m, cn) in state(i).items(): same_set(c, f"{tag}: {k}", S_[k], m, cn)
        loc = {}
        def init(vals):
            nv = by_value(vals, z3.IntVal(0)); xv = by_value(vals, x0)
            c.ob("starts at the first position", bool(nv and xv))
            if not (nv and xv): raise Unsupported("loop variables")
            loc["v"] = nv[0], xv[0]
        def havoc(vals):
            nq, x = loc["v"]; j = fresh("j"); loc["j"] = j
            E.assume(z3.And(j >= 0, z3.Or(j == 0, 2 * j <= n.t)))
            for k, (m, cn) in state(2 * j).items(): S_[k].put(m, cn)
            return {nq: V(2 * j), x: V(x0 + 6 * j)}
        def step(old, new):
            nq, x = loc["v"]; j = loc["j"]
            c.ob("two positions further", z3.And(lift(new[nq]) == 2 * (j + 1), lift(new[x]) == x0 + 6 * (j + 1), 2 * (j + 1) <= n.t))
            same("after two positions", 2 * (j + 1))
        def leave(old, new): same("when the loop is left", n.t)
        def after(old):
            for k, (m, cn) in state(n.t).items(): S_[k].put(m, cn)
            return {}
        WhileHook(c, meth, init, havoc, step, leave=(leave, after))
        c.run(lambda: getattr(o, meth)(n, y), lambda r: same("row", n.t), frame=False)
    f.__name__ = meth
for m_ in ROWS: sorow(m_)
@contract("C12", SO + ":SquareOctagonColorCode.bottom_row_ancillas")
def bottom(c):
    t = Nat("t", 1)
    S_ = gset(c, "octagon", 0)
    o = c.obj(SO, "SquareOctagonColorCode", octagon_ancilla_qubits=S_, distance=t * 2 + 1)
    m, n = S_.mem, S_.cnt
    def st(k): return (lambda X, Y: z3.Or(m(X, Y), z3.And(Y == 0, X % 6 == 4, X >= 4, X < 4 + 6 * k))), n + k
    def havoc(vals, k): S_.put(*st(k)); return {}
    def step(old, new, k, how): c.ob("goes on", how == "next"); same_set(c, "one octagon further", S_, *st(k + 1))
    h = LoopHook(c, "bottom_row_ancillas", lambda v, n: None, havoc, step)
    def post(r): same_set(c, "bottom row", S_, lambda X, Y: z3.Or(m(X, Y), z3.And(Y == 0, X % 6 == 4, X >= 4, X < 6 * t.t)), n + t.t)
    c.run(lambda: o.bottom_row_ancillas(), post, frame=False)
# rows by height: y = 3 j + 1 even data row, 3 j + 2 odd data row, 3 j + 3 faces
def so_len(y, t):
    j = (y - 1) / 3
    return z3.If((y - 1) % 3 == 0, z3.If(y == 1, 2 * t + 1, 2 * t + 2 - 2 * j), 2 * t - 2 * j)
def soD(x, y, t):
    n = so_len(y, t)
    return z3.And(y >= 1, y <= 3 * t + 1, z3.Or(z3.And((y - 1) % 3 == 0, datarow(x, y, y, y - 1, n)), z3.And((y - 1) % 3 == 1, datarow(x, y, y, y + 1, n))))
def soF(x, y, t, sq):
    n = so_len(y, t)
    rows = z3.And(y >= 1, y <= 3 * t + 1, y % 3 == 0, z3.Or(z3.And(y % 2 == 0, ancrow(x, y, y, y + 1, n, 0 if sq else 1)), z3.And(y % 2 == 1, ancrow(x, y, y, y - 2, n, 1 if sq else 0))))
    return rows if sq else z3.Or(rows, z3.And(y == 0, x % 6 == 4, x >= 4, x < 6 * t))
@contract("C12", SO + ":SquareOctagonColorCode.add_qubits")
def soadd(c):
    t = Nat("t", 1)
    F = lambda x, y: z3.BoolVal(False)
    S_ = {k: GSet(c, k, F, z3.IntVal(0)) for k in ATTR}
    o = c.obj(SO, "SquareOctagonColorCode", distance=t * 2 + 1, **{ATTR[k]: S_[k] for k in ATTR})
    T = t.t
    def stub(meth):
        def f(n, y):
            n, y = lift(n), lift(y); x = fresh("rx")
            c.ob("callee precondition: the row is still empty and its length not negative", z3.And(n >= 0, *[z3.Not(S_[k].mem(x, y)) for k in ATTR]))
            for k, (e, cn) in soeffect(meth, y, n).items():
                m, q = S_[k].mem, S_[k].cnt
                S_[k].put((lambda m, e: lambda X, Y: z3.Or(m(X, Y), e(X, Y)))(m, e), q + cn)
        return f
    for m_ in ROWS: setattr(o, m_, stub(m_))
    def bot():
        x, y = fresh("bx"), z3.IntVal(0)
        c.ob("callee precondition: the bottom row is empty", z3.Not(S_["octagon"].mem(x, y)))
        m, n = S_["octagon"].mem, S_["octagon"].cnt
        S_["octagon"].put(lambda X, Y: z3.Or(m(X, Y), z3.And(Y == 0, X % 6 == 4, X >= 4, X < 6 * T)), n + T)
    o.bottom_row_ancillas = bot
    def below(y):
        return {"data": lambda X, Y: z3.And(Y < y, soD(X, Y, T)), "square": lambda X, Y: z3.And(Y < y, soF(X, Y, T, True)), "octagon": lambda X, Y: z3.And(Y < y, soF(X, Y, T, False))}
    def counts(j):
        """data qubits / squares plus octagons before the rows 3 j + 1 (j >= 1)"""
        return 2 * T + 1 + (j - 1) * (2 * T + 2) - j * (j - 1) + 2 * T * j - j * (j - 1), T + 2 * T * j - j * (j - 1)
    loc = {}
    def state(kind, j):
        if kind == 0: y, xm, cd, ca = z3.IntVal(1), 2 * T + 1, z3.IntVal(0), T
        elif kind == 1: y = 3 * j + 1; xm = 2 * T + 2 - 2 * j; cd, ca = counts(j)
        else: y, xm = 3 * T + 2, None; cd, ca = 2 * T * T + 4 * T + 1, T * T + 2 * T
        return y, xm, cd, ca
    def init(vals):
        yv, xv = by_value(vals, z3.IntVal(1)), by_value(vals, 2 * T + 1)
        c.ob("starts above the bottom row with a full row", bool(yv and xv))
        if not (yv and xv): raise Unsupported("loop variables")
        loc["v"] = yv[0], xv[0]
        chk(0, None, vals)
    def chk(kind, j, vals):
        yv, xv = loc["v"]; y, xm, cd, ca = state(kind, j)
        c.ob("height and row length", z3.And(lift(vals[yv]) == y, z3.BoolVal(True) if xm is None else lift(vals[xv]) == xm))
        X, Y = fresh("sx"), fresh("sy")
        for k, m in below(y).items(): c.ob(f"{k}: elements", S_[k].mem(X, Y) == m(X, Y))
        c.ob("number of data qubits", S_["data"].cnt == cd); c.ob("number of faces", S_["square"].cnt + S_["octagon"].cnt == ca)
    def havoc(vals):
        yv, xv = loc["v"]; kind = E.choose(3); j = fresh("j"); loc["k"], loc["j"] = kind, j
        E.assume(z3.And(j >= 1, j <= T))
        y, xm, cd, ca = state(kind, j); n = fresh("oct"); 
        for k, m in below(y).items(): S_[k].put(m, {"data": cd, "square": ca - n, "octagon": n}[k])
        return {yv: V(y), xv: V(xm) if xm is not None else V(fresh("xm"))}
    def step(old, new):
        kind, j = loc["k"], loc["j"]
        if kind == 2: c.ob("the loop ends above the last row", False); return
        # the next state: the following block, or above the last row
        yv, xv = loc["v"]
        if E.entails(lift(new[yv]) == 3 * T + 2): chk(2, None, new)
        else: chk(1, z3.IntVal(1) if kind == 0 else j + 1, new); c.ob("block number in range", (1 if kind == 0 else j + 1) <= T)
    WhileHook(c, "add_qubits", init, havoc, step)
    def post(r):
        X, Y = fresh("sx"), fresh("sy")
        c.ob("data qubits of the lattice", S_["data"].mem(X, Y) == soD(X, Y, T))
        c.ob("squares of the lattice", S_["square"].mem(X, Y) == soF(X, Y, T, True)); c.ob("octagons of the lattice", S_["octagon"].mem(X, Y) == soF(X, Y, T, False))
        a = o.ancilla_qubits
        c.ob("faces are the squares and the octagons", isinstance(a, GSet) and E.entails(a.mem(X, Y) == z3.Or(soF(X, Y, T, True), soF(X, Y, T, False))))
        d = 2 * T + 1
        c.ob("documented number of qubits (d^2 - 1) / 2 + d", 2 * S_["data"].cnt == d * d - 1 + 2 * d)
        c.ob("twice as many faces as qubits minus one", 2 * a.cnt == S_["data"].cnt - 1)
    c.run(lambda: o.add_qubits(), post, frame=False)

# ------------------------------------------------------------------ geometry: faces of even weight, even overlaps, independence
HEXN = [(-1, 1), (-2, 0), (-1, -1), (1, -1), (2, 0), (1, 1)]
SQN = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
OCN = [(-2, -1), (-1, -2), (1, -2), (2, -1), (2, 1), (1, 2), (-1, 2), (-2, 1)]
def geometry(c, D_, kinds, key):
    """kinds: list of (name, membership, offsets); key: linear order of the faces (by displacement)"""
    def cnt(bs): return z3.Sum(*[b01(b) for b in bs])
    for nm, F, offs in kinds:
        x, y = fresh("x"), fresh("y")
        E.ctxs.append(core.Ctx([]))
        try:
            E.assume(F(x, y))
            ins = [D_(x + a, y + b) for a, b in offs]
            c.ob(f"{nm}: even number of qubits", cnt(ins) % 2 == 0)
            c.ob(f"{nm}: at least four qubits", cnt(ins) >= 4)
            # a qubit that otherwise lies only on later faces
            wit = []
            for a, b in offs:
                later = []
                for nm2, F2, offs2 in kinds:
                    for a2, b2 in offs2:
                        dx, dy = a - a2, b - b2
                        if key(dx, dy) > 0 or (nm2 == nm and (dx, dy) == (0, 0)): continue
                        later.append(z3.Not(F2(x + dx, y + dy)))
                wit.append(z3.And(D_(x + a, y + b), *later))
            c.ob(f"{nm}: independent of all later faces (pivot qubit)", z3.Or(*wit))
        finally: E.ctxs.pop()
    for i, (n1, F1, o1) in enumerate(kinds):
        for n2, F2, o2 in kinds[i:]:
            diffs = sorted({(a - a2, b - b2) for a, b in o1 for a2, b2 in o2})
            for dx, dy in diffs:
                if n1 == n2 and (dx, dy) <= (0, 0): continue
                x, y = fresh("x"), fresh("y")
                common = [(a, b) for a, b in o1 if (a - dx, b - dy) in o2]
                c.ob(f"{n1} and {n2} displaced by ({dx}, {dy}): even overlap", z3.Implies(z3.And(F1(x, y), F2(x + dx, y + dy)), cnt([D_(x + a, y + b) for a, b in common]) % 2 == 0))
@contract("C12", HX + ":HexagonalColorCode.add_qubits", "geometry of the lattice (lemmas over the contracts)")
def hexgeo(c):
    t = Nat("t", 1); W = 3 * t.t + 1
    geometry(c, lambda x, y: hexD(x, y, W), [("hexagon", lambda x, y: hexA(x, y, W), HEXN)], lambda dx, dy: 100 * dy + dx)
    c.run(lambda: None, lambda r: None)
@contract("C12", SO + ":SquareOctagonColorCode.add_qubits", "geometry of the lattice (lemmas over the contracts)")
def sogeo(c):
    t = Nat("t", 1); T = t.t
    geometry(c, lambda x, y: soD(x, y, T), [("square", lambda x, y: soF(x, y, T, True), SQN), ("octagon", lambda x, y: soF(x, y, T, False), OCN)], lambda dx, dy: -6 * dx - dy)
    c.run(lambda: None, lambda r: None)

# ------------------------------------------------------------------ adjacency lists and check matrix
class Lists:
    """qubit -> list of faces in the order of processing: [f for f in 0..done-1 if adjacent(f, qubit)] plus what was appended since"""
    def __init__(self, c): self.c = c; self.keys = z3.IntVal(0); self.new = []; self.ok = True; self._vc_born = born()
    def _vc_save(self): return self.keys, list(self.new), self.ok
    def _vc_load(self, s): self.keys, self.new, self.ok = s[0], list(s[1]), s[2]
    def reset(self, keys): E.touch(self); self.keys, self.new = keys, []
    def __setitem__(self, k, v):
        self.c.ob("adjacency lists start empty, one per qubit in order", z3.And(lift(k) == self.keys, z3.BoolVal(isinstance(v, PList) and v.is_concrete() and len(v.concrete()) == 0)))
        E.touch(self); self.keys = self.keys + 1
    def __getitem__(self, k):
        self.c.ob("the list of the qubit exists", z3.And(lift(k) >= 0, lift(k) < self.keys))
        me = self
        class Hdl:
            def append(s, v): E.touch(me); me.new = me.new + [(lift(k), lift(v))]
        return Hdl()
class Rows:
    def __init__(self): self.new = []; self._vc_born = born()
    def _vc_save(self): return list(self.new)
    def _vc_load(self, s): self.new = list(s)
    def __setitem__(self, k, v): E.touch(self); self.new = self.new + [(lift(k), v)]
def layout(modn, cls, kinds, case=(0, ())):
    """kinds: list of (attribute, offsets) in the order in which faces are numbered; case: loop and truth values of the first
    neighbour memberships (a complete case split over several contracts, so that they run in parallel)"""
    @contract("C12", f"{modn}:{cls}.construct_layout", "construct_layout" + "".join(" in" if v else " out" for v in case[1]))
    def f(c):
        n = Nat("n", 1); D_ = z3.Function("D", I, I, B); IDX = z3.Function("IDX", I, I, I); EX, EY = z3.Function("EX", I, I), z3.Function("EY", I, I)
        i, a, b = z3.Ints("li la lb")
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), z3.And(D_(EX(i), EY(i)), IDX(EX(i), EY(i)) == i)), patterns=[EX(i)]))
        E.assume(z3.ForAll([a, b], z3.Implies(D_(a, b), z3.And(IDX(a, b) >= 0, IDX(a, b) < n.t, EX(IDX(a, b)) == a, EY(IDX(a, b)) == b)), patterns=[IDX(a, b)]))
        data = PList([("s", n, lambda i: (V(EX(lift(i))), V(EY(lift(i)))))])
        ms, AX, AY, attrs = [], [], [], {}
        for j, (at, offs) in enumerate(kinds):
            m = Nat(f"m{j}", 1); fx, fy = z3.Function(f"AX{j}", I, I), z3.Function(f"AY{j}", I, I)
            ms.append(m); AX.append(fx); AY.append(fy)
            attrs[at] = PList([("s", m, (lambda fx, fy: lambda i: (V(fx(lift(i))), V(fy(lift(i)))))(fx, fy))])
        base = [z3.IntVal(0)]
        for m in ms: base.append(base[-1] + m.t)
        tot = mk(simp(base[-1]))
        def ADJ(fc, q):
            """face fc contains qubit q: the qubit sits at one of the face's neighbour positions"""
            r = z3.BoolVal(False)
            for j in range(len(kinds)):
                g = fc - base[j]
                r = z3.If(z3.And(fc >= base[j], fc < base[j + 1]), z3.Or(*[z3.And(EX(q) == AX[j](g) + dx, EY(q) == AY[j](g) + dy) for dx, dy in kinds[j][1]]), r)
            return r
        q2f, f2q = Lists(c), Rows()
        zero = A.SArr((tot, n), lambda i, j: z3.IntVal(0), "i")
        o = c.obj(modn, cls, data_qubits=data, qubits_to_faces=q2f, faces_to_qubits=f2q, H=zero, **attrs)
        o.compute_logical = lambda: None
        loc = {"done": 0}
        def coords():
            ds = [v for v in h.free.values() if isinstance(v, PDict)]
            if len(ds) != 1: raise Unsupported("coordinate table")
            return ds[0]
        def setd(k):
            d = coords(); E.touch(d); d.items_ = []
            key = lambda q: (lift(q[0]), lift(q[1]))
            d.default = (lambda q: mk(z3.And(D_(*key(q)), IDX(*key(q)) < k)), lambda q: V(IDX(*key(q))))
        def Hk(k): return A.SArr((tot, n), lambda i, j: b01(z3.And(i < k, ADJ(i, j))), "i")
        def init(vals, cnt):
            if h.hit == 1:
                c.ob("first loop over the data qubits", cnt == n.t); c.ob("empty coordinate table", len(coords().items_) == 0 and coords().default is None)
            else:
                j = h.hit - 2
                c.ob("one loop per kind of face, in the order of numbering", j < len(kinds) and E.entails(cnt == ms[j].t))
        def havoc(vals, k):
            if h.hit == 1: setd(k); q2f.reset(k)
            else:
                q2f.reset(n.t); E.touch(f2q); f2q.new = []
                o.H = Hk(base[h.hit - 2] + k)
                j = h.hit - 2
                if j == case[0] and not k.eq(ms[j].t):
                    for v, (dx, dy) in zip(case[1], kinds[j][1]):
                        E.assume(D_(AX[j](k) + dx, AY[j](k) + dy) == v)
            return {}
        def listing(tag, qs, face, j):
            """qs are exactly the qubits of the face, each once"""
            g = face - base[j]; gs = [z3.And(e >= 0, e < n.t, ADJ(face, e)) for e in qs]
            for dx, dy in kinds[j][1]:
                x, y = AX[j](g) + dx, AY[j](g) + dy
                gs.append(z3.Implies(D_(x, y), z3.Or(*[e == IDX(x, y) for e in qs])))
            if len(qs) > 1: gs.append(z3.Distinct(*qs))
            return z3.And(*gs)
        def step(old, new, k, how):
            c.ob("the loop goes on", how == "next")
            if h.hit == 1:
                d = coords(); x, y = fresh("x"), fresh("y"); q = (V(x), V(y))
                c.ob("coordinate table: keys", to_bool(lift(d.has(q))) == z3.And(D_(x, y), IDX(x, y) < k + 1))
                E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(D_(x, y), IDX(x, y) < k + 1))
                    c.ob("coordinate table: values", lift(d._get(q)) == IDX(x, y))
                finally: E.ctxs.pop()
                c.ob("one list per qubit", q2f.keys == k + 1)
            else:
                j = h.hit - 2; face = base[j] + k
                c.ob("the face is appended, nothing else", z3.And(*[v == face for _, v in q2f.new], z3.BoolVal(True)))
                qs = [q for q, _ in q2f.new]
                c.ob("qubit-to-face lists: exactly the qubits of the face, each once", listing(None, qs, face, j))
                if c.ob("one qubit list per face", len(f2q.new) == 1 and z3.eq(simp(f2q.new[0][0] - face), z3.IntVal(0)) or E.entails(f2q.new[0][0] == face)):
                    q2 = [lift(e) for e in seqs.as_plist(f2q.new[0][1]).concrete()]
                    c.ob("face-to-qubit list: exactly the qubits of the face, each once", z3.BoolVal(True) if len(qs) == len(q2) and all(z3.eq(x, y) for x, y in zip(qs, q2)) else listing(None, q2, face, j))
                a_, b_ = fresh("hf"), fresh("hq")
                c.ob("check matrix: row of the face set, others unchanged", z3.Implies(z3.And(a_ >= 0, a_ < tot.t if isinstance(tot, V) else tot, b_ >= 0, b_ < n.t), o.H.at(a_, b_) == b01(z3.And(a_ < face + 1, ADJ(a_, b_)))))
        h = LoopHook(c, "construct_layout", init, havoc, step)
        def post(r):
            c.ob("all loops have run", h.hit == 1 + len(kinds))
            arr_is(c, "check matrix row = qubits of the face", o.H, (tot, n), lambda i, j: b01(ADJ(i, j)))
        c.run(lambda: o.construct_layout(), post, frame=False)
import itertools
for cs in itertools.product((True, False), repeat=3):
    layout(SO, "SquareOctagonColorCode", [("square_ancilla_qubits", SQN), ("octagon_ancilla_qubits", OCN)], (1, cs))
for cs in itertools.product((True, False), repeat=1):
    layout(HX, "HexagonalColorCode", [("ancilla_qubits", HEXN)], (0, cs))
@contract("C12", CC + ":ColorCode.__init__")
def ccinit(c):
    cl = c.cls(CC, "ColorCode"); m = c.mod(CC)
    d = Nat("d", 1); n, k = Nat("n"), Nat("k"); log = []
    o = c.obj(CC, "ColorCode")
    def addq():
        log.append("add"); c.ob("the sets start empty", all(len(seqs.as_plist(x).concrete()) == 0 if not isinstance(x, PSet) else True for x in (o.data_qubits, o.ancilla_qubits)))
        o.data_qubits = GSet(c, "data", lambda a, b: z3.BoolVal(True), n.t); o.ancilla_qubits = GSet(c, "faces", lambda a, b: z3.BoolVal(True), k.t)
    Hs = []
    def lay():
        log.append("layout"); Hs.append(o.H)
        arr_is(c, "zero check matrix, one row per face and one column per qubit", o.H, (k, n), lambda i, j: z3.IntVal(0))
        c.ob("adjacency tables start empty", isinstance(o.qubits_to_faces, PDict) and isinstance(o.faces_to_qubits, PDict) and not o.qubits_to_faces.items_ and not o.faces_to_qubits.items_ and o.qubits_to_faces is not o.faces_to_qubits)
    o.add_qubits, o.construct_layout = addq, lay
    lz = Tok("Lz"); lt = Tok("lattice")
    class CSS:
        def __init__(self, *a, **k): pass
    def css(self, dist, hx, hz):
        log.append("css"); c.ob("both check matrices are the face matrix", self is o and hx is Hs[0] and hz is Hs[0] and dist is d); o.Lz = lz
    CSS.__init__ = css
    m.CSSCode = CSS
    def post(r):
        c.ob("qubits, then layout, then code", log == ["add", "layout", "css"])
        c.ob("logical operators", o.L is lz); c.ob("distance and lattice kept", o.distance is d and o.lattice_type is lt)
    c.run(lambda: cl.__init__(o, d, lt), post, frame=False)
