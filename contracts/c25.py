from contracts.lib import *
from vc.sparse import Sp
B_ = "analog_information_decoding.code_construction."
D = B_ + "code_constructor"; S = B_ + "sparse_code_constructor"
NOTES = dict(assumptions=["matrix entries are integers; every algebraic step is matrix multiplication over the integers reduced modulo two",
                          "preconditions: consecutive seed maps compose to zero modulo two and have matching shapes (3D: a1 a2 = 0; 4D: a1 a2 = 0 and a2 a3 = 0)"],
             trusted=["bposd.hgp: its X and Z check matrices are orthogonal modulo two (checked on every generated code by the replay)",
                      "numpy.savetxt and scipy.io.mmwrite write the matrix they are given",
                      "block multiplication and the mixed-product rule for Kronecker products, used to decide vanishing products"],
             outside=["compute_distances*.sh scripts"])
def mats(c, *dims):
    """matrices a1: n0 x n1, a2: n1 x n2, ... with vanishing consecutive products, and the free factor p"""
    alg = matalg_on()
    ms = [sym_array(f"a{i + 1}", (dims[i], dims[i + 1])) for i in range(len(dims) - 1)]
    for x, y in zip(ms, ms[1:]): alg.REL.zero.add((id(x.fn), id(y.fn))); alg.REL.keep += [x.fn, y.fn]
    r, cc = Nat("r", 1), Nat("c", 1)
    p = sym_array("p", (r, cc)); alg.REL.keep.append(p.fn)
    return alg, ms, p, r, cc
def arr(x): return x.arr if isinstance(x, Sp) else x
def prod_zero(c, alg, name, x, y):
    x, y = arr(x), arr(y)
    z = alg.mul(alg.get(x), alg.get(y))
    names = {}
    c.ob(name, z is not None and alg.is_zero(z))
def kr(x, y, r2, c2):
    """entry of the Kronecker product of x and y (y: r2 x c2)"""
    r2, c2 = lift(r2), lift(c2)
    return lambda i, j: to_int(x(i / r2, j / c2)) * to_int(y(i % r2, j % c2))
def idt(i, j): return b01(i == j)
def top(a, p, n_in, r, cc):
    """[a (x) I_r | I (x) p]; a has n_in columns"""
    k1, k2 = kr(a, idt, r, r), kr(idt, p, r, cc)
    w = (n_in * r)
    return lambda i, j: z3.If(j < lift(w), k1(i, j), k2(i, j - lift(w)))
def mid(a2, a1, p, n1, n2, r, cc):
    """[[a2 (x) I_r | I (x) p], [0 | a1 (x) I_c]] for a1: n0 x n1, a2: n1 x n2"""
    t = top(a2, p, n2, r, cc); k = kr(a1, idt, cc, cc); h = lift(n1 * r); w = lift(n2 * r)
    return lambda i, j: z3.If(i < h, t(i, j), z3.If(j < w, z3.IntVal(0), k(i - h, j - w)))
def last(a, p, n, r, cc):
    """[I (x) p ; a (x) I_c]; a has n columns"""
    k1, k2 = kr(idt, p, r, cc), kr(a, idt, cc, cc); h = lift(n * r)
    return lambda i, j: z3.If(i < h, k1(i, j), k2(i - h, j))

def three(mod, sp):
    @contract("C25", mod + ":generate_3d_product_code")
    def f(c):
        n0, n1, n2 = Nat("n0", 1), Nat("n1", 1), Nat("n2", 1)
        alg, (a1, a2), p, r, cc = mats(c, n0, n1, n2)
        W = Sp if sp else (lambda x: x)
        def post(res):
            if not c.ob("three maps are returned", isinstance(res, tuple) and len(res) == 3): return
            d1, d2, d3 = res
            prod_zero(c, alg, "first and second map compose to zero", d1, d2)
            prod_zero(c, alg, "second and third map compose to zero", d2, d3)
            arr_is(c, "first map", arr(d1), (n0 * r, n1 * r + n0 * cc), top(a1.at, p.at, n1, r, cc))
            arr_is(c, "second map", arr(d2), (n1 * r + n0 * cc, n2 * r + n1 * cc), mid(a2.at, a1.at, p.at, n1, n2, r, cc))
            arr_is(c, "third map", arr(d3), (n2 * r + n1 * cc, n2 * cc), last(a2.at, p.at, n2, r, cc))
        c.run(lambda: c.fn()(W(a1), W(a2), W(p)), post)
three(D, False); three(S, True)

def four(mod, sp, checks):
    @contract("C25", mod + ":generate_4d_product_code", "with the final check" if checks else "without the final check")
    def f(c):
        n0, n1, n2, n3 = Nat("n0", 1), Nat("n1", 1), Nat("n2", 1), Nat("n3", 1)
        alg, (a1, a2, a3), p, r, cc = mats(c, n0, n1, n2, n3)
        W = Sp if sp else (lambda x: x)
        def post(res):
            if not c.ob("four maps are returned", isinstance(res, tuple) and len(res) == 4): return
            d1, d2, d3, d4 = res
            prod_zero(c, alg, "first and second map compose to zero", d1, d2)
            prod_zero(c, alg, "second and third map compose to zero", d2, d3)
            prod_zero(c, alg, "third and fourth map compose to zero", d3, d4)
            arr_is(c, "first map", arr(d1), (n0 * r, n1 * r + n0 * cc), top(a1.at, p.at, n1, r, cc))
            arr_is(c, "second map", arr(d2), (n1 * r + n0 * cc, n2 * r + n1 * cc), mid(a2.at, a1.at, p.at, n1, n2, r, cc))
            arr_is(c, "third map", arr(d3), (n2 * r + n1 * cc, n3 * r + n2 * cc), mid(a3.at, a2.at, p.at, n2, n3, r, cc))
            arr_is(c, "fourth map", arr(d4), (n3 * r + n2 * cc, n3 * cc), last(a3.at, p.at, n3, r, cc))
        c.run(lambda: c.fn()(W(a1), W(a2), W(a3), W(p), checks), post)
for ch in (True, False): four(D, False, ch); four(S, True, ch)

def checks(mod, sp):
    @contract("C25", mod + ":run_checks_scipy", "accepts exactly vanishing products")
    def f(c):
        n = [Nat(f"n{i}", 1) for i in range(5)]
        ds = [sym_array(f"d{i}", (n[i], n[i + 1])) for i in range(4)]
        W = Sp if sp else (lambda x: x)
        def vanish(i):
            x, y, k = ds[i], ds[i + 1], n[i + 1]
            return lambda a, b: z3.Not(par(0, lift(k), lambda t: z3.And(odd(x.at(a, t)), odd(y.at(t, b)))))
        def ex_(e):
            c.ob("the error is the declared one", isinstance(e, RuntimeError))
            E.ctxs.append(core.Ctx([]))
            try:
                for i in range(3):
                    a, b = fresh("a"), fresh("b")
                    E.assume(z3.ForAll([a, b], z3.Implies(z3.And(rng(a, n[i]), rng(b, n[i + 2])), vanish(i)(a, b))))
                c.ob("an error is raised only when some composition is nonzero", z3.BoolVal(False))
            finally: E.ctxs.pop()
        def post(r):
            for i in range(3):
                a, b = fresh("a"), fresh("b")
                c.ob(f"accepted only when composition {i + 1} vanishes", z3.Implies(z3.And(rng(a, n[i]), rng(b, n[i + 2])), vanish(i)(a, b)))
        c.run(lambda: c.fn()(*[W(d) for d in ds]), post, raises=ex_, frame=False)
checks(D, False); checks(S, True)

class Hgp:
    pass
def create(mod, sp, logicals, distance):
    @contract("C25", mod + ":create_code", f"logicals={logicals} distance={distance}")
    def f(c):
        alg = matalg_on()
        n = [Nat(f"n{i}", 1) for i in range(7)]
        seeds = [sym_array(f"h{i}", (Nat(f"hr{i}", 1), Nat(f"hc{i}", 1))) for i in range(4)]
        m = c.mod(mod)
        hx, hz = sym_array("hgp_hx", (n[0], n[1])), sym_array("hgp_hz", (n[2], n[1]))
        log = []
        alg.REL.keep += [hx.fn, hz.fn]
        def hgp(a, b):
            c.ob("the product code is built from the first two seeds", a is seeds[0] and b is seeds[1])
            o = Hgp(); o.hx, o.hz = hx, hz; return o
        m.hgp = hgp
        W = Sp if sp else (lambda x: x)
        from vc.matalg import transpose
        def is_mat(x, y):
            x, y = arr(x), arr(y)
            return A.dims_eq(x._shape[0], y._shape[0]) and A.dims_eq(x._shape[1], y._shape[1]) and alg.equal(alg.get(x), alg.get(y))
        d3 = [sym_array(f"e{i}", (n[2 + i], n[3 + i])) for i in range(3)]
        d4 = [sym_array(f"d{i}", (n[2 + i], n[3 + i])) for i in range(4)]
        for L in (d3, d4):
            for x, y in zip(L, L[1:]): alg.REL.zero.add((id(x.fn), id(y.fn)))
            alg.REL.keep += [x.fn for x in L]
        def g3(a1, a2, p):
            log.append("3d")
            c.ob("callee precondition: seed maps of the 3D product compose to zero", is_mat(a1, hx) and is_mat(a2, hz.T))
            c.ob("the third seed is the free factor", is_mat(p, seeds[2]))
            return tuple(W(x) for x in d3)
        def g4(a1, a2, a3, p, checks=True):
            log.append("4d")
            c.ob("callee precondition: seed maps of the 4D product are the 3D chain", is_mat(a1, d3[0]) and is_mat(a2, d3[1]) and is_mat(a3, d3[2]))
            c.ob("the fourth seed is the free factor", is_mat(p, seeds[3]))
            return tuple(W(x) for x in d4)
        m.generate_3d_product_code = g3
        if not sp: m.generate_4d_product_code = g4
        lx, lz = Tok("lx"), Tok("lz")
        chain = d3 if sp else d4
        HX, HZ = (d3[0], d3[1].T) if sp else (d4[1], d4[2].T)
        def logi(a, b):
            log.append("log"); c.ob("logical operators of the returned check matrices", is_mat(a, HX) and is_mat(b, HZ)); return lx, lz
        if sp: m.code_constructor._compute_logicals = logi
        else: m._compute_logicals = logi
        saved = []
        def save_d(hx, hz, mx, mz, codename, lx, lz): saved.append((hx, hz, mx, mz, codename, lx, lz))
        def save_s(hx, hz, mz, codename, lx=None, lz=None): saved.append((hx, hz, None, mz, codename, lx, lz))
        m.save_code = save_s if sp else save_d
        name = Tok("codename")
        def dist(a, b, cn):
            log.append("dist"); c.ob("distances are computed for the stored check matrices", is_mat(a, HX) and is_mat(b, HZ) and cn is name)
        m._compute_distances = dist
        def store(a, b, cn):
            log.append("store"); c.ob("parameters are stored for the sparse check matrices", isinstance(a, Sp) and isinstance(b, Sp) and is_mat(a, HX) and is_mat(b, HZ) and cn is name)
        if sp: m._store_code_params = store
        def post(r):
            c.ob("the code is stored", len(saved) > 0)
            for (a, b, mx, mz, cn, l1, l2) in saved:
                c.ob("X checks stored under hx", is_mat(a, HX)); c.ob("Z checks stored under hz", is_mat(b, HZ))
                if not sp: c.ob("X meta checks stored under mx", is_mat(mx, d4[0]))
                c.ob("Z meta checks stored under mz", is_mat(mz, (d3[2] if sp else d4[3]).T))
                c.ob("stored under the given name", cn is name)
                # consequences of the callee contracts
                c.ob("X and Z checks are orthogonal", (lambda z: z is not None and alg.is_zero(z))(alg.mul(alg.get(arr(a)), alg.transpose(alg.get(arr(b))))))
                if not sp: prod_zero(c, alg, "X meta checks annihilate the X checks", mx, a)
                prod_zero(c, alg, "Z meta checks annihilate the Z checks", mz, b)
            if saved: c.ob("logical operators are stored exactly when they were requested", (saved[-1][5] is lx and saved[-1][6] is lz) if logicals else (saved[-1][5] is None and saved[-1][6] is None))
            c.ob("distances are computed exactly when requested", log.count("dist") == (1 if distance else 0))
        c.run(lambda: c.fn()("hgp", PList.of(seeds[:3] if sp else seeds), name, compute_distance=distance, compute_logicals=logicals), post, frame=False)
for lg in (True, False):
    for di in (True, False): create(D, False, lg, di); create(S, True, lg, di)
@contract("C25", D + ":create_code", "unknown constructor")
def unk(c):
    c.run(lambda: c.fn()("lp", PList.of([]), "x"), lambda r: c.ob("an unknown constructor is rejected", False), raises=lambda e: c.ob("rejected with ValueError", isinstance(e, ValueError)))
@contract("C25", S + ":create_code", "unknown constructor")
def unk2(c):
    c.run(lambda: c.fn()("lp", PList.of([]), "x"), lambda r: c.ob("an unknown constructor is rejected", False), raises=lambda e: c.ob("rejected with ValueError", isinstance(e, ValueError)))

@contract("C25", S + ":_store_code_params")
def store(c):
    m = c.mod(S)
    r1, r2, n = Nat("rx", 1), Nat("rz", 1), Nat("n", 1)
    hx, hz = binmat("hx", r1, n), binmat("hz", r2, n)
    out = []
    class F:
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def write(self, s): out.append(s)
    class P:
        def __init__(self, p): self.p = p
        def open(self, mode="r", encoding=None): c.ob("opened for writing", mode == "w"); return F()
    m.Path = P
    m.json = type("J", (), {"dumps": staticmethod(lambda d: d)})
    def post(r):
        if not c.ob("one record is written", len(out) == 1 and isinstance(out[0], PDict)): return
        d = out[0]
        c.ob("number of qubits", lift(d["n"]) == n.t)
        c.ob("number of logical qubits is n minus both ranks", lift(d["k"]) == n.t - lift(mod2.rank(hx)) - lift(mod2.rank(hz)))
    c.run(lambda: c.fn()(Sp(hx), Sp(hz), Tok("codename")), post, frame=False)

@contract("C25", D + ":_compute_logicals")
def logicals(c):
    n, r1, r2 = Nat("n", 1), Nat("r1"), Nat("r2")
    hx, hz = binmat("hx", r1, n), binmat("hz", r2, n)
    def post(res):
        if not c.ob("X and Z logicals are returned", isinstance(res, tuple) and len(res) == 2): return
        for tag, L, H in (("X", res[0], hz), ("Z", res[1], hx)):
            i, q = z3.Ints("ri rq"); m = H._shape[0]
            c.ob(f"{tag} logicals have one entry per qubit", L.ndim == 2 and A.dims_eq(L._shape[1], A.dim(n)))
            c.ob(f"every {tag} logical operator commutes with every check of the opposite type", z3.ForAll([i, q], z3.Implies(z3.And(rng(i, L._shape[0]), rng(q, m)), z3.Not(par(0, n, lambda k: z3.And(H.at(q, k) == 1, L.at(i, k) == 1))))))
        # exactly the pivot rows of the kernel part
        ns = [x for x in mod2.log if x[0] == "nullspace"]; rb = [x for x in mod2.log if x[0] == "row_basis"]; re = [x for x in mod2.log if x[0] == "row_echelon"]
        if not c.ob("kernel, row basis and echelon form computed once per type", len(ns) == 2 and len(rb) == 2 and len(re) == 2): return
        for L, (k_, kb, ke), (m1, rr1), (m2, rr2) in ((res[0], (0, 0, 0), (hz, r2), (hx, r1)), (res[1], (1, 1, 1), (hx, r1), (hz, r2))):
            K, Bs = ns[k_][2], rb[kb][2]
            ba, ka = lift(Bs._shape[0]), lift(K._shape[0])
            arr_is(c, "kernel of the opposite checks", ns[k_][1], (rr1, n), lambda i, j: m1.at(i, j))
            arr_is(c, "row basis of the own checks", rb[kb][1], (rr2, n), lambda i, j: m2.at(i, j))
            stack = lambda i, j: z3.If(i < ba, Bs.at(i, j), K.at(i - ba, j))
            arr_is(c, "echelon form of the transposed stack", re[ke][1], (n, mk(ba + ka)), lambda i, j: stack(j, i))
            piv = re[ke][2]
            cnt, sel, inv = seqs.sel_fn(mk(ka), lambda i: mk(piv(lift(i) + ba)))
            arr_is(c, "pivot rows of the kernel part, in order", L, (cnt, n), lambda i, j: K.at(sel(i), j))
    def go():
        mod2.log.clear(); return c.fn()(hx, hz)
    c.run(go, post)

def save(mod, sp, lg):
    @contract("C25", mod + ":save_code", "with logicals" if lg else "without logicals")
    def f(c):
        m = c.mod(mod)
        n, rx, rz, qx, qz, k = (Nat(x, 1) for x in ("n", "rx", "rz", "qx", "qz", "k"))
        W = Sp if sp else (lambda x: x)
        hx, hz, mx, mz = W(sym_array("hx", (rx, n))), W(sym_array("hz", (rz, n))), W(sym_array("mx", (qx, rx))), W(sym_array("mz", (qz, rz)))
        lx, lz = (sym_array("lx", (k, n)), sym_array("lz", (k, n))) if lg else (None, None)
        txt, mtx = [], []
        m.create_outpath = lambda cn: loops.FStr([loops.FPart(cn, None, "")]) if False else "OUT/"
        class Sio: pass
        m.sio = Sio(); m.sio.mmwrite = lambda p, a, **k: mtx.append((p, a))
        npx = type("NPX", (), {"__getattr__": lambda s, x: getattr(np, x)})()
        object.__setattr__(npx, "savetxt", lambda p, a, fmt=None: txt.append((p, a, fmt)))
        m.np = npx
        want = {"hx": hx, "hz": hz, "mz": mz}
        if not sp: want["mx"] = mx
        if lg: want.update(lx=lx, lz=lz)
        def same(a, b): 
            a, b = arr(a), arr(b)
            x, y = a.snapshot(), b.snapshot()
            i, j = fresh("i"), fresh("j")
            return A.dims_eq(x._shape[0], y._shape[0]) and A.dims_eq(x._shape[1], y._shape[1]) and E.entails(z3.Implies(z3.And(rng(i, x._shape[0]), rng(j, x._shape[1])), lift(x.at(i, j)) == lift(y.at(i, j))))
        def post(r):
            for ext, lst in ((".txt", txt), (".mtx", mtx)):
                got = {}
                for e in lst:
                    t = text(e[0]); c.ob("file names are formed from the given names", len(t) == 1 and isinstance(t[0], str)); got[t[0]] = e[1]
                c.ob(f"exactly the given matrices are written as {ext}", len(got) == len(lst) and set(got) == {"OUT/" + w + ext for w in want})
                for w, v in want.items():
                    if "OUT/" + w + ext in got: c.ob(f"{w}{ext} holds the {w} matrix", same(got["OUT/" + w + ext], v))
            c.ob("integers are written", all(e[2] == "%i" for e in txt))
        name = Tok("codename")
        c.run((lambda: c.fn()(hx, hz, mz, name, lx, lz)) if sp else (lambda: c.fn()(hx, hz, mx, mz, name, lx, lz)), post, frame=False)
for lg in (True, False): save(D, False, lg); save(S, True, lg)
