from contracts.lib import *
from vc import cxx
NOTES = dict(assumptions=["check matrices are rectangular (every row has the same length)", "integers are mathematical; allocation does not fail"],
             trusted=["std::vector (at checks its index, copies are independent, a sized constructor fills with its value), std::move over iterators copies the elements in order"],
             outside=["reading matrices from files"],
             explanation="the functions are transliterated from clang's AST of the repository's sources; results are compared entry by entry with the parity formula for every shape and content, and every input of a wrong length is obliged to end in an exception")
def bmat(n, r, c): return sym_array(n, (r, c), kind="b", binary=True)
def bvec(n, k): return sym_array(n, (k,), kind="b", binary=True)
def unit(c):
    env, rt, dig = cxx.load("src/Utils.cpp", ["Utils::"], "Utils", extra=[("include/Code.hpp", "Code"), ("include/Code.hpp", "ParityCheckMatrix")], only=KEEP)
    c.cx = rt; return env, rt
KEEP = {"ParityCheckMatrix"} | {("Utils", n) for n in ("getTranspose", "rectMatrixMultiply", "assertMatrixPresent", "assertVectorPresent", "computeResidualErr", "toCsc", "swapRows")} | {"Code"}
def rej(c, why):
    def f(e):
        if isinstance(e, cxx.UB): c.ob("no undefined behaviour (" + str(e) + ")", False); return
        c.ob("an exception is thrown only for input that does not fit (" + type(e).__name__ + ")", z3.And(why) if isinstance(why, list) else why)
    return f
def parity(H, e, i, n): return par(0, lift(n), lambda k: z3.And(H.at(i, k), e.at(k)))

@contract("C01", "src/Utils.cpp:Utils.rectMatrixMultiply")
def mult(c):
    env, rt = unit(c); U = env["Utils"]
    m, n, l, q = Nat("m", 0), Nat("n", 0), Nat("l", 0), Nat("q", 0)
    H, e = bmat("H", m, n), bvec("e", l); res = bvec("res", q); old = res.copy()
    fits = z3.And(m.t > 0, n.t > 0, l.t == n.t, q.t >= m.t)
    def post(r):
        c.ob("a vector or result of the wrong length is not accepted", fits)
        arr_is(c, "result: previous content plus the parity of every row", res, (q,), lambda i: z3.If(i < m.t, z3.Xor(old.at(i), parity(H, e, i, n)), old.at(i)))
    c.run(lambda: U.rectMatrixMultiply(H, e, res), post, raises=rej(c, z3.Not(fits)), modifies=[res])
@contract("C01", "src/Utils.cpp:Utils.getTranspose")
def transpose(c):
    env, rt = unit(c); m, n = Nat("m", 0), Nat("n", 0); H = bmat("H", m, n)
    def post(r):
        c.ob("an empty matrix is not accepted", z3.And(m.t > 0, n.t > 0))
        arr_is(c, "transposed entries", r, (n, m), lambda i, j: H.at(j, i))
    c.run(lambda: env["Utils"].getTranspose(H), post, raises=rej(c, z3.Or(m.t == 0, n.t == 0)))
@contract("C01", "src/Utils.cpp:Utils.computeResidualErr")
def residual(c):
    env, rt = unit(c); n, l = Nat("n", 0), Nat("l", 0); e, r0 = bvec("e", l), bvec("r", n); old = r0.copy()
    def post(r):
        c.ob("an error shorter than the residual is not accepted", l.t >= n.t)
        arr_is(c, "residual: exclusive or, entry by entry", r0, (n,), lambda i: z3.Xor(old.at(i), e.at(i)))
    c.run(lambda: env["Utils"].computeResidualErr(e, r0), post, raises=rej(c, l.t < n.t), modifies=[r0])
@contract("C01", "src/Utils.cpp:Utils.toCsc")
def csc(c):
    env, rt = unit(c); m, n = Nat("m", 1), Nat("n", 0); H = bmat("H", m, n)
    def post(r):
        c.ob("one list per column", lift(loops.b_len(r)) == n.t)
        j = fresh("j"); E.assume(z3.And(j >= 0, j < n.t)); col = r[V(j)]
        k = fresh("k"); ln = lift(loops.b_len(col))
        i = fresh("i"); E.assume(z3.And(i >= 0, i < m.t))
        c.ob("a row is listed exactly if its entry is one", to_bool(lift(loops.contains(col, V(i)))) == H.at(i, j))
        E.assume(z3.And(k >= 0, k < ln)); v = lift(col[V(k)])
        c.ob("listed rows are rows of the matrix", z3.And(v >= 0, v < m.t))
        E.assume(k + 1 < ln); c.ob("no row is listed twice: rows are listed in increasing order", v < lift(col[V(k + 1)]))
    c.run(lambda: env["Utils"].toCsc(H), post)
@contract("C01", "src/Utils.cpp:Utils.toCsc", "csc_empty")
def csc_empty(c):
    env, rt = unit(c); H = bmat("H", 0, 0)
    c.run(lambda: env["Utils"].toCsc(H), lambda r: c.ob("no columns", lift(loops.b_len(r)) == 0))

def code(c, env, two):
    m, n, p = Nat("m", 1), Nat("n", 1), Nat("p", 1)
    HZ = bmat("HZ", m, n); HX = bmat("HX", p, n) if two else None
    a = [HX, HZ] if two else [HZ]
    return m, n, p, HX, HZ, a
def ub(e): return isinstance(e, cxx.UB)
@contract("C01", "include/Code.hpp:Code.Code")
def ctor1(c):
    env, rt = unit(c); m, n = Nat("m", 0), Nat("n", 0); HZ = bmat("HZ", m, n)
    def post(r):
        arr_is(c, "the matrix is stored as given", r.hZ.pcm, (m, n), lambda i, j: HZ.at(i, j)); c.ob("number of qubits", lift(r.n) == n.t); c.ob("single-sided", r.hX is None)
        c.ob("stored copy is its own", r.hZ.pcm is not HZ)
    c.run(lambda: env["Code"](HZ), post, raises=rej(c, z3.Or(m.t == 0, n.t == 0)))
@contract("C01", "include/Code.hpp:Code.Code", "ctor2")
def ctor2(c):
    env, rt = unit(c); m, n, p, q = Nat("m", 0), Nat("n", 0), Nat("p", 0), Nat("q", 0); HZ = bmat("HZ", m, n); HX = bmat("HX", p, q)
    def post(r):
        arr_is(c, "the Z checks are stored as given", r.hZ.pcm, (m, n), lambda i, j: HZ.at(i, j)); arr_is(c, "the X checks are stored as given", r.hX.pcm, (p, q), lambda i, j: HX.at(i, j)); c.ob("number of qubits", lift(r.n) == n.t)
    c.run(lambda: env["Code"](HX, HZ), post, raises=rej(c, z3.Or(m.t == 0, n.t == 0, p.t == 0, q.t == 0, n.t != q.t)))
def check_list(c, what, r, n, spec):
    c.ob(what + ": one bit per check", lift(rtsize(r)) == lift(n)); i = fresh("i"); E.assume(z3.And(i >= 0, i < lift(n)))
    c.ob(what + ": parity of the overlap", to_bool(lift(r[V(i)])) == spec(i))
def rtsize(r): return r._shape[0] if isinstance(r, A.SArr) else loops.b_len(r)
def syndrome(name, two):
    @contract("C01", "include/Code.hpp:Code.getXSyndrome", name)
    def f(c):
        env, rt = unit(c); m, n, p, HX, HZ, a = code(c, env, two); l = Nat("l", 0); e = bvec("e", l)
        def go(): return env["Code"](*a).getXSyndrome(e)
        def post(r):
            c.ob("an error of the wrong length is not accepted", z3.Or(l.t == n.t, l.t == 2 * n.t) if two else l.t == n.t)
            if two and E.entails(l.t == 2 * n.t):
                spec = lambda i: z3.If(i < m.t, parity(HZ, e, i, n), par(0, n.t, lambda k: z3.And(HX.at(i - m.t, k), e.at(n.t + k))))
                check_list(c, "two-sided error: Z checks on the X part, then X checks on the Z part", r, m.t + p.t, spec)
            else: check_list(c, "one-sided error", r, m, lambda i: parity(HZ, e, i, n))
        c.run(go, post, raises=rej(c, z3.And(l.t != n.t, l.t != 2 * n.t) if two else l.t != n.t))
syndrome("x_syndrome_one", False); syndrome("x_syndrome_two", True)
def syndrome2(name, two):
    @contract("C01", "include/Code.hpp:Code.getSyndrome", name)
    def f(c):
        env, rt = unit(c); m, n, p, HX, HZ, a = code(c, env, two); l, q = Nat("l", 0), Nat("q", 0); e, z = bvec("e", l), bvec("z", q)
        ok = z3.And(l.t == n.t, q.t == n.t) if two else z3.BoolVal(False)
        def post(r):
            c.ob("errors of the wrong length are not accepted", ok)
            check_list(c, "Z checks on the X part, then X checks on the Z part", r, m.t + p.t, lambda i: z3.If(i < m.t, parity(HZ, e, i, n), par(0, n.t, lambda k: z3.And(HX.at(i - m.t, k), z.at(k)))))
        c.run(lambda: env["Code"](*a).getSyndrome(e, z), post, raises=rej(c, z3.Not(ok)))
syndrome2("syndrome_one", False); syndrome2("syndrome_two", True)
