from contracts.lib import *
M = "codes.stabilizer_code"
ch = ord

def paulistr(n):
    """n symbolic letters, each I/X/Y/Z"""
    p = symstr("p", n)
    k = fresh("k")
    E.assume(z3.ForAll([k], z3.Implies(rng(k, n), z3.Or(*[p.fn(k) == ord(x) for x in "IXYZ"])), patterns=[p.fn(k)]))
    return p

def is_x(t): return z3.Or(t == ord("X"), t == ord("Y"))
def is_z(t): return z3.Or(t == ord("Z"), t == ord("Y"))

@contract("C11", M + ":pauli_to_binary")
def pauli_to_binary_unsigned(c):
    n = Nat("n", 1); p = paulistr(n)
    c.run(lambda: c.fn()(p), lambda r: arr_is(c, "unsigned", r, (2 * n + 1,), lambda i: z3.If(i < n.t, b01(is_x(p.fn(i))), z3.If(i < 2 * n.t, b01(is_z(p.fn(i - n.t))), 0))))

@contract("C11", M + ":pauli_to_binary")
def pauli_to_binary_signed(c):
    n = Nat("n", 1); p = paulistr(n)
    for s in "+-":
        q = s + p
        c.run(lambda: c.fn()(q), lambda r: arr_is(c, f"sign {s}", r, (2 * n + 1,), lambda i: z3.If(i < n.t, b01(is_x(p.fn(i))), z3.If(i < 2 * n.t, b01(is_z(p.fn(i - n.t))), 1 if s == "-" else 0))))

@contract("C11", M + ":pauli_to_binary")
def pauli_to_binary_array(c):
    n = Nat("n", 1); v = binvec("v", 2 * n + 1)
    c.run(lambda: c.fn()(v), lambda r: arr_is(c, "array argument is returned unchanged", r, (2 * n + 1,), lambda i: v.at(i)))

@contract("C11", M + ":binary_to_pauli_string")
def binary_to_pauli(c):
    n = Nat("n", 1); b = binvec("b", 2 * n + 1)
    def post(r):
        r = seqs.as_sstr(r)
        neg = E.entails(b.at(2 * n.t) == 1)
        off = 1 if neg else 0
        c.ob("sign iff phase", z3.BoolVal(True) if neg else b.at(2 * n.t) == 0)
        c.ob("length", lift(r.n) == n.t + off)
        if neg: c.ob("minus sign first", r.fn(z3.IntVal(0)) == ord("-"))
        i = z3.Int("i")
        x, z = b.at(i) == 1, b.at(n.t + i) == 1
        c.ob("letters", z3.Implies(rng(i, n), r.fn(i + off) == z3.If(x, z3.If(z, ord("Y"), ord("X")), z3.If(z, ord("Z"), ord("I")))))
    c.run(lambda: c.fn()(b), post)

@contract("C11", M + ":binary_to_pauli_string", "roundtrip")
def roundtrip(c):
    """string -> binary -> string is the identity (a leading + is dropped)"""
    n = Nat("n", 1); p = paulistr(n)
    f, g = c.fn(M + ":pauli_to_binary"), c.fn(M + ":binary_to_pauli_string")
    for s in ("", "+", "-"):
        q = s + p if s else p
        want = q if s != "+" else p
        def post(r):
            r = seqs.as_sstr(r)
            c.ob(f"roundtrip '{s}' length", lift(r.n) == lift(want.n))
            i = z3.Int("i")
            c.ob(f"roundtrip '{s}' letters", z3.Implies(rng(i, want.n), r.fn(i) == want.fn(i)))
        c.run(lambda: g(f(q)), post)

@contract("C11", M + ":paulis_to_binary")
def paulis_to_binary(c):
    n, m = Nat("n", 1), Nat("m", 1)
    rows = [paulistr(n)]
    f = z3.Function("ps", I, I, I)
    k, j = fresh("k"), fresh("j")
    E.assume(z3.ForAll([j, k], z3.Or(*[f(j, k) == ord(x) for x in "IXYZ"]), patterns=[f(j, k)]))
    ps = PList.of_seq(Seq(m, lambda i: SStr(n, lambda q, i=i: f(lift(i), q))))
    c.run(lambda: c.fn()(ps), lambda r: arr_is(c, "rows", r, (m, 2 * n + 1), lambda a, i: z3.If(i < n.t, b01(is_x(f(a, i))), z3.If(i < 2 * n.t, b01(is_z(f(a, i - n.t))), 0))))

@contract("C11", M + ":is_pauli_string")
def is_pauli_string(c):
    n = Nat("n", 0); p = symstr("p", n)
    j = fresh("j")
    def post(r):
        ok = lambda t: z3.Or(*[t == ord(x) for x in "IXYZ"])
        spec = z3.And(n.t > 0, z3.Or(ok(p.fn(z3.IntVal(0))), p.fn(z3.IntVal(0)) == ord("+"), p.fn(z3.IntVal(0)) == ord("-")),
                      z3.ForAll([j], z3.Implies(rng(j, n, 1), ok(p.fn(j)))))
        c.ob("accepts exactly [+-]?[IXYZ]*", to_bool(lift(r)) == spec)
    c.run(lambda: c.fn()(p), post)

@contract("C11", M + ":get_n_qubits_from_pauli")
def get_n_qubits(c):
    n = Nat("n", 1); p = paulistr(n)
    c.run(lambda: c.fn()(p), lambda r: c.ob("unsigned", lift(r) == n.t))
    c.run(lambda: c.fn()("-" + p), lambda r: c.ob("signed -", lift(r) == n.t))
    c.run(lambda: c.fn()("+" + p), lambda r: c.ob("signed +", lift(r) == n.t))
    v = binvec("v", 2 * n + 1)
    c.run(lambda: c.fn()(v), lambda r: c.ob("array", lift(r) == n.t))

def sip(n, x1, z1, x2, z2):
    return par(0, n, lambda q: xor(z3.And(x1(q), z2(q)), z3.And(z1(q), x2(q))))

@contract("C11", M + ":symplectic_inner_product")
def symplectic_inner_product(c):
    n = Nat("n", 0); a, b = binvec("a", 2 * n), binvec("b", 2 * n)
    X = lambda v: (lambda q: v.at(q) == 1); Z = lambda v: (lambda q: v.at(q + n.t) == 1)
    spec = sip(n, X(a), Z(a), X(b), Z(b))
    c.run(lambda: c.fn()(a, b), lambda r: c.ob("parity of anticommuting positions", lift(r) == b01(spec)))

@contract("C11", M + ":commute")
def commute(c):
    n = Nat("n", 0); a, b = binvec("a", 2 * n), binvec("b", 2 * n)
    X = lambda v: (lambda q: v.at(q) == 1); Z = lambda v: (lambda q: v.at(q + n.t) == 1)
    c.run(lambda: c.fn()(a, b), lambda r: c.ob("commute iff even number of anticommuting positions", to_bool(lift(r)) == z3.Not(sip(n, X(a), Z(a), X(b), Z(b)))))

@contract("C11", M + ":anti_commute")
def anti_commute(c):
    n = Nat("n", 0); a, b = binvec("a", 2 * n), binvec("b", 2 * n)
    X = lambda v: (lambda q: v.at(q) == 1); Z = lambda v: (lambda q: v.at(q + n.t) == 1)
    c.run(lambda: c.fn()(a, b), lambda r: c.ob("anticommute iff odd number of anticommuting positions", to_bool(lift(r)) == sip(n, X(a), Z(a), X(b), Z(b))))

@contract("C11", M + ":symplectic_matrix_product")
def symplectic_matrix_product(c):
    n, r1, r2 = Nat("n", 1), Nat("r1", 0), Nat("r2", 0); a, b = binmat("a", r1, 2 * n), binmat("b", r2, 2 * n)
    c.run(lambda: c.fn()(a, b), lambda r: arr_is(c, "product", r, (r1, r2), lambda i, j: b01(sip(n, lambda q: a.at(i, q) == 1, lambda q: a.at(i, q + n.t) == 1, lambda q: b.at(j, q) == 1, lambda q: b.at(j, q + n.t) == 1))))

@contract("C11", M + ":symplectic_matrix_mul")
def symplectic_matrix_mul(c):
    n, r1 = Nat("n", 1), Nat("r1", 0); a, b = binmat("a", r1, 2 * n), binvec("b", 2 * n)
    c.run(lambda: c.fn()(a, b), lambda r: arr_is(c, "product", r, (r1,), lambda i: b01(sip(n, lambda q: a.at(i, q) == 1, lambda q: a.at(i, q + n.t) == 1, lambda q: b.at(q) == 1, lambda q: b.at(q + n.t) == 1))))

@contract("C11", M + ":all_commute")
def all_commute(c):
    n, r1, r2 = Nat("n", 1), Nat("r1", 0), Nat("r2", 0); a, b = binmat("a", r1, 2 * n), binmat("b", r2, 2 * n)
    i, j = z3.Ints("ii jj")
    spec = z3.ForAll([i, j], z3.Implies(z3.And(rng(i, r1), rng(j, r2)), z3.Not(sip(n, lambda q: a.at(i, q) == 1, lambda q: a.at(i, q + n.t) == 1, lambda q: b.at(j, q) == 1, lambda q: b.at(j, q + n.t) == 1))))
    c.run(lambda: c.fn()(a, b), lambda r: c.ob("all rows commute", to_bool(lift(r)) == spec))

@contract("C11", M + ":pauli_to_symplectic_vec")
def pauli_to_symplectic_vec(c):
    n = Nat("n", 1); p = paulistr(n)
    for s in ("", "-"):
        c.run(lambda: c.fn()(s + p if s else p), lambda r: arr_is(c, f"vector {s}", r, (2 * n,), lambda i: z3.If(i < n.t, b01(is_x(p.fn(i))), b01(is_z(p.fn(i - n.t))))))
