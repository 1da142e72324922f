from contracts.lib import *
M = "codes.css_code"; S = "codes.stabilizer_code"; K = "codes.color_code"
NOTES = dict(assumptions=["numpy integer arithmetic is treated as mathematical (parities are unaffected by int8 wrap-around)", "error vectors and check matrices are 0/1 arrays with matching lengths"],
             outside=["ldpc.mod2.rank (external; assumed contract, sampled by the replay)"])

def code(c, cls="CSSCode", mod=M):
    n, rx, rz, kx, kz = Nat("n", 1), Nat("rx"), Nat("rz"), Nat("kx"), Nat("kz")
    o = c.obj(mod, cls, n=n, Hx=binmat("Hx", rx, n), Hz=binmat("Hz", rz, n), Lx=binmat("Lx", kx, n), Lz=binmat("Lz", kz, n))
    return o, n
def dot(H, i, v, n): return par(0, n, lambda q: z3.And(H.at(i, q) == 1, v.at(q) == 1))

@contract("C10", M + ":CSSCode.get_x_syndrome")
def get_x_syndrome(c):
    o, n = code(c); e = binvec("e", n)
    c.run(lambda: o.get_x_syndrome(e), lambda r: arr_is(c, "x syndrome", r, (o.Hx._shape[0],), lambda i: b01(dot(o.Hx, i, e, n))))
@contract("C10", M + ":CSSCode.get_z_syndrome")
def get_z_syndrome(c):
    o, n = code(c); e = binvec("e", n)
    c.run(lambda: o.get_z_syndrome(e), lambda r: arr_is(c, "z syndrome", r, (o.Hz._shape[0],), lambda i: b01(dot(o.Hz, i, e, n))))
@contract("C10", K + ":ColorCode.get_syndrome")
def cc_get_syndrome(c):
    n, r0 = Nat("n", 1), Nat("r"); o = c.obj(K, "ColorCode", n=n, H=binmat("H", r0, n)); e = binvec("e", n)
    c.run(lambda: o.get_syndrome(e), lambda r: arr_is(c, "syndrome", r, (r0,), lambda i: b01(dot(o.H, i, e, n))))
@contract("C10", S + ":StabilizerCode.get_syndrome")
def st_get_syndrome(c):
    n, r0 = Nat("n", 1), Nat("r"); G = binmat("G", r0, 2 * n); o = c.obj(S, "StabilizerCode", n=n, symplectic_matrix=G); e = binvec("e", 2 * n + 1)
    c.run(lambda: o.get_syndrome(e), lambda r: arr_is(c, "syndrome", r, (r0,), lambda i: b01(par(0, n, lambda q: xor(z3.And(G.at(i, q) == 1, e.at(q + n.t) == 1), z3.And(G.at(i, q + n.t) == 1, e.at(q) == 1))))))
@contract("C10", S + ":StabilizerCode.get_syndrome")
def st_get_syndrome_str(c):
    from contracts.c11 import paulistr, is_x, is_z
    n, r0 = Nat("n", 1), Nat("r"); G = binmat("G", r0, 2 * n); o = c.obj(S, "StabilizerCode", n=n, symplectic_matrix=G); p = paulistr(n)
    c.run(lambda: o.get_syndrome("-" + p), lambda r: arr_is(c, "syndrome of a Pauli string", r, (r0,), lambda i: b01(par(0, n, lambda q: xor(z3.And(G.at(i, q) == 1, is_z(p.fn(q))), z3.And(G.at(i, q + n.t) == 1, is_x(p.fn(q))))))))

def logical(c, o, n, L, f, name):
    e = binvec("e", n)
    i = z3.Int("i")
    spec = z3.Exists([i], z3.And(rng(i, L._shape[0]), dot(L, i, e, n)))
    c.run(lambda: f(e), lambda r: c.ob(f"{name} iff it anticommutes with some logical operator", to_bool(lift(r)) == spec))
@contract("C10", M + ":CSSCode.check_if_logical_x_error")
def logical_x(c):
    o, n = code(c); logical(c, o, n, o.Lz, o.check_if_logical_x_error, "logical X error")
@contract("C10", M + ":CSSCode.check_if_logical_z_error")
def logical_z(c):
    o, n = code(c); logical(c, o, n, o.Lx, o.check_if_logical_z_error, "logical Z error")
@contract("C10", K + ":ColorCode.check_if_logical_error")
def logical_cc(c):
    n, k = Nat("n", 1), Nat("k"); o = c.obj(K, "ColorCode", n=n, L=binmat("L", k, n)); logical(c, o, n, o.L, o.check_if_logical_error, "logical error")

def vx(a, b): return SArr(a._shape, lambda i: b01(xor(a.at(i) == 1, b.at(i) == 1)))
@contract("C10", M + ":CSSCode.check_if_x_stabilizer")
def x_stab(c):
    o, n = code(c); e = binvec("e", n)
    c.run(lambda: o.check_if_x_stabilizer(e), lambda r: c.ob("stabilizer iff sum of X checks", to_bool(lift(r)) == gf2.in_rs(o.Hx, e)))
@contract("C10", M + ":CSSCode.check_if_z_stabilizer")
def z_stab(c):
    o, n = code(c); e = binvec("e", n)
    c.run(lambda: o.check_if_z_stabilizer(e), lambda r: c.ob("stabilizer iff sum of Z checks", to_bool(lift(r)) == gf2.in_rs(o.Hz, e)))
def equiv(c, f, H, n):
    a, b = binvec("a", n), binvec("b", n)
    def post(r):
        s = gf2.in_rs(H, vx(a, b))
        gf2.in_rs(H, a); gf2.in_rs(H, b)
        c.ob("equivalent iff the sum is a stabilizer", to_bool(lift(r)) == s)
    c.run(lambda: f(a, b), post)
@contract("C10", M + ":CSSCode.stabilizer_eq_x_error")
def eq_x(c):
    o, n = code(c); equiv(c, o.stabilizer_eq_x_error, o.Hx, n)
@contract("C10", M + ":CSSCode.stabilizer_eq_z_error")
def eq_z(c):
    o, n = code(c); equiv(c, o.stabilizer_eq_z_error, o.Hz, n)
@contract("C10", S + ":StabilizerCode.stabilizer_equivalent")
def st_equiv(c):
    n, r0 = Nat("n", 1), Nat("r"); G = binmat("G", r0, 2 * n + 1); o = c.obj(S, "StabilizerCode", n=n, generators=G)
    equiv(c, o.stabilizer_equivalent, G, 2 * n + 1)
@contract("C10", K + ":ColorCode.compute_logical")
def cc_compute_logical(c):
    n, r0 = Nat("n", 1), Nat("r"); H = binmat("H", r0, n); o = c.obj(K, "ColorCode", n=n, H=H)
    calls = []
    L = binmat("Lres", Nat("k"), n)
    o._compute_logical = lambda a, b: (calls.append((a, b)), L)[1]
    def post(r):
        c.ob("logicals computed from (H, H)", len(calls) >= 1 and calls[-1][0] is H and calls[-1][1] is H)
        c.ob("stored", o.__dict__.get("L") is L)
    c.run(lambda: o.compute_logical(), post, modifies=[o])
