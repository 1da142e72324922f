from contracts.lib import *
M = "codes.css_code"
NOTES = dict(trusted=["linear algebra: choosing, from a stack of a row-space basis B followed by a kernel basis K with span(B) inside span(K), exactly the rows of K that are not a combination of earlier rows yields representatives of a basis of span(K)/span(B)"],
             outside=["ldpc.mod2.nullspace, row_basis, row_echelon (external, assumed contracts; sampled by the replay)", "stored code matrices and bivariate bicycle polynomials (finite: enumerated completely by the replay)"])

@contract("C09", M + ":CSSCode._compute_logical")
def compute_logical(c):
    n, r1, r2 = Nat("n", 1), Nat("r1"), Nat("r2")
    m1, m2 = binmat("m1", r1, n), binmat("m2", r2, n)
    cl = c.cls(M, "CSSCode")
    def post(L):
        ns = [x for x in mod2.log if x[0] == "nullspace"]; rb = [x for x in mod2.log if x[0] == "row_basis"]; re = [x for x in mod2.log if x[0] == "row_echelon"]
        if not c.ob("kernel, row basis and echelon form computed", len(ns) == 1 and len(rb) == 1 and len(re) == 1): return
        K, Bs = ns[0][2], rb[0][2]
        ba, ka = lift(Bs._shape[0]), lift(K._shape[0])
        arr_is(c, "kernel of the first matrix", ns[0][1], (r1, n), lambda i, j: m1.at(i, j))
        arr_is(c, "row basis of the second matrix", rb[0][1], (r2, n), lambda i, j: m2.at(i, j))
        stack = lambda i, j: z3.If(i < ba, Bs.at(i, j), K.at(i - ba, j))
        arr_is(c, "echelon form of the transposed stack [row basis; kernel]", re[0][1], (n, mk(ba + ka)), lambda i, j: stack(j, i))
        piv = re[0][2]
        cnt, sel, inv = seqs.sel_fn(mk(ka), lambda i: mk(piv(lift(i) + ba)))
        arr_is(c, "result is exactly the pivot rows of the kernel part, in order", L, (cnt, n), lambda i, j: K.at(sel(i), j))
        i, q = z3.Ints("ri rq")
        c.ob("every logical operator commutes with every check of the opposite type", z3.ForAll([i, q], z3.Implies(z3.And(rng(i, L._shape[0]), rng(q, r1)), z3.Not(par(0, n, lambda k: z3.And(m1.at(q, k) == 1, L.at(i, k) == 1))))))
    mod2.log.clear()
    def go():
        mod2.log.clear(); return cl._compute_logical(m1, m2)
    c.run(go, post)

def strings(meth, mat, letter):
    def f(c):
        n, r = Nat("n", 1), Nat("r"); H = binmat(mat, r, n)
        o = c.obj(M, "CSSCode", n=n, **{mat: H})
        def post(l):
            l = seqs.as_plist(l)
            c.ob("one string per row", lift(l.vc_len()) == r.t)
            i, j = z3.Ints("si sj")
            s = seqs.as_sstr(l.get(V(i)))
            c.ob("length", z3.Implies(rng(i, r), lift(s.n) == n.t))
            c.ob("letters", z3.Implies(z3.And(rng(i, r), rng(j, n)), s.fn(j) == z3.If(H.at(i, j) == 1, ord(letter), ord("I"))))
        c.run(lambda: getattr(o, meth)(), post)
    f.__name__ = meth
    contract("C09", M + ":CSSCode." + meth)(f)
for meth, mat, letter in (("x_checks_as_pauli_strings", "Hx", "X"), ("z_checks_as_pauli_strings", "Hz", "Z"), ("x_logicals_as_pauli_strings", "Lx", "X"), ("z_logicals_as_pauli_strings", "Lz", "Z")):
    strings(meth, mat, letter)
