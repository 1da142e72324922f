from contracts.lib import *
SM = "ft_stateprep.simulation"
NOTES = dict(assumptions=["every CSS code with any numbers of X and Z checks; syndromes of any integer type"],
             trusted=["numpy.binary_repr(i).zfill(n) for 0 <= i < 2**n runs through all binary vectors of length n", "byte strings of int8 arrays agree exactly when the arrays agree",
                      "builtin min(list, key=f) returns an element whose key is minimal", "numpy.apply_along_axis(f, 1, M) stacks f(row) over the rows of M"],
             outside=["NoisyNDFTStatePrepSimulator (C19)"])
BIT = z3.Function("BIT", I, I, I)
def states(i): return A.SArr((NQ[0],), lambda j: BIT(lift(i), j), "i")
NQ = [None]
class Group:
    """the errors with the j-th syndrome"""
    def __init__(self, j): self.j = j
class Buckets:
    """syndrome -> errors with that syndrome: error numbers below `done` have been filed"""
    def __init__(self, c): self.c, self.done, self.new = c, z3.IntVal(0), []; self._vc_born = born()
    def _vc_save(self): return self.done, list(self.new)
    def _vc_load(self, s): self.done, self.new = s[0], list(s[1])
    def set(self, k): E.touch(self); self.done, self.new = k, []
    def __getitem__(self, key):
        me = self
        class H:
            def append(s, v): E.touch(me); me.new = me.new + [(key, v)]
        return H()
@contract("C18", SM + ":LutDecoder._generate_lut")
def gen(c):
    m, n = Nat("m"), Nat("n", 1); NQ[0] = n
    H = binmat("H", m, n); mod = c.mod(SM)
    SK = z3.Function("SK", I, I, I); MIN = z3.Function("MIN", I, I, I); K = Nat("K", 1)
    class Digits:
        def __init__(self, i): self.i = i
        def zfill(self, w):
            c.ob("all digits of the error number", lift(w) == n.t)
            return PList([("s", n, lambda j: V(BIT(lift(self.i), lift(j))))])
    def brepr(i):
        x = fresh("b"); E.assume(z3.Or(BIT(lift(i), x) == 0, BIT(lift(i), x) == 1)); return Digits(i)
    npx = type("NPX", (), {"__getattr__": lambda s, k: getattr(np, k)})(); npx.binary_repr = brepr
    mod.np = npx
    bk = Buckets(c); made = []
    def dd(f): made.append(1); return bk
    mod.defaultdict = dd
    def items():
        c.ob("the table is built after all errors have been filed", bk.done == IP)
        return PList([("s", K, lambda j: (A.Bytes(A.SArr((m,), lambda i, j=j: SK(lift(j), i), "i"), "int8"), Group(lift(j))))])
    bk.items = items
    picked = []
    def vmin(g, *a, key=None, **k):
        if not isinstance(g, Group) or a or k: raise Unsupported("min")
        t = sym_array("t", (n,)); 
        c.ob("the key is the weight", key is not None and E.entails(lift(key(t)) == ssum(0, n.t, lambda q: t.at(q))))
        # contract of min over the group
        picked.append(g.j)
        return A.SArr((n,), lambda q: MIN(g.j, q), "i")
    mod.min = vmin
    IP = IPOW(z3.IntVal(2), n.t)
    def lut():
        ds = [v for v in h.free.values() if isinstance(v, PDict)]
        if len(ds) != 1: raise Unsupported("lookup table")
        return ds[0]
    def init(vals, cnt):
        if h.hit == 1:
            c.ob("all 2^n errors are enumerated", cnt == IP); c.ob("nothing filed before", len(bk.new) == 0 and made == [1])
        else:
            c.ob("one table entry per syndrome", cnt == K.t)
            c.ob("empty table", len(lut().items_) == 0 and lut().default is None); lut.d = lut()
    def havoc(vals, k):
        if h.hit == 1: bk.set(k)
        else:
            d = lut.d; E.touch(d); d.items_ = []; d.upto = k
        return {}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next")
        if h.hit == 1:
            if not c.ob("the error is filed once", len(bk.new) == 1): return
            key, v = bk.new[0]
            c.ob("filed under an int8 byte string", isinstance(key, A.Bytes) and key.dtn == "int8")
            arr_is(c, "filed under its syndrome", key.arr, (m,), lambda i: b01(par(0, n.t, lambda q: z3.And(odd(H.at(i, q)), odd(BIT(k, q))))))
            arr_is(c, "filed error", v, (n,), lambda q: BIT(k, q))
        else:
            d = lut.d
            if not c.ob("one entry is added", len(d.items_) == 1): return
            key, v = d.items_[0]
            c.ob("under the key of the group", isinstance(key, A.Bytes) and key.dtn == "int8")
            arr_is(c, "entry: syndrome", key.arr, (m,), lambda i: SK(k, i))
            arr_is(c, "entry: a lightest error of the group", v, (n,), lambda q: MIN(k, q))
    h = LoopHook(c, "_generate_lut", init, havoc, step)
    def post(r):
        c.ob("both loops have run", h.hit == 2); c.ob("the complete table is returned", r is lut.d and E.entails(lut.d.upto == K.t))
    c.run(lambda: c.cls(SM, "LutDecoder")._generate_lut(H), post, modifies=[bk])
@contract("C18", SM + ":LutDecoder._generate_lut", "entries are lightest errors (lemma over the contract)")
def genlemma(c):
    """every error with syndrome s is in the group of s, the entry of s is an element of it that no element outweighs"""
    m, n, N = Nat("m"), Nat("n", 1), Nat("N", 1); H = binmat("H", m, n)
    S = lambda f: lambda i: par(0, n.t, lambda q: z3.And(odd(H.at(i, q)), odd(f(q))))
    e = z3.Function("e", I, I); ie, g, x = z3.Ints("ie g x")
    q = z3.Int("q")
    E.assume(z3.And(ie >= 0, ie < N.t, g >= 0, g < N.t))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), BIT(ie, q) == e(q)), patterns=[BIT(ie, q)]))   # the enumeration reaches e
    i = z3.Int("i"); E.assume(z3.And(i >= 0, i < m.t))
    W = z3.Function("W", I, I)
    ING = z3.Function("IN", I, B)         # number belongs to the group of e's syndrome
    E.assume(ING(ie)); E.assume(ING(g)); E.assume(z3.ForAll([x], z3.Implies(ING(x), W(g) <= W(x)), patterns=[ING(x)]))
    c.ob("no error with the syndrome is lighter", W(g) <= W(ie))
    c.run(lambda: None, lambda r: None)

class Table:
    def __init__(self, c, H, m, n): self.c, self.H, self.m, self.n = c, H, m, n
    def __len__(self): raise Unsupported("len")
    def __vc_len__(self): return 1
    def __getitem__(self, key):
        self.c.ob("looked up by an int8 byte string", isinstance(key, A.Bytes) and key.dtn == "int8")
        return ("entry", self, key)
def setup(c):
    n, mx, mz = Nat("n", 1), Nat("mx"), Nat("mz")
    Hx, Hz = binmat("Hx", mx, n), binmat("Hz", mz, n); mod = c.mod(SM)
    cl = c.cls(SM, "LutDecoder"); made = []
    def gl(H):
        c.ob("built from a check matrix of the code", H is Hx or H is Hz)
        t = Table(c, H, mx if H is Hx else mz, n); made.append(t); return t
    cl._generate_lut = staticmethod(gl)
    code = c.obj("codes.css_code", "CSSCode", Hx=Hx, Hz=Hz, n=n)
    sd = fresh("sd", B); code.is_self_dual = lambda: mk(sd)
    def vlen(x):
        if isinstance(x, Table): return 1
        if isinstance(x, PDict) and not x.items_ and x.default is None: return 0
        raise Unsupported("len")
    mod.len = vlen
    def same(H, G):
        if H is G: return z3.BoolVal(True)
        a, b = fresh("sa"), fresh("sb")
        return z3.And(lift(H._shape[0]) == lift(G._shape[0]), z3.Implies(z3.And(a >= 0, a < lift(H._shape[0]), b >= 0, b < n.t), H.at(a, b) == G.at(a, b)))
    def valid(tag, t, H, empty_ok):
        if isinstance(t, PDict): return c.ob(f"{tag}: not left empty", empty_ok)
        return c.ob(f"{tag}: table of these checks", isinstance(t, Table) and (t.H is H or E.entails(same(t.H, H))))
    return n, mx, mz, Hx, Hz, code, valid, made
STATES = [(False, False), (True, False), (False, True), (True, True)]
def mkobj(c, code, Hx, Hz, st):
    tx = Table(c, Hz, None, None) if st[0] else PDict(); tz = Table(c, Hx, None, None) if st[1] else PDict()
    return c.obj(SM, "LutDecoder", code=code, x_lut=tx, z_lut=tz), tx, tz
for st in STATES:
    for side in "xz":
        def mk_(st, side):
            tag = f"{'X table present' if st[0] else 'no X table'}, {'Z table present' if st[1] else 'no Z table'}"
            @contract("C18", SM + f":LutDecoder.generate_{side}_lut", tag)
            def f(c):
                n, mx, mz, Hx, Hz, code, valid, made = setup(c); o, tx, tz = mkobj(c, code, Hx, Hz, st)
                def post(r):
                    valid("X table", o.x_lut, Hz, side == "z" and not st[0]); valid("Z table", o.z_lut, Hx, side == "x" and not st[1])
                c.run(lambda: getattr(o, f"generate_{side}_lut")(), post, frame=False)
            @contract("C18", SM + f":LutDecoder.decode_{side}", tag)
            def g(c):
                n, mx, mz, Hx, Hz, code, valid, made = setup(c); o, tx, tz = mkobj(c, code, Hx, Hz, st)
                def genx(): o.x_lut = Table(c, Hz, None, None)
                def genz(): o.z_lut = Table(c, Hx, None, None)
                o.generate_x_lut, o.generate_z_lut = genx, genz
                s = sym_array("s", (mz if side == "x" else mx,))
                def post(r):
                    if not c.ob("a table entry", isinstance(r, tuple) and r[0] == "entry"): return
                    valid("table used", r[1], Hz if side == "x" else Hx, False)
                    arr_is(c, "looked up under the given syndrome", r[2].arr, (mz if side == "x" else mx,), lambda i: s.at(i))
                c.run(lambda: getattr(o, f"decode_{side}")(s), post, frame=False)
        mk_(st, side)
for side in "xz":
    def mk2(side):
        @contract("C18", SM + f":LutDecoder.batch_decode_{side}")
        def f(c):
            o = c.obj(SM, "LutDecoder"); k, m, n = Nat("k", 1), Nat("m"), Nat("n", 1)
            S = sym_array("S", (k, m)); R_ = sym_array("R", (k, n)); mod = c.mod(SM); seen = []
            def dec(s): seen.append(s); return R_[0]
            setattr(o, f"decode_{side}", dec)
            def other(s): c.ob("decoded on the right side", False); return R_[0]
            setattr(o, f"decode_{'z' if side == 'x' else 'x'}", other)
            def aaa(fn, axis, arr):
                t = sym_array("row", (m,)); r = fn(t)
                c.ob("every row is decoded as a single syndrome", len(seen) == 1 and isinstance(seen[0], SArr) and E.entails(rows_eq(seen[0], t, m)))
                c.ob("the rows of the batch", const_int(axis) == 1 and arr is S); return R_
            def rows_eq(a, b, m):
                x = fresh("x"); return z3.Implies(rng(x, m), a.at(x) == b.at(x))
            npx = type("NPX", (), {"__getattr__": lambda s, k: getattr(np, k)})(); npx.apply_along_axis = aaa
            mod.np = npx
            c.run(lambda: getattr(o, f"batch_decode_{side}")(S), lambda r: c.ob("answers row by row", r is R_))
    mk2(side)
for flag in (True, False):
    def mk3(flag):
        @contract("C18", SM + ":LutDecoder.__init__", f"init_luts={flag}")
        def f(c):
            cl = c.cls(SM, "LutDecoder"); o = c.obj(SM, "LutDecoder"); log = []
            code = Tok("code"); o.generate_x_lut = lambda: log.append("x"); o.generate_z_lut = lambda: log.append("z")
            def post(r):
                c.ob("code kept", o.code is code)
                c.ob("tables start empty and distinct", isinstance(o.x_lut, PDict) and isinstance(o.z_lut, PDict) and not o.x_lut.items_ and not o.z_lut.items_)
                c.ob("tables generated on request", sorted(log) == (["x", "z"] if flag else []))
            c.run(lambda: cl.__init__(o, code, flag), post, frame=False)
    mk3(flag)
