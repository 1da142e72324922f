from contracts.lib import *
DM = "cc_decoder.decoder"
NOTES = dict(assumptions=["every light has at least two switches (every face of a colour code has at least four qubits: C12) and lights and switches list each other (C12)"],
             trusted=["z3.Optimize: check/model return an assignment that satisfies all added constraints and violates as few soft constraints as possible; push/pop restore the constraints; simplify preserves meaning; Bool names denote distinct variables"],
             outside=["the external solver process itself (its output goes to a file; solve answers nothing then)", "simulate_error_rate and run (statistics and file output)"])
SW = z3.Function("SW", I, B); HV = z3.Function("HV", I, I, B)
LEN = z3.Function("LEN", I, I); S = z3.Function("S", I, I, I)          # switches of light l: S(l, 0..LEN(l)-1)
class G:
    """z3-API formula: its meaning under an arbitrary assignment of the switch and helper variables"""
    __hash__ = None
    def __init__(self, t): self.t = t
    def __eq__(self, o): return G(self.t == gt(o))
    def __ne__(self, o): return G(self.t != gt(o))
    def vc_subst(self, pairs): return G(z3.substitute(self.t, *pairs))
def gt(x): return x.t if isinstance(x, G) else to_bool(lift(x))
class Opt:
    def __init__(self): self.new, self.soft, self.log = [], [], []; self._vc_born = born()
    def _vc_save(self): return list(self.new), list(self.soft), list(self.log)
    def _vc_load(self, s): self.new, self.soft, self.log = (list(x) for x in s)
    def add(self, *fs):
        E.touch(self)
        for f in fs: self.new = self.new + [gt(f)]; self.log = self.log + ["add"]
    def add_soft(self, f, weight=None, id=None):
        E.touch(self)
        if weight is not None or id is not None: raise Unsupported("weighted soft constraint")
        self.soft = self.soft + [gt(f)]
    def push(self): E.touch(self); self.log = self.log + ["push"]
    def pop(self): E.touch(self); self.log = self.log + ["pop"]
    def set(self, *a, **k): E.touch(self); self.log = self.log + [("set",) + a]
    def check(self): E.touch(self); self.log = self.log + ["check"]; return self.result
    def model(self): E.touch(self); self.log = self.log + ["model"]; return self.mdl
    def clear(self): E.touch(self); self.new, self.soft, self.log = [], [], []
def setup(c):
    md = c.mod(DM)
    md.Xor = lambda a, b: G(z3.Xor(gt(a), gt(b))); md.Not = lambda a: G(z3.Not(gt(a))); md.simplify = lambda f: f
    def mkbool(name):
        p = text(name)
        if len(p) == 2 and p[0] == "switch_": return G(SW(lift(p[1][0])))
        if len(p) == 4 and p[0] == "helper_" and p[2] == "_": return G(HV(lift(p[1][0]), lift(p[3][0])))
        raise Unsupported(f"variable name {p}")
    md.Bool = mkbool; md.timer = lambda: Real("clock")
    return md
def switches(l): return PList([("s", mk(LEN(l)), lambda i: V(S(l, lift(i))))])
def helpers(l): return PList([("s", mk(LEN(l) - 1), lambda i: G(HV(l, lift(i))))])
def swvars(n): return PList([("s", n, lambda i: G(SW(lift(i))))])
def chain(l, i): return (z3.Xor(SW(S(l, i)), HV(l, i))) == HV(l, i - 1)
def last(l): return SW(S(l, LEN(l) - 1)) == HV(l, LEN(l) - 2)
def pre(l, n):
    E.assume(LEN(l) >= 2)
    q = z3.Int("q"); E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < LEN(l)), z3.And(S(l, q) >= 0, S(l, q) < n)), patterns=[S(l, q)]))
@contract("C13", DM + ":LightsOut.preconstruct_parity_constraint")
def prec(c):
    setup(c); n = Nat("n", 1); l = Nat("l"); pre(l.t, n.t); opt = Opt()
    o = c.obj(DM, "LightsOut", switch_vars=swvars(n), optimizer=opt, helper_vars=PDict([], (lambda k: mk(lift(k) == l.t), lambda k: helpers(lift(k)))))
    st = {}
    def init(vals, cnt): c.ob("all inner switches", cnt == LEN(l.t) - 2); c.ob("nothing added before the loop", len(opt.new) == 0)
    def havoc(vals, k): E.touch(opt); opt.new = []; return {}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next")
        if c.ob("one constraint per inner switch", len(opt.new) == 1): c.ob("link of the parity chain", opt.new[0] == chain(l.t, k + 1))
    h = LoopHook(c, "preconstruct_parity_constraint", init, havoc, step)
    def post(r):
        c.ob("the chain is built", h.hit == 1)
        if c.ob("the end of the chain is added once", len(opt.new) == 1): c.ob("end of the parity chain", opt.new[0] == last(l.t))
        c.ob("no soft constraints", not opt.soft and not [x for x in opt.log if x != "add"])
    c.run(lambda: o.preconstruct_parity_constraint(l, switches(l.t)), post, modifies=[opt])
@contract("C13", DM + ":LightsOut.complete_parity_constraint")
def comp(c):
    setup(c); n = Nat("n", 1); l = Nat("l"); pre(l.t, n.t); opt = Opt(); v = Bool("v")
    o = c.obj(DM, "LightsOut", switch_vars=swvars(n), optimizer=opt, helper_vars=PDict([], (lambda k: mk(lift(k) == l.t), lambda k: helpers(lift(k)))))
    def post(r):
        if c.ob("one constraint", len(opt.new) == 1 and not opt.soft): c.ob("the chain starts with the value of the light", opt.new[0] == (z3.Xor(SW(S(l.t, 0)), HV(l.t, 0)) == v.t))
    c.run(lambda: o.complete_parity_constraint(l, switches(l.t), v), post, modifies=[opt])
@contract("C13", DM + ":LightsOut.complete_parity_constraint", "the constraints of a light say that its switches have odd parity exactly when it is on (lemma)")
def parlemma(c):
    """chain and end constraints of one light, with P(i) the parity of the switches i.. of the light"""
    l = Nat("l"); L = LEN(l.t); E.assume(L >= 2); P = z3.Function("P", I, B); i = z3.Int("i"); j = z3.Int("j"); v = z3.Bool("v")
    E.assume(z3.Not(P(L))); E.assume(z3.ForAll([j], P(j) == z3.Xor(SW(S(l.t, j)), P(j + 1)), patterns=[P(j)]))
    E.assume(z3.And(i >= 1, i < L - 1))
    c.ob("end: helper L-2 is the parity of the last switch", z3.Implies(z3.And(last(l.t), P(L - 1) == z3.Xor(SW(S(l.t, L - 1)), P(L))), HV(l.t, L - 2) == P(L - 1)))
    c.ob("step: helper i parity gives helper i-1 parity", z3.Implies(z3.And(chain(l.t, i), HV(l.t, i) == P(i + 1)), HV(l.t, i - 1) == P(i)))
    c.ob("start: the light equals the parity of all its switches", z3.Implies(HV(l.t, 0) == P(1), (z3.Xor(SW(S(l.t, 0)), HV(l.t, 0)) == v) == (P(0) == v)))
    # conversely the helpers can always be chosen
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L - 1), HV(l.t, j) == P(j + 1)), patterns=[HV(l.t, j)]))
    c.ob("existence: parities satisfy every link", z3.And(chain(l.t, i), last(l.t)))
    c.run(lambda: None, lambda r: None)
for given in (False, True):
    def mk_(given):
        @contract("C13", DM + ":LightsOut.preconstruct_z3_instance", "variables given" if given else "fresh variables")
        def f(c):
            setup(c); m, n = Nat("m", 1), Nat("n", 1); opt = Opt(); calls = []
            q = z3.Int("q"); E.assume(z3.ForAll([q], LEN(q) >= 2, patterns=[LEN(q)]))
            class Map:
                """light -> switches, lights 0..m-1"""
                def items(s): return PList([("s", m, lambda i: (V(lift(i)), switches(lift(i))))])
                def __vc_len__(s): return m
            class Back:
                def __vc_len__(s): return n
            hv = PDict([], (lambda k: False, lambda k: None)) if not given else PDict([], (lambda k: mk(z3.And(lift(k) >= 0, lift(k) < m.t)), lambda k: helpers(lift(k))))
            o = c.obj(DM, "LightsOut", lights_to_switches=Map(), switches_to_lights=Back(), optimizer=opt, helper_vars=hv, switch_vars=swvars(n) if given else None)
            def isvars():
                s = o.switch_vars
                if not isinstance(s, PList): return False
                x = fresh("sv"); E.ctxs.append(core.Ctx([]))
                try:
                    E.assume(z3.And(x >= 0, x < n.t)); g = s.get(V(x))
                    return bool(E.entails(lift(s.vc_len()) == n.t)) and isinstance(g, G) and bool(E.entails(g.t == SW(x)))
                finally: E.ctxs.pop()
            def ppc(light, idx): E.touch(opt); calls.append(1); opt.log = opt.log + [("light", lift(light), idx, o.helper_vars[light])]
            o.preconstruct_parity_constraint = ppc
            def setd(k):
                E.touch(hv); hv.items_ = []
                hv.default = (lambda q: mk(z3.And(lift(q) >= 0, lift(q) < (m.t if given else k))), lambda q: helpers(lift(q)))
            def init(vals, cnt):
                c.ob("one switch variable per switch", isvars())
                c.ob("lights first, then switches", E.entails(cnt == (m.t if h.hit == 1 else n.t)))
                c.ob("nothing soft yet", len(opt.soft) == 0)
            def havoc(vals, k):
                opt.clear()
                if h.hit == 1: setd(k)
                return {}
            def step(old, new, k, how):
                c.ob("the loop goes on", how == "next")
                if h.hit == 1:
                    if not c.ob("every light is constrained once", len(opt.log) == 1 and opt.log[0][0] == "light" and not opt.soft and not opt.new): return
                    _, light, idx, hl = opt.log[0]; x = fresh("x")
                    c.ob("its own constraint", light == k)
                    E.assume(z3.And(x >= 0, x < LEN(k)))
                    c.ob("with its own switches", z3.And(lift(seqs.as_plist(idx).vc_len()) == LEN(k), lift(seqs.as_plist(idx).get(V(x))) == S(k, x)))
                    hl = seqs.as_plist(hl); c.ob("one helper fewer than switches", lift(hl.vc_len()) == LEN(k) - 1)
                    y = fresh("y"); E.assume(z3.And(y >= 0, y < LEN(k) - 1)); g = hl.get(V(y))
                    c.ob("helpers of this light", isinstance(g, G) and E.entails(g.t == HV(k, y)))
                    c.ob("helper table", lift(hv.has(V(k))))
                else:
                    if c.ob("one soft constraint per switch, nothing hard", len(opt.soft) == 1 and not opt.new and not opt.log): c.ob("a switch should stay off", opt.soft[0] == z3.Not(SW(k)))
            h = LoopHook(c, "preconstruct_z3_instance", init, havoc, step)
            c.run(lambda: o.preconstruct_z3_instance(), lambda r: c.ob("both loops have run", h.hit == 2), frame=False)
    mk_(given)

INC = z3.Function("INC", I, I, B)      # light l is controlled by switch s
MV = z3.Function("MV", I, B)           # the model presses switch s
class MB:
    """model value of a variable: BoolRef or None (not assigned)"""
    def __init__(self, t): self.t = t
class Model:
    def __getitem__(self, v):
        if not isinstance(v, G) or not z3.is_app(v.t) or v.t.decl().name() != "SW": raise Unsupported("model value")
        return mk(MV(v.t.arg(0)))       # true exactly if assigned true
@contract("C13", DM + ":LightsOut.count_switches")
def count(c):
    setup(c); n = Nat("n", 1); o = c.obj(DM, "LightsOut", switch_vars=swvars(n))
    c.run(lambda: o.count_switches(Model()), lambda r: c.ob("number of pressed switches", lift(r) == ssum(0, n.t, lambda i: b01(MV(i)))))
@contract("C13", DM + ":LightsOut.validate_model")
def valid(c):
    """lights after switch k: on(l) xor parity of the pressed switches below k controlling l"""
    setup(c); m, n = Nat("m", 1), Nat("n", 1); NL = z3.Function("NL", I, I); LT = z3.Function("LT", I, I, I); POS = z3.Function("POS", I, I, I)
    s, l, i = z3.Ints("vs vl vi")
    E.assume(z3.ForAll([s], NL(s) >= 0, patterns=[NL(s)]))
    # switch s lists each of its lights once
    E.assume(z3.ForAll([s, i], z3.Implies(z3.And(s >= 0, s < n.t, i >= 0, i < NL(s)), z3.And(LT(s, i) >= 0, LT(s, i) < m.t, INC(LT(s, i), s), POS(LT(s, i), s) == i)), patterns=[LT(s, i)]))
    E.assume(z3.ForAll([l, s], z3.Implies(z3.And(INC(l, s), s >= 0, s < n.t), z3.And(POS(l, s) >= 0, POS(l, s) < NL(s), LT(s, POS(l, s)) == l)), patterns=[INC(l, s)]))
    on0 = z3.Function("on0", I, B); PAR_ = z3.Function("PRESS", I, I, B)      # PRESS(l, k): parity of pressed switches < k controlling l
    E.assume(z3.ForAll([l], z3.Not(PAR_(l, 0)), patterns=[PAR_(l, 0)]))
    E.assume(z3.ForAll([l, s], PAR_(l, s + 1) == z3.Xor(PAR_(l, s), z3.And(MV(s), INC(l, s))), patterns=[PAR_(l, s + 1)]))
    class Back:
        def __getitem__(self, k): return PList([("s", mk(NL(lift(k))), lambda i: V(LT(lift(k), lift(i))))])
    lights = PList([("s", m, lambda i: V(on0(lift(i))))])
    o = c.obj(DM, "LightsOut", switch_vars=swvars(n), switches_to_lights=Back())
    def pl(k): return lambda i: V(z3.Xor(on0(lift(i)), PAR_(lift(i), k)))
    st = {}
    def work(vals):
        """the list being toggled (a copy of the caller's list, or that list)"""
        xs = [v for v in list(vals.values()) + list(h.free.values()) if isinstance(v, PList)]
        out = []
        for v in xs:
            if any(v is w for w in out): continue
            if v is o.switch_vars: continue
            out.append(v)
        return out
    def init(vals, cnt):
        c.ob("all switches", cnt == n.t)
        ws = [v for v in work(vals) if v is not lights]
        if not c.ob("a copy of the pattern is toggled", len(ws) == 1): raise PathEnd()
        st["w"] = ws[0]; x = fresh("x"); E.assume(z3.And(x >= 0, x < m.t))
        c.ob("it starts as the given pattern", z3.And(lift(st["w"].vc_len()) == m.t, to_bool(lift(st["w"].get(V(x)))) == on0(x)))
    def havoc(vals, k):
        w = st["w"]; E.touch(w); w.segs = [("s", m, pl(k))]; st["k"] = k
        return {}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next")
        x = fresh("x"); E.assume(z3.And(x >= 0, x < m.t)); E.assume(PAR_(x, k + 1) == z3.Xor(PAR_(x, k), z3.And(MV(k), INC(x, k))))
        c.ob("exactly the lights of a pressed switch are toggled", to_bool(lift(st["w"].get(V(x)))) == z3.Xor(on0(x), PAR_(x, k + 1)))
    # inner loop: the first j lights of switch k have been toggled
    def il(k, j): return lambda i: V(z3.Xor(z3.Xor(on0(lift(i)), PAR_(lift(i), k)), z3.And(INC(lift(i), k), POS(lift(i), k) < j)))
    def same(tag, spec):
        x = fresh("x"); E.ctxs.append(core.Ctx([]))
        try:
            E.assume(z3.And(x >= 0, x < m.t)); c.ob(tag, z3.And(lift(st["w"].vc_len()) == m.t, to_bool(lift(st["w"].get(V(x)))) == to_bool(lift(spec(x)))))
        finally: E.ctxs.pop()
    def iinit(vals, cnt): c.ob("all lights of the switch", cnt == NL(st["k"])); same("lights before the switch", il(st["k"], z3.IntVal(0)))
    def ihavoc(vals, j): w = st["w"]; E.touch(w); w.segs = [("s", m, il(st["k"], j))]; return {}
    def istep(old, new, j, how): c.ob("the inner loop goes on", how == "next"); same("one light is toggled", il(st["k"], j + 1))
    hi = LoopHook(c, "validate_model", iinit, ihavoc, istep)
    h = LoopHook(c, "validate_model", init, havoc, step, inner=hi)
    def post(r):
        x = z3.Int("fx")
        c.ob("accepted exactly if every light is off afterwards", to_bool(lift(r)) == z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m.t), z3.Not(z3.Xor(on0(x), PAR_(x, n.t))))))
    c.run(lambda: o.validate_model(Model(), lights), post, frame=False)

def solve_(c, ext):
    md = setup(c); m, n = Nat("m", 1), Nat("n", 1); opt = Opt(); on0 = z3.Function("on0", I, B)
    lights = PList([("s", m, lambda i: V(on0(lift(i))))]); mdl = Model(); seen = []
    class Res:
        def __str__(self): return "sat"
    opt.result, opt.mdl = Res(), mdl
    class Map:
        def __getitem__(s, k): return ("switches", lift(k))
    o = c.obj(DM, "LightsOut", lights_to_switches=Map(), optimizer=opt, switch_vars=swvars(n))
    def cpc(light, idx, val): E.touch(opt); opt.log = opt.log + [("complete", lift(light), idx, to_bool(lift(val)))]
    o.complete_parity_constraint = cpc
    def vm(model, l):
        c.ob("the model found is validated against the pattern", model is mdl and l is lights); seen.append(1); return True
    o.validate_model = vm
    def init(vals, cnt):
        c.ob("pushed before the pattern is added", opt.log == ["push"]); c.ob("all lights", cnt == m.t)
    def havoc(vals, k): E.touch(opt); opt.log = []; return {}
    def step(old, new, k, how):
        c.ob("the loop goes on", how == "next")
        if c.ob("one constraint per light", len(opt.log) == 1 and opt.log[0][0] == "complete"):
            _, l, idx, v = opt.log[0]
            c.ob("for that light, its switches and its value", z3.And(l == k, idx[1] == k, v == on0(k)))
    h = LoopHook(c, "solve", init, havoc, step)
    def post(r):
        if ext:
            lg = opt.log
            c.ob("handed to the external solver once", len(runs) == 1)
            c.ob("the pattern is withdrawn", h.hit == 1 and lg and lg[-1] == "pop" and lg.count("pop") == 1 and "push" not in lg and not opt.new and not opt.soft)
            c.ob("no answer is claimed", isinstance(r, tuple) and len(r) == 3 and E.entails(lift(seqs.as_plist(r[0]).vc_len()) == 0))
            return
        c.ob("solved and withdrawn", h.hit == 1 and opt.log == ["check", "model", "pop"] and seen == [1] and not opt.new and not opt.soft)
        if not c.ob("switches and two times", isinstance(r, tuple) and len(r) == 3): return
        s = seqs.as_plist(r[0]); x = fresh("x"); E.assume(z3.And(x >= 0, x < n.t))
        c.ob("one entry per switch", lift(s.vc_len()) == n.t)
        c.ob("the entry is one exactly if the model presses the switch", lift(s.get(V(x))) == b01(MV(x)))
    runs = []
    if ext:
        class File:
            def __enter__(s): return s
            def __exit__(s, *a): return None
        class P:
            def __init__(s, *a): pass
            def open(s, *a, **k): return File()
        class Sub:
            def run(s, args, **k): runs.append(args)
        class Loc:
            def getpreferredencoding(s, *a): return "utf-8"
        md.Path, md.subprocess, md.locale, md.str = P, Sub(), Loc(), (lambda x: "wcnf")
        def start(): runs.clear(); return o.solve(lights, solver_path="bin/solver")
        c.run(start, post, modifies=[opt])
    else: c.run(lambda: o.solve(lights), post, modifies=[opt])
@contract("C13", DM + ":LightsOut.solve")
def solve(c): solve_(c, False)
@contract("C13", DM + ":LightsOut.solve", "external solver: the instance is left as it was")
def solve_ext(c): solve_(c, True)
