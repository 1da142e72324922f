from contracts.lib import *
from vc.core import POW
D_ = "analog_information_decoding.utils.data_utils"
NOTES = dict(assumptions=["floating point treated as real arithmetic; powers with real exponents are an uninterpreted function that maps [0,1] into itself for positive exponents and is 1 at exponent 0",
                          "preconditions: 0 <= successes <= runs, runs >= 1, k >= 1; every dataset to merge carries nr_runs and code_K"],
             outside=["json and directory walking around the merge (merge_json_files*: bounded replay)"])
KNOWN_EB = "word error bar is the binomial error propagated through the root"
def pw(x, e):
    t = POW(x, e)
    E.assume(z3.Implies(z3.And(x >= 0, x <= 1, e > 0), z3.And(t >= 0, t <= 1)))
    E.assume(z3.Implies(e == 0, t == 1)); E.assume(z3.Implies(x == 1, t == 1))
    return t
def rates(c, tag, got, s, r, k):
    """the four reported numbers for s successes in r runs and k logical qubits"""
    ler, eb, wer, web = [to_real(lift(x)) for x in got]
    s, r, k = (to_real(lift(x)) for x in (s, r, k))
    c.ob(f"{tag}logical error rate is one minus the success ratio", ler * r == r - s)
    c.ob(f"{tag}logical error rate in [0, 1]", z3.And(ler >= 0, ler <= 1))
    L = fresh("ler", R); E.assume(L == ler); E.assume(z3.And(L * r == r - s, L >= 0, L <= 1))
    c.ob(f"{tag}error bar is the binomial standard error", z3.And(eb >= 0, eb * eb == (1 - ler) * ler / r))
    root = pw(1 - ler, 1 / k); p1 = pw(1 - ler, 1 / k - 1); p2 = pw(1 - eb, 1 / k - 1)
    E.assume(z3.Implies(k == 1, 1 / k - 1 == 0)); E.assume(1 / k > 0)
    c.ob(f"{tag}word error rate is the per-qubit root form", wer == 1 - root)
    c.ob(f"{tag}word error rate in [0, 1]", z3.And(wer >= 0, wer <= 1))
    c.ob(f"{tag}word error bar for one logical qubit is the error bar", z3.Implies(k == 1, web == eb))
    known = web == eb * p2 / k
    if c.ob(f"{tag}word error bar is the propagated one or the recorded deviation", z3.Or(known, web == eb * p1 / k)):
        c.ob(f"{tag}{KNOWN_EB}", web == eb * p1 / k)
def counts(name=""):
    s, r, k = Nat("s" + name), Nat("r" + name, 1), Nat("k" + name, 1)
    E.assume(s.t <= r.t); return s, r, k
@contract("C23", D_ + ":calculate_error_rates")
def calc(c):
    s, r, k = counts()
    c.run(lambda: c.fn()(s, r, {"k": k}), lambda t: rates(c, "", t, s, r, k))
@contract("C23", D_ + ":_update_error_rates")
def update(c):
    s, r, k = counts()
    c.run(lambda: c.fn()(s, r, k), lambda t: rates(c, "", t, s, r, k))
@contract("C23", D_ + ":_check_convergence")
def conv(c):
    s, r, k = counts(); cut = Real("cut"); E.assume(cut.t > 0)
    w, eb = Real("wer"), Real("web"); E.assume(z3.And(w.t >= 0, eb.t >= 0, z3.Implies(w.t == 0, eb.t == 0)))
    calls = []
    def stub(sc, runs, params): calls.append((sc, runs, params)); return Real("ler"), Real("leb"), w, eb
    def t(): calls.clear(); c.mod(D_).calculate_error_rates = stub; return c.fn()(s, r, {"k": k}, cut)
    def post(x):
        c.ob("rates of these counts", z3.And(lift(calls[0][0]) == s.t, lift(calls[0][1]) == r.t) if len(calls) == 1 else False)
        c.ob("converged exactly when the relative error bar is below the cut-off", (z3.BoolVal(x is True)) == z3.And(eb.t != 0, eb.t < cut.t * w.t))
        c.ob("never converged without an error bar", z3.Implies(eb.t == 0, z3.BoolVal(x is False)))
    c.run(t, post)
@contract("C23", D_ + ":is_converged")
def both(c):
    s1, s2, r = Int("xs"), Int("zs"), Int("r")
    for a in (True, None, False):
        for b in (True, None, False):
            calls = []
            def stub(sc, runs, params, precision_cutoff=None): calls.append((sc, runs, params, precision_cutoff)); return a if sc is s1 else b
            def t(): calls.clear(); c.mod(D_)._check_convergence = stub; return c.fn()(s1, s2, r, "params", "prec")
            c.run(t, lambda x: c.ob("converged exactly when both sides are", (x is True) == (a is True and b is True) and all(y[1] is r and y[2] == "params" and y[3] == "prec" for y in calls)))

def dataset(fields, opt=()):
    """item(i): a result record with symbolic counts; optional keys may be absent"""
    f = {k: z3.Function("v_" + k, I, I) for k in fields}; h = {k: z3.Function("has_" + k, I, B) for k in opt}
    def item(i):
        i = lift(i)
        if not opt:
            return PDict([(k, V(f[k](i))) for k in fields] + [("note", V(z3.Function("v_note", I, I)(i)))])
        return PDict([], (lambda k: (h[k](i) if k in h else z3.BoolVal(k in f)), lambda k: V(f[k](i))))
    return f, h, item
def facts(f, i):
    return z3.And(f["nr_runs"](i) >= 1, f["code_K"](i) >= 1, *[z3.And(f[k](i) >= 0, f[k](i) <= f["nr_runs"](i)) for k in f if k.endswith("success_cnt")])
@contract("C23", D_ + ":merge_datasets")
def merge(c):
    n = Nat("n", 1); f, _, item = dataset(["nr_runs", "x_success_cnt", "z_success_cnt", "code_K"])
    i = fresh("i"); E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), facts(f, i))))
    E.assume(facts(f, z3.IntVal(0)))
    calls = []
    def stub(s, r, k): calls.append((s, r, k)); return tuple(Real(f"rate{len(calls)}_{j}") for j in range(4))
    src = PList([("s", n, item)])
    def t(): calls.clear(); c.mod(D_)._update_error_rates = stub; return c.fn()(src)
    def post(d):
        tot = {k: ssum(0, n.t, lambda j: f[k](j)) for k in ("nr_runs", "x_success_cnt", "z_success_cnt")}
        for k in tot: c.ob(f"{k} is the total over all datasets", lift(d[k]) == f[k](z3.IntVal(0)) + ssum(1, n.t, lambda j: f[k](j)))
        c.ob("other parameters are those of the first dataset", z3.And(lift(d["code_K"]) == f["code_K"](z3.IntVal(0)), lift(d["note"]) == z3.Function("v_note", I, I)(z3.IntVal(0))))
        got = {}
        for j, (s, r, k) in enumerate(calls): got[j] = (s, r, k)
        if c.ob("rates recomputed for both sides", len(calls) == 2):
            for nm, (s, r, k), pre in zip("xz", calls, ("rate1", "rate2")):
                c.ob(f"{nm} rates from the totals", z3.And(lift(s) == lift(d[nm + "_success_cnt"]), lift(r) == lift(d["nr_runs"]), lift(k) == f["code_K"](z3.IntVal(0))))
                for q, key in enumerate(("ler", "ler_eb", "wer", "wer_eb")):
                    c.ob(f"{nm}_{key} is the recomputed one", lift(d[f"{nm}_{key}"]) == Real(f"{pre}_{q}").t)
    c.run(t, post)
    c.run(lambda: c.fn()(PList([])), lambda d: c.ob("nothing to merge gives an empty record", isinstance(d, (dict, PDict)) and len(d.items_ if isinstance(d, PDict) else d) == 0))
def one_sided(side):
    @contract("C23", D_ + f":_merge_datasets_{side}")
    def f_(c):
        key = side + "_success_cnt"
        n = Nat("n"); f, h, item = dataset(["nr_runs", key, "code_K"], [key])
        i = fresh("i"); E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), facts(f, i))))
        calls = []
        def stub(s, r, k): calls.append((s, r, k)); return tuple(Real(f"rate{j}") for j in range(4))
        src = PList([("s", n, item)])
        def t(): calls.clear(); c.mod(D_)._update_error_rates = stub; return c.fn()(src)
        def post(d):
            has = lambda j: h[key](lift(j))
            if isinstance(d, PDict) and not d.items_ and d.default is None or isinstance(d, dict) and not d:
                q = fresh("q"); _, _, inv = seqs.sel_fn(n, lambda j: V(has(j))); E.assume(fresh("at") == inv(q))
                c.ob("empty only when no dataset has this side", z3.Implies(z3.And(q >= 0, q < n.t), z3.Not(has(q)))); return
            # the datasets with this side, in order: sel(0) < sel(1) < ... < sel(cnt-1), all of them (see seqs.sel_fn)
            cnt, sel, _ = seqs.sel_fn(n, lambda j: V(has(j)))
            c.ob("some dataset has this side", lift(cnt) >= 1)
            for k in ("nr_runs", key):
                c.ob(f"{k} is the total over the datasets with this side", lift(d[k]) == f[k](sel(z3.IntVal(0))) + ssum(0, lift(cnt) - 1, lambda j: f[k](sel(j + 1))))
            c.ob("code size is that of the first one", lift(d["code_K"]) == f["code_K"](sel(z3.IntVal(0))))
            if c.ob("rates recomputed", len(calls) == 1):
                s, r, k = calls[0]
                c.ob("rates from the totals", z3.And(lift(s) == lift(d[key]), lift(r) == lift(d["nr_runs"]), lift(k) == f["code_K"](sel(z3.IntVal(0)))))
                for q, kk in enumerate(("ler", "ler_eb", "wer", "wer_eb")): c.ob(f"{side}_{kk} is the recomputed one", lift(d[f"{side}_{kk}"]) == Real(f"rate{q}").t)
        c.run(t, post)
one_sided("x"); one_sided("z")
@contract("C23", D_ + ":_combine_xz_data")
def combine(c):
    common = ["code_K", "code_N"]
    def rec(side, stale, nm):
        ks = common + ["nr_runs"] + [f"{side}_{q}" for q in ("success_cnt", "ler", "ler_eb", "wer", "wer_eb")] + ([f"{o}_success_cnt" for o in "xz" if o != side] if stale else [])
        return ks, {k: Real(f"{nm}_{k}") for k in ks}
    for hx in (False, True):
        for hz in (False, True):
            for stale in (False, True):
                kx, vx = rec("x", stale, "x"); kz, vz = rec("z", stale, "z")
                for k in common: vz[k] = vx[k]      # same configuration
                def t():
                    xd = PDict([(k, vx[k]) for k in kx]) if hx else PDict([]); zd = PDict([(k, vz[k]) for k in kz]) if hz else PDict([])
                    return c.fn()(xd, zd)
                def post(d):
                    if not hx and not hz: return c.ob("nothing to combine gives an empty record", len(d) == 0 if isinstance(d, dict) else not d.items_)
                    tag = f"[{'x' if hx else ''}{'z' if hz else ''}{' mixed files' if stale else ''}] "
                    for s, h, vs in (("x", hx, vx), ("z", hz, vz)):
                        if not h: continue
                        c.ob(f"{tag}{s}_runs are the merged runs of that side", z3.And(lift(d.has(s + "_runs")), lift(d[s + "_runs"]) == vs["nr_runs"].t))
                        for q in ("success_cnt", "ler", "ler_eb", "wer", "wer_eb"): c.ob(f"{tag}{s}_{q} is the merged one of that side", lift(d[f"{s}_{q}"]) == vs[f"{s}_{q}"].t)
                    for k in common: c.ob(f"{tag}{k} kept", lift(d[k]) == vx[k].t)
                c.run(t, post, frame=False)
# ---- the sample loops: what is reported is what was counted
SS, AT, QS = ("analog_information_decoding.simulators." + x for x in ("simulation", "analog_tannergraph_decoding", "quasi_single_shot_v2"))
def run_loop(mod, cls, meth, sample, cnt, save, conv, two, neg):
    """two: both sides counted; neg: a sample reports failures instead of successes"""
    @contract("C23", f"{mod}:{cls}.run", f"{cls}.run")
    def f(c):
        n = Nat("samples", 1); md = c.mod(mod)
        ok = [z3.Function(f"success_{j}", I, B) for j in range(2 if two else 1)]      # outcome of the t-th sample
        S = [lambda k, j=j: ssum(1, lift(k) + 1, lambda t: b01(ok[j](t))) for j in range(len(ok))]
        cur = [z3.IntVal(0)]; rec = {}
        si = Nat("save_interval", 1)
        o = c.obj(mod, cls, save_interval=si, code_params=PDict([("k", Nat("k", 1)), ("n", Nat("nn", 1))]), eb_precision=Real("prec"), x_bp_iters=Int("xb"), z_bp_iters=Int("zb"), data_err_rate=Real("p"), syndr_err_rate=Real("q"), x_sigma=Real("xs"), z_sigma=Real("zs"),
                  bp_params="bp", x_bp_iterations=Int("xbi"), z_bp_iterations=Int("zbi"), _total_decoding_time=Real("time"), input_values=PDict([("seed", Int("seed"))]))
        def smp(*a):
            t = cur[0]; v = [V(z3.Not(ok[j](t)) if neg else ok[j](t)) for j in range(len(ok))]
            return tuple(v) if two else V(b01(ok[0](t)))
        def counts_ok(tag, args, k):
            c.ob(f"{tag}: counts of the samples so far", z3.And(*[lift(args[j]) == S[j](k) for j in range(len(ok))], lift(args[len(ok)]) == lift(k)))
        def sv(*a, **kw): rec.setdefault("save", []).append(a); counts_ok("saved", a, cur[0]); return "SAVED"
        def cv(*a, **kw): rec["conv"] = a; counts_ok("convergence test", a, cur[0]); return V(fresh("conv", B))
        def rt_(s, r, params):
            rec.setdefault("rates", []).append((s, r)); return tuple(Real(f"rate{len(rec['rates'])}_{j}") for j in range(4))
        def names(v): return [v[x] for x in cnt]
        def init(v, n_): c.ob("counting starts at zero", z3.And(*[lift(x) == 0 for x in names(v)])); c.ob("one iteration per sample", n_ == n.t)
        def havoc(v, k):
            cur[0] = simp(lift(k)); d = {x: V(fresh(x)) for x in cnt}
            for j, x in enumerate(cnt): E.assume(d[x].t == S[j](k))
            for x in v:
                if x in cnt: continue
                if isinstance(v[x], (V, int)) and not isinstance(v[x], bool) and x not in ("runs", "run"): d[x] = V(fresh(x))
            if not z3.is_int_value(simp(lift(k))) or simp(lift(k)).as_long() > 0: d[hk.var] = V(lift(k))
            return d
        def step(old, new, k, how):
            for j, x in enumerate(cnt): c.ob(f"{x} grows by the outcome of the sample", lift(new[x]) == lift(old[x]) + b01(ok[j](k + 1)))
            c.ob("run counter", lift(new[hk.var]) == k + 1)
            c.ob("a sample is only skipped by convergence", how in ("next", "break"))
        hk = LoopHook(c, cls + ".run", init, havoc, step, brk=lambda v, k: z3.BoolVal(True))
        hk.var = "run" if not two else "runs"
        def sample_(*a):
            cur[0] = simp(cur[0] + 1); E.assume(S_step(cur[0])); return smp()
        def S_step(t): return z3.And(*[S[j](t) == S[j](t - 1) + b01(ok[j](t)) for j in range(len(ok))])
        def t():
            rec.clear(); cur[0] = z3.IntVal(0); E.loops = hk; hk.hit = 0
            md.calculate_error_rates = rt_
            setattr(md, conv, cv)
            o.__dict__[sample] = sample_; o.__dict__[save] = sv
            o.__dict__["x_bp_iters"] = Int("xb"); o.__dict__["z_bp_iters"] = Int("zb")
            return o.run(n)
        def post(r):
            c.ob("the samples are one loop", hk.hit == 1)
            k = cur[0]
            c.ob("at least one sample, at most the requested number", z3.And(k >= 1, k <= n.t))
            if not two: return c.ob("the final record is the saved one", r == "SAVED")
            c.ob("rates are those of the counted samples", len(rec.get("rates", [])) == 2 and all(E.entails(z3.And(lift(s) == S[j](k), lift(rr) == k)) for j, (s, rr) in enumerate(rec["rates"])))
            c.ob("number of runs reported", lift(r["nr_runs"]) == k)
            for j, sd in enumerate("xz"):
                c.ob(f"{sd} successes reported", lift(r[sd + "_success_cnt"]) == S[j](k))
                for q, key in enumerate(("ler", "ler_eb", "wer", "wer_eb")): c.ob(f"{sd}_{key} reported", lift(r[f"{sd}_{key}"]) == Real(f"rate{j + 1}_{q}").t)
        try: c.run(t, post, modifies=[o], frame=False)
        finally: E.loops = {}
run_loop(SS, "SingleShotSimulator", "run", "_single_sample", ["x_success_cnt", "z_success_cnt"], "save_results", "is_converged", True, True)
run_loop(AT, "AtdSimulator", "run", "single_sample", ["x_success_cnt", "z_success_cnt"], "save_results", "is_converged", True, False)
run_loop(QS, "QssSimulator", "run", "_single_sample", ["success_cnt"], "_save_results", "_check_convergence", False, False)
