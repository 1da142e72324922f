from contracts.lib import *
D_ = "analog_information_decoding.utils.data_utils"
S_ = "analog_information_decoding.utils.simulation_utils"
NOTES = dict(assumptions=["the file system is a set of existing paths changed only by the calls made (no concurrent writer between the existence test and the reservation)",
                          "string formatting is uninterpreted; two formatted paths are equal when their constant text and formatted values are",
                          "termination of the search for a free identifier: finitely many files exist (partial correctness is proved)"],
             trusted=["pathlib.Path (mkdir, exists, touch, open), json.dump, locale"],
             outside=["extract_settings and load_data (readers, no result file is written)"])
class FS:
    """record of the file operations of one path; files existing before are an uninterpreted set over the last number in the name"""
    EX = z3.Function("EXISTS", I, B)
    def __init__(self): self.ops = []
class PathM:
    fs = None
    def __init__(self, p): self.p = p.p if isinstance(p, PathM) else p
    def mkdir(self, mode=0o777, parents=False, exist_ok=False): self.fs.ops.append(("mkdir", self.p, parents, exist_ok))
    def exists(self):
        nums = [x for x in text(self.p) if not isinstance(x, str)]
        self.fs.ops.append(("exists", self.p))
        if nums and isinstance(nums[-1][0], (V, int)) and nums[-1][1] is None: return V(FS.EX(lift(nums[-1][0])))
        raise Unsupported("existence test of an unexpected path")
    is_file = exists
    def touch(self, mode=0o666, exist_ok=True): self.fs.ops.append(("touch", self.p))
    def __truediv__(self, o): return PathM(loops.FStr([self.p, "/", o.p if isinstance(o, PathM) else o]))
    def __str__(self): raise Unsupported("str of path")
    def open(self, mode="r", **k): h = Handle(self.p, mode); self.fs.ops.append(("open", self.p, mode, h)); return h
class Handle:
    def __init__(self, p, mode): self.p, self.mode, self.written = p, mode, []
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, x): self.written.append(x)
class JsonM:
    """json: the text is represented by the value written"""
    def dump(self, obj, f, **k): f.written.append(("json", obj))
    def dumps(self, obj, **k): return ("json", obj)
class LocM:
    def getpreferredencoding(self, *a): return "utf-8"
def parts(*xs): return loops.FStr(list(xs))
P_ = loops.FPart
KW = {"nothing else": {}, "rates": ("data_err_rate", "syndr_err_rate"), "one width": ("data_err_rate", "sigma"), "two widths": ("data_err_rate", "x_sigma", "z_sigma"),
      "rates and width": ("data_err_rate", "syndr_err_rate", "sigma"), "width without rate": ("data_err_rate", "syndr_err_rate=None", "sigma")}
def outpath(kwname):
    @contract("C24", D_ + ":create_outpath", "create_outpath[" + kwname + "]")
    def f(c):
        keys = KW[kwname]; kw = {}
        for k in keys:
            if k.endswith("=None"): kw[k[:-5]] = None
            else: kw[k] = Real(k)
        code, exper = SStr(Nat("lc"), lambda i: z3.Function("code", I, I)(i)), SStr(Nat("le"), lambda i: z3.Function("exper", I, I)(i))
        b3 = [Real(f"b{i}") for i in range(3)]; ss = Bool("ss"); id0 = Nat("id")
        for mode in ("hard", "analog", "tg", "both"):
          for bias in (None, b3):
            for depth in ("none", "sus", "rounds", "both"):
              for rep in (None, Nat("rep", 1)):
                for meta in (0, 1, 2, 3):
                    if meta and (mode != "hard" or depth != "none"): continue       # independent flags: enough combinations
                    sus, rnd = Nat("sus", 1), Nat("rnd", 1)
                    args = dict(x_meta=bool(meta & 1), z_meta=bool(meta & 2), bias=PList.of(bias) if bias else None, codename=code, single_stage=ss,
                                sus_th_depth=sus if depth in ("sus", "both") else None, rounds=rnd if depth in ("rounds", "both") else None, identifier=id0,
                                analog_info=mode in ("analog", "both"), analog_tg=mode in ("tg", "both"), repetitions=rep, experiment=exper)
                    want = ["results/", P_(exper, None), "/", {"hard": "hard_syndrome/", "analog": "analog_info/", "tg": "analog_tg/", "both": "analog_info/"}[mode]]
                    if bias: want += ["single_stage=", P_(ss, None), "/bias=", P_(b3[0], None), "_", P_(b3[1], None), "_", P_(b3[2], None), "/"]
                    if depth in ("sus", "both"): want += ["sus_th_depth=", P_(sus, None), "/"]
                    elif depth == "rounds": want += ["rounds=", P_(rnd, None), "/"]
                    if rep is not None: want += ["repetitions=", P_(rep, None), "/"]
                    want += [f"x-meta={'true' if meta & 1 else 'false'}/z-meta={'true' if meta & 2 else 'false'}/", P_(code, None), "/"]
                    e3 = "f'.3e'"
                    if kwname.startswith("rates"): want += ["per_", P_(kw["data_err_rate"], e3), "_ser_", P_(kw["syndr_err_rate"], e3), "/"]
                    elif "sigma" in kw: want += ["per_", P_(kw["data_err_rate"], e3), "_sigma_", P_(kw["sigma"], e3), "/"]
                    elif "z_sigma" in kw: want += ["per_", P_(kw["data_err_rate"], e3), "_x_sigma_", P_(kw["x_sigma"], e3), "_z_sigma_", P_(kw["z_sigma"], e3), "/"]
                    one(c, f"[{mode} {'bias ' if bias else ''}{depth} {'rep ' if rep is not None else ''}{meta}] ", args, kw, want, id0)
    def one(c, tag, args, kw, want, id0):
        fs = FS(); fs_log = []
        file = lambda i: parts(*want, "id_", P_(i, None), ".json")
        def isfile(x, i): return text_eq(x, file(i))
        st = {}
        def init(vals):
            c.ob(tag + "search starts at the requested identifier", bool(E.entails(lift(vals["identifier"]) == id0.t)) and isfile(vals.get("f_loc", ""), vals["identifier"]))
            c.ob(tag + "nothing but the directory is created before the search", [o[0] for o in fs.ops if o[0] != "exists"] == ["mkdir"])
            st["n"] = len(fs.ops)
        def havoc(vals):
            i = V(fresh("id")); E.assume(i.t >= id0.t); st["n"] = len(fs.ops)
            return {"identifier": i, "f_loc": file(i)}
        def step(old, new):
            c.ob(tag + "the search moves to the next identifier", E.entails(lift(new["identifier"]) == lift(old["identifier"]) + 1) and isfile(new["f_loc"], new["identifier"]))
            c.ob(tag + "the search changes no file", all(o[0] == "exists" for o in fs.ops[st["n"]:]))
        hk = WhileHook(c, "create_outpath", init, havoc, step)
        def t():
            fs.ops.clear(); E.loops = hk; PathM.fs = fs; md = c.mod(D_); md.Path = PathM
            return c.fn()(**args, **kw)
        def post(r):
            nums = [x for x in text(r) if not isinstance(x, str)]
            ops = [o for o in fs.ops if o[0] != "exists"]
            i = nums[-1][0] if nums else None
            c.ob(tag + "the file lies in the directory of the parameters", isfile(r, i))
            c.ob(tag + "the file did not exist before", z3.Not(FS.EX(lift(i))) if i is not None else False)
            c.ob(tag + "the directory is created and the file reserved as an empty one, nothing else", len(ops) == 2 and ops[0][0] == "mkdir" and text_eq(ops[0][1], parts(*want)) and ops[0][2:] == (True, True) and ops[1][0] == "touch" and text_eq(ops[1][1], r))
        try: c.run(t, post, name="create_outpath " + tag)
        finally: E.loops = {}
for k in KW: outpath(k)

@contract("C24", D_ + ":replace_inf")
def rinf(c):
    n = Nat("n"); f = z3.Function("item", I, R)
    src = PList([("s", n, lambda i: V(f(lift(i))))])
    def post(r):
        if not c.ob("one entry per value", isinstance(r, PList) and E.entails(lift(r.vc_len()) == n.t)): return
        q = fresh("q"); E.assume(z3.And(q >= 0, q < n.t)); v = r.get(V(q)); inf = z3.Or(f(q) == INF, f(q) == -INF)
        for g, w in (v.alts if isinstance(v, seqs.Alt) else [(z3.BoolVal(True), v)]):
            if isinstance(w, str): c.ob("only infinite values become the marker", z3.Implies(g, z3.And(z3.BoolVal(w == "i"), inf)))
            else: c.ob("finite values are kept, infinite ones are not", z3.Implies(g, z3.And(z3.Not(inf), lift(w) == f(q))))
    c.run(lambda: c.fn()(src), post)

def saved(fs, out):
    """the single write of a path: (file, value)"""
    ops = [o for o in fs.ops if o[0] != "exists"]
    if len(ops) != 1 or ops[0][0] != "open": return None
    _, p, mode, h = ops[0]
    if mode not in ("w", "wt") or len(h.written) != 1 or not (isinstance(h.written[0], tuple) and h.written[0][0] == "json"): return None
    return p, h.written[0][1]
def save(target, name, call, fields):
    @contract("C24", target, name)
    def f(c):
        md = c.mod(target.split(":")[0])
        fs = FS(); rates = {}
        vals = {k: Real(k) for k in ("s1", "s2", "r", "p", "q", "xs", "zs", "it1", "it2", "time", "k", "n", "extra")}
        E.assume(vals["r"].t >= 1)
        bias = [Real("b0"), Real("b1"), Real("b2")]
        def stub(s, r, params):
            rates[id(s)] = (r, params); j = "x" if s is vals["s1"] else "z"
            return tuple(Real(f"{j}_{q}") for q in ("ler", "eb", "wer", "web"))
        def t():
            fs.ops.clear(); rates.clear(); PathM.fs = fs
            md.Path, md.json, md.locale, md.calculate_error_rates = PathM, JsonM(), LocM(), stub
            md.replace_inf = lambda b: ("cleaned", b)
            return call(c, vals, bias)
        def post(out):
            w = saved(fs, out)
            if not c.ob("exactly one file is written, once, as json", w is not None): return
            c.ob("written to the reserved file", w[0] == "OUT")
            c.ob("the returned record is the written one", w[1] is out)
            for k, v in fields(vals, bias).items():
                try: got = out[k]
                except KeyError: c.ob(f"{k} reported", False); continue
                if isinstance(v, tuple): c.ob(f"{k} has its infinities replaced", got == v or (isinstance(got, tuple) and len(got) == 2 and got[0] == "cleaned" and got[1] is v[1]))
                elif isinstance(v, (V, z3.ExprRef)): c.ob(f"{k} is exact", to_real(lift(got)) == to_real(lift(v)))
                else: c.ob(f"{k} is kept", got is v or got == v)
        c.run(t, post, frame=False)
def rate_fields(side, j, s, v): return {f"{side}_ler": Real(f"{j}_ler"), f"{side}_ler_eb": Real(f"{j}_eb"), f"{side}_wer": Real(f"{j}_wer"), f"{side}_wer_eb": Real(f"{j}_web"), f"{side}_success_cnt": v[s]}
def call1(c, v, b):
    call1.b = PList.of(b)
    return c.fn()(success_cnt=v["s1"], nr_runs=v["r"], p=v["p"], s=v["q"], input_vals=PDict([("bias", call1.b), ("extra", v["extra"])]), outfile="OUT", code_params=PDict([("k", v["k"]), ("n", v["n"])]), bp_params="bp", err_side="z", bp_iterations=v["it1"])
save(S_ + ":save_results", "save_results", call1, lambda v, b: {"code_K": v["k"], "code_N": v["n"], "nr_runs": v["r"], "pers": v["p"], "sers": v["q"], "extra": v["extra"], "bias": ("cleaned", call1.b), **rate_fields("z", "x", "s1", v), "avg_bp_iterations": v["it1"].t / v["r"].t, "bp_params": "bp"})
SS, AT = "analog_information_decoding.simulators.simulation", "analog_information_decoding.simulators.analog_tannergraph_decoding"
def call2(c, v, b):
    call2.b = PList.of(b)
    o = c.obj(SS, "SingleShotSimulator", code_params=PDict([("k", v["k"]), ("n", v["n"])]), data_err_rate=v["p"], syndr_err_rate=v["q"], _total_decoding_time=v["time"], input_values=PDict([("bias", call2.b), ("extra", v["extra"])]), outfile="OUT")
    return o.save_results(v["s1"], v["s2"], v["r"], x_bp_iters=v["it1"], z_bp_iters=v["it2"])
save(SS + ":SingleShotSimulator.save_results", "single_shot_save", call2, lambda v, b: {"code_K": v["k"], "code_N": v["n"], "nr_runs": v["r"], "pers": v["p"], "sers": v["q"], "extra": v["extra"], "bias": ("cleaned", call2.b), **rate_fields("x", "x", "s1", v), **rate_fields("z", "z", "s2", v), "avg_x_bp_iter": v["it1"].t / v["r"].t, "avg_z_bp_iter": v["it2"].t / v["r"].t})
def call3(c, v, b):
    o = c.obj(AT, "AtdSimulator", code_params=PDict([("k", v["k"]), ("n", v["n"])]), data_err_rate=v["p"], x_sigma=v["xs"], z_sigma=v["zs"], x_bp_iterations=v["it1"], z_bp_iterations=v["it2"], bp_params="bp", input_values=PDict([("extra", v["extra"])]), outfile="OUT")
    return o.save_results(v["s1"], v["s2"], v["r"])
save(AT + ":AtdSimulator.save_results", "analog_save", call3, lambda v, b: {"code_K": v["k"], "code_N": v["n"], "nr_runs": v["r"], "pers": v["p"], "x_sigma": v["xs"], "z_sigma": v["zs"], "extra": v["extra"], **rate_fields("x", "x", "s1", v), **rate_fields("z", "z", "s2", v), "x_bp_iterations": v["it1"].t / v["r"].t, "z_bp_iterations": v["it2"].t / v["r"].t, "bp_params": "bp"})
