from contracts.lib import *
from vc.models import LOG
P_ = "analog_information_decoding."
M = P_ + "simulators.memory_experiment_v2"; Q = P_ + "simulators.quasi_single_shot_v2"; U = P_ + "utils.simulation_utils"
NOTES = dict(assumptions=["window with an even number >= 2 of columns, binary syndromes and a decoder that returns one 0/1 entry per column of the multi-round matrix; floats are reals"],
             outside=["ldpc bposd decoder and pymatching: their estimates are arbitrary binary vectors"])

@contract("C22", M + ":move_syndrome")
def move(c):
    m, h = Nat("m"), Nat("half"); s = sym_array("s", (m, h * 2))
    c.run(lambda: c.fn()(s), lambda r: arr_is(c, "second half becomes first half, rest zero, width unchanged", r, (m, h * 2), lambda i, j: z3.If(j < h.t, s.at(i, j + h.t), z3.IntVal(0))))
@contract("C22", M + ":move_syndrome", "move_analog")
def move_analog(c):
    m, h = Nat("m"), Nat("half"); s = sym_array("s", (m, h * 2), kind="f")
    def post(r):
        arr_is(c, "second half becomes first half, rest zero, values unchanged", r, (m, h * 2), lambda i, j: z3.If(j < h.t, s.at(i, j + h.t), z3.RealVal(0)))
    c.run(lambda: c.fn()(s, data_type=np.float64), post)

class Dec:
    """an arbitrary decoder: records what it is given and answers with an arbitrary binary vector"""
    def __init__(self, n): self.n = n; self.asked, self.channels = [], []; self.iter = Nat("iter"); self.D = binvec("D", n)
    def decode(self, s): self.asked.append(s.snapshot() if hasattr(s, "snapshot") else s); return self.D.copy()
    def update_channel_probs(self, p): self.channels.append(p.snapshot())

@contract("C22", M + ":get_updated_decoder")
def updated(c):
    n = Nat("n"); ch = sym_array("ch", (n,), kind="f"); d = Dec(n)
    i = fresh("i"); E.assume(z3.And(i >= 0, i < n.t))
    def post(r):
        c.ob("the same decoder is returned", r is d)
        c.ob("its channel is replaced once", len(d.channels) == 1)
        if d.channels: arr_is(c, "channel handed to the decoder", d.channels[0], (n,), lambda k: ch.at(k))
    def t(): d.channels = []; return c.fn()("bposd", d, ch)
    c.run(t, post)
    calls = []
    def Match(h, weights=None, **k): calls.append((h, weights)); return ("matching", h)
    def t2():
        calls.clear(); md = c.mod(M); md.Matching = Match
        return c.fn()("matching", d, ch, h3d="H3D")
    E.assume(z3.And(ch.at(i) > 0, ch.at(i) < 1))
    def post2(r):
        c.ob("a matching decoder for the same multi-round matrix", len(calls) == 1 and calls[0][0] == "H3D" and r == ("matching", "H3D"))
        w = calls[0][1]; v = LOG((1 - ch.at(i)) / ch.at(i)); B = 16777215
        c.ob("weights are the clipped log-likelihood ratios", A.cast(w.at(i), "f") == z3.If(v < -B, z3.RealVal(-B), z3.If(v > B, z3.RealVal(B), v)))
    c.run(t2, post2)
    c.run(lambda: c.fn()("other", d, ch), lambda r: c.ob("unknown method rejected", False), lambda e: c.ob("unknown method raises ValueError", isinstance(e, ValueError)))

def decode(name, last, analog, method):
    @contract("C22", M + ":decode_multiround", name)
    def f(c):
        m, n, h = Nat("m", 1), Nat("n", 1), Nat("half", 1)
        rep = h * 2
        H = binmat("H", m, n); S = binmat("S", m, rep); N = n * rep + m * rep
        ch = sym_array("ch", (N,), kind="f"); d = Dec(N)
        an = sym_array("an", (m, rep), kind="f") if analog else None
        sg = Real("sigma")
        s0 = S.snapshot(); D = d.D
        md = c.mod(M)
        dec2 = Dec(N); dec2.D = D
        vals = []
        def virt(y, s): vals.append((y.snapshot(), s)); return V_
        V_ = sym_array("virt", (m * rep,), kind="f")
        rebuilt = []
        def Match(hh, weights=None, **k): rebuilt.append((hh, weights.snapshot())); return dec2
        def t():
            d.asked, d.channels, dec2.asked = [], [], []; vals.clear(); rebuilt.clear()
            md.get_virtual_check_init_vals = virt; md.Matching = Match
            return c.fn()(S, H, d, ch, rep, an, last_round=last, check_block_size=n * rep, sigma=sg, h3d="H3D", decoding_method=method)
        def post(r):
            out, syn, an2, it = r
            i, j, q, k = fresh("i"), fresh("j"), fresh("q"), fresh("k")
            E.assume(z3.And(i >= 0, i < m.t, j >= 0, j < rep.t, q >= 0, q < n.t))
            # --- channel of this window
            def want(x):
                v = ch.at(x) if not analog else z3.If(x < n.t * rep.t, ch.at(x), V_.at(x - n.t * rep.t))
                return z3.If(x >= N.t - m.t, z3.RealVal("1e-15"), v) if last else v
            E.assume(z3.And(k >= 0, k < N.t))
            if method == "bposd":
                c.ob("the decoder works with the channel of this window", len(d.channels) >= 1)
                if d.channels: c.ob("channel of this window", z3.And(lift(d.channels[-1]._shape[0]) == N.t, A.cast(d.channels[-1].at(k), "f") == want(k)))
            elif last or analog:
                if c.ob("the matching weights are rebuilt for this window", len(rebuilt) == 1 and rebuilt[0][0] == "H3D"):
                    v = LOG((1 - want(k)) / want(k)); B = 16777215
                    c.ob("weights of this window", A.cast(rebuilt[0][1].at(k), "f") == z3.If(v < -B, z3.RealVal(-B), z3.If(v > B, z3.RealVal(B), v)))
            if analog:
                if c.ob("virtual values computed once", len(vals) == 1):
                    y, s = vals[0]
                    c.ob("virtual values use the width of the syndrome noise", lift(s) == sg.t)
                    E.assume(z3.And((j * m.t + i) / m.t == j, (j * m.t + i) % m.t == i))
                    c.ob("virtual values come from the analog readings in time order", z3.And(lift(y._shape[0]) == m.t * rep.t, y.at(j * m.t + i) == an.at(i, j)))
            asked = d.asked + dec2.asked
            if c.ob("decoded exactly once", len(asked) == 1):
                a = asked[0]
                E.assume(z3.And((j * m.t + i) / m.t == j, (j * m.t + i) % m.t == i))
                c.ob("one entry per check and round", lift(a._shape[0]) == m.t * rep.t)
                c.ob("difference syndrome in time order", a.at(j * m.t + i) == z3.If(j == 0, s0.at(i, j), (s0.at(i, j) + s0.at(i, j - 1)) % 2))
            # --- returned correction: sum of the data corrections of the committed rounds
            upto = rep.t if last else h.t
            c.ob("one entry per qubit", z3.And(lift(out._shape[0]) == n.t, out.ndim == 1))
            c.ob("correction is the sum of the committed rounds" + (" (all rounds)" if last else ""), out.at(q) == b01(par(0, upto, lambda t_: D.at(t_ * n.t + q) == 1)))
            c.ob("analog readings unchanged", an2 is an)
            c.ob("syndrome matrix keeps its shape", z3.And(lift(syn._shape[0]) == m.t, lift(syn._shape[1]) == rep.t))
            got = syn.at(i, j)
            if last: c.ob("syndrome unchanged in the last round", got == s0.at(i, j))
            else:
                corr = b01(par(0, n.t, lambda x: z3.And(H.at(i, x) == 1, out.at(x) == 1)))
                tm = D.at(n.t * rep.t + (h.t - 1) * m.t + i)
                c.ob("commit region unchanged", z3.Implies(j < h.t, got == s0.at(i, j)))
                c.ob("syndrome stays binary", z3.And(got >= 0, got <= 1))
                c.ob("tentative region carries the correction forward", z3.Implies(j > h.t, got == (s0.at(i, j) + corr) % 2))
                c.ob("first tentative round also gets the time-like correction", z3.Implies(j == h.t, got == ((s0.at(i, j) + corr) % 2 + tm) % 2))
            if method == "bposd": c.ob("iteration count reported", lift(it) == lift(d.iter))
            else: c.ob("no iteration count", lift(it) == 0)
        c.run(t, post, modifies=[S])
for last in (False, True):
    for analog in (False, True):
        for meth in ("bposd", "matching"):
            decode(f"decode_{'last' if last else 'mid'}_{'analog' if analog else 'hard'}_{meth}", last, analog, meth)

@contract("C22", M + ":decode_multiround", "telescope")
def telescope(c):
    """difference syndromes sum up to the raw syndromes: induction over the rounds"""
    s = z3.Function("raw", I, I); d = lambda j: z3.If(j == 0, s(j), (s(j) + s(j - 1)) % 2)
    x = fresh("j")
    E.assume(x >= 0)
    for t in (x, x + 1, z3.IntVal(0)): E.assume(z3.And(s(t) >= 0, s(t) <= 1))
    S_ = fresh("prefix")
    c.ob("telescoping: base", d(z3.IntVal(0)) % 2 == s(z3.IntVal(0)))
    c.ob("telescoping: step", z3.Implies(S_ % 2 == s(x), (S_ + d(x + 1)) % 2 == s(x + 1)))

# ------------------------------------------------------------------ one memory experiment: every round of every history
def sample(name, analog, side):
    @contract("C22", Q + ":QssSimulator._single_sample", name)
    def f(c):
        m, n, h, l, R_ = Nat("m", 1), Nat("n", 1), Nat("half", 1), Nat("l"), Nat("rounds", 1)
        rep = h * 2; H = binmat("H", m, n); L = binmat("L", l, n)
        bx, by, bz = (sym_array("b" + k, (n,), kind="f") for k in "xyz"); sc = sym_array("sc", (m,), kind="f")
        o = c.obj(Q, "QssSimulator", num_checks=m, num_qubits=n, repetitions=rep, rounds=R_, analog_tg=analog, H=H, L=L, x_bit_chnl=bx, y_bit_chnl=by, z_bit_chnl=bz,
                  err_idx=side, syndr_err_channel=sc, sigma=Real("sigma"), bp_iterations=Int("bpi"))
        log = []
        md = c.mod(Q)
        def gen(nr_qubits, channel_probs, residual_err):
            e = [binvec("ex", n), binvec("ez", n)]
            log.append(("err", nr_qubits, channel_probs, [x.snapshot() for x in residual_err], [x.snapshot() for x in e])); return tuple(e)
        def gens(ch): s = binvec("se", m); log.append(("synerr", ch, s.snapshot())); return s
        def noisy(s, sg): a = sym_array("an", (m,), kind="f"); log.append(("noisy", s.snapshot(), sg, a.snapshot())); return a
        def thr(a): s = binvec("th", m); log.append(("thr", a.snapshot(), s.snapshot())); return s
        def dec(syn, an, last_round=False):
            corr, s2 = binvec("corr", n), binmat("S2", m, rep); a2 = an
            log.append(("dec", syn.snapshot(), an.snapshot() if an is not None else None, last_round, corr.snapshot(), s2.snapshot())); return corr, s2, a2, Int("it")
        md.generate_err, md.generate_syndr_err, md.get_noisy_analog_syndrome, md.get_binary_from_analog = gen, gens, noisy, thr
        o.__dict__["_decode_multiround"] = dec
        final = []
        def logical(Lm, e): final.append((Lm, e.snapshot())); return mk(z3.Bool("islog"))
        md.is_logical_err = logical
        def roles(v):
            """state variables by what they are, not by what they are called"""
            r = {}
            for k, x in v.items():
                if isinstance(x, SArr) and x.ndim == 2: r["A" if x.kind == "f" else "S"] = k
                elif isinstance(x, SArr) and x.ndim == 1 and E.entails(lift(x._shape[0]) == n.t) and k in entry: r["e"] = k
                elif isinstance(x, (V, int)) and not isinstance(x, bool) and k in entry: r["c"] = k
            return r
        entry, R0 = {}, {}
        hv = {}
        ghost = lambda k, cnt, g: z3.And(g >= 0, k == cnt + h.t * g, z3.Or(g == 0, cnt >= h.t))
        def inv(S_, A_, e, cnt):
            i, j, q = fresh("i"), fresh("j"), fresh("q")
            fs = [z3.And(cnt >= 0, cnt < rep.t)]
            fs.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m.t, j >= cnt, j < rep.t), S_.at(i, j) == 0)))
            if A_ is not None: fs.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m.t, j >= cnt, j < rep.t), A_.at(i, j) == 0)))
            fs.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), z3.And(e.at(q) >= 0, e.at(q) <= 1))))
            fs.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m.t, j >= 0, j < rep.t), z3.And(S_.at(i, j) >= 0, S_.at(i, j) <= 1))))
            return fs
        def check_inv(tag, v):
            r = R0
            fs = inv(v[r["S"]], v[r["A"]] if analog else None, v[r["e"]], lift(v[r["c"]]))
            nm = ["window position inside the window", "columns not yet filled are zero"] + (["analog columns not yet filled are zero"] if analog else []) + ["error stays binary", "syndromes stay binary"]
            for a, b in zip(nm, fs): c.ob(f"{tag}: {a}", b)
            c.ob(f"{tag}: window shape", z3.And(*[lift(a) == lift(b) for a, b in zip(v[r["S"]]._shape, (m, rep))], *( [lift(a) == lift(b) for a, b in zip(v[r["A"]]._shape, (m, rep))] if analog else [])))
            c.ob(f"{tag}: error length", lift(v[r["e"]]._shape[0]) == n.t)
        def init(v, n_):
            entry.clear(); entry.update({k: x for k, x in v.items() if isinstance(x, (SArr, V, int)) and not isinstance(x, bool)})
            R0.clear(); R0.update(roles(v))
            if not c.ob("loop state recognised", set(R0) == ({"S", "A", "e", "c"} if analog else {"S", "e", "c"})): raise Unsupported("loop state not recognised")
            c.ob("as many rounds as configured", n_ == R_.t)
            c.ob("starts at the first column", ghost(z3.IntVal(0), lift(v[R0["c"]]), z3.IntVal(0)))
            q = fresh("q"); E.ctxs.append(core.Ctx([])); E.assume(z3.And(q >= 0, q < n.t))
            c.ob("starts without errors", v[R0["e"]].at(q) == 0); E.ctxs.pop()
            check_inv("entry", v)
        def havoc(v, k):
            S_, e = sym_array("W", (m, rep)), binvec("err", n)
            A_ = sym_array("WA", (m, rep), kind="f") if analog else None
            cnt = E.skolem("cnt")
            for x in inv(S_, A_, e, cnt): E.assume(x)
            out = {R0["S"]: S_, R0["e"]: e, R0["c"]: V(cnt)}
            g = E.skolem("windows")          # ghost: number of windows decoded so far
            hv.update(e=e, g=g); E.assume(ghost(k, cnt, g))
            if analog: out[R0["A"]] = A_
            out.update({x: None for x, y in v.items() if y is None})
            o.bp_iterations = V(fresh("bpit"))      # statistics
            log.clear()
            return out
        def step(old, new, k, how):
            last = k == R_.t - 1
            kinds = [x[0] for x in log]
            c.ob("no early exit", how == "next")
            for x, v in old.items():
                if v is None: c.ob("the unused analog history stays unused", new[x] is None)
            if not c.ob("one error per round", kinds.count("err") == 1): return
            _, nq, chs, res, out = log[kinds.index("err")]
            q, i, j = fresh("q"), fresh("i"), fresh("j")
            E.assume(z3.And(q >= 0, q < n.t, i >= 0, i < m.t, j >= 0, j < rep.t))
            e0, S0, cnt = old[R0["e"]], old[R0["S"]], lift(old[R0["c"]])
            c.ob("both parts of the residual are the error left by the earlier rounds", z3.And(lift(nq) == n.t, *[x.at(q) == e0.at(q) for x in res], len(res) == 2))
            c.ob("channels in the order X, Y, Z", chs[0] is bx and chs[1] is by and chs[2] is bz)
            e1 = lambda x: out[side].at(x)
            syn = b01(par(0, n.t, lambda x: z3.And(H.at(i, x) == 1, e1(x) == 1)))
            full = cnt + 1 == rep.t
            if analog:
                an = [x for x in log if x[0] == "noisy"]; th = [x for x in log if x[0] == "thr"]
                if not c.ob("one analog reading per round", len(an) == 1): return
                c.ob("analog reading of the true syndrome", an[0][1].at(i) == syn)
                c.ob("width of the reading: sigma, zero in the last round", A.cast(lift(an[0][2]), "f") == z3.If(last, z3.RealVal(0), o.sigma.t))
                read = an[0][3]
                c.ob("hard syndrome is the thresholded reading, true syndrome in the last round", z3.If(last, z3.BoolVal(len(th) == 0), z3.And(z3.BoolVal(len(th) == 1), th[0][1].at(i) == read.at(i)) if th else z3.BoolVal(False)))
                sval = th[0][2].at(i) if th else syn
            else:
                se = [x for x in log if x[0] == "synerr"]
                c.ob("syndrome error drawn except in the last round", z3.If(last, z3.BoolVal(len(se) == 0), z3.BoolVal(len(se) == 1 and se[0][1] is sc)))
                sval = (syn + se[0][2].at(i)) % 2 if se else syn
            col = lambda i_, j_: z3.If(j_ == cnt, sval, S0.at(i_, j_))
            E.assume(z3.And(*[S0.at(i, x) == 0 for x in (cnt,)]))   # instance of the invariant
            ds = [x for x in log if x[0] == "dec"]
            c.ob("decoding exactly when the window is full", z3.BoolVal(len(ds) == 1) == full)
            S1, e2, c1 = new[R0["S"]], new[R0["e"]], lift(new[R0["c"]])
            g, d = hv["g"], fresh("d")
            c.ob("position in the window follows the number of decoded windows", z3.Implies(z3.Not(last), ghost(k + 1, c1, g + len(ds))))
            kk = fresh("kk")
            lemma(c, "rounds left", z3.Implies(z3.And(last, R_.t == h.t * kk, d == kk - g), h.t * d == cnt + 1))
            lemma(c, "one or two halves", z3.Implies(z3.And(last, h.t * d == cnt + 1), z3.And(d >= 1, d <= 2)))
            c.ob("when the rounds are two or more half windows the last round completes a window and is decoded", z3.Implies(z3.And(last, R_.t == h.t * kk, kk >= 2, d == kk - g), full))
            if ds:
                _, syn_in, an_in, lr, corr, s2 = ds[0]
                c.ob("the decoder sees the window with the new syndrome in its column", syn_in.at(i, j) == col(i, j))
                if analog:
                    A0 = old[R0["A"]]
                    E.assume(A0.at(i, cnt) == 0)
                    c.ob("the decoder sees the analog window with the new reading in its column", an_in.at(i, j) == z3.If(j == cnt, read.at(i), A0.at(i, j)))
                c.ob("final round flagged as such", to_bool(lift(lr)) == last)
                c.ob("the error left is the error plus the returned correction", e2.at(q) == (e1(q) + corr.at(q)) % 2)
                c.ob("the window moves to the tentative half", z3.Implies(z3.Not(last), z3.And(c1 == h.t, S1.at(i, j) == z3.If(j < h.t, s2.at(i, j + h.t), z3.IntVal(0)))))
            else:
                c.ob("without decoding the error is only accumulated", e2.at(q) == e1(q))
                c.ob("next column", c1 == cnt + 1)
                c.ob("window keeps the earlier syndromes and gets the new one", S1.at(i, j) == col(i, j))
            E.ctxs.append(core.Ctx([]))
            try:
                E.assume(z3.Not(last))      # after the last round the state is not used as a window again
                check_inv("step", new)
            finally: E.ctxs.pop()
        hk = LoopHook(c, "_single_sample", init, havoc, step)
        def post(r):
            c.ob("the rounds are one loop over all rounds", hk.hit >= 1)
            c.ob("success means that the error left is no logical error", len(final) >= 1 and final[-1][0] is L)
            q = fresh("q"); E.assume(z3.And(q >= 0, q < n.t))
            c.ob("the tested error is the one left after the last round", final[-1][1].at(q) == hv["e"].at(q))
            c.ob("returns 1 for success, 0 for failure", lift(r) == b01(z3.Not(z3.Bool("islog"))))
        try: c.run(lambda: o._single_sample(), post, modifies=[o])
        finally: E.loops = {}
for side in (0, 1):
    sample(f"sample_hard_{'xz'[side]}", False, side)
    sample(f"sample_analog_{'xz'[side]}", True, side)

@contract("C22", Q + ":QssSimulator._decode_multiround")
def wired(c):
    calls = []
    md = c.mod(Q)
    for meth in ("bposd", "matching"):
        o = c.obj(Q, "QssSimulator", H="H", decoder="dec", repetitions="rep", check_block_size="cbs", sigma="sg", H3D="H3D", channel_probs="ch", decoding_method=meth)
        def stub(syndrome, pcm, decoder, channel_probs, repetitions, analog_syndr, last_round=False, check_block_size=0, sigma=0.0, h3d=None, decoding_method="bposd"):
            calls.append((syndrome, pcm, decoder, channel_probs, repetitions, analog_syndr, last_round, check_block_size, sigma, h3d, decoding_method)); return "out"
        def t(): calls.clear(); md.decode_multiround = stub; return o._decode_multiround("S", "A", last_round="last")
        def post(r):
            c.ob(f"{meth}: window, code, decoder, channel, width and round flag are handed through", r == "out" and len(calls) == 1 and calls[0][:9] == ("S", "H", "dec", "ch", "rep", "A", "last", "cbs", "sg") and calls[0][10] == meth and (meth == "bposd" or calls[0][9] == "H3D"))
        c.run(t, post)

def setup(name, side, meth, analog):
    @contract("C22", Q + ":QssSimulator.__init__", name)
    def f(c):
        m, n, h = Nat("m", 1), Nat("n", 1), Nat("half", 1); rep = h * 2
        H = binmat("H", m, n); md = c.mod(Q)
        bits = [sym_array("b" + k, (n,), kind="f") for k in "xyz"]; syn = [sym_array("s" + k, (m,), kind="f") for k in "xyz"]
        log = []
        class H3:
            shape = (m * rep, n * rep + m * rep)
        h3 = H3()
        def chan(error_rate, xyz_error_bias, nr_qubits): log.append(("ch", error_rate, xyz_error_bias, nr_qubits)); return tuple(bits if error_rate == "per" else syn)
        def build(H_, reps): log.append(("h3d", H_, reps)); return h3
        def dec(**k): log.append(("dec", k)); return "decoder"
        def match(hh, weights=None): log.append(("match", hh, weights)); return "decoder"
        def sigma(x): log.append(("sigma", x)); return Real("sg")
        bp = c.obj(Q, "QssSimulator", max_bp_iter="mi", bp_method="bm", osd_order="oo", osd_method="om", ms_scaling_factor="ms")
        def t():
            log.clear()
            md.error_channel_setup, md.build_multiround_pcm, md.bposd_decoder, md.Matching, md.get_sigma_from_syndr_er, md.set_seed = chan, build, dec, match, sigma, lambda s: None
            return c.cls(Q, "QssSimulator")(H, "per", "ser", "L", "bias", "name", bp, "params", decoding_method=meth, check_side=side, analog_tg=analog, repetitions=rep, rounds="R")
        def post(o):
            i, q, j = fresh("i"), fresh("q"), fresh("j")
            N = n.t * rep.t + m.t * rep.t
            E.assume(z3.And(q >= 0, q < n.t, i >= 0, i < m.t, j >= 0, j < rep.t))
            a, b = (2, 1) if side == "X" else (0, 1)     # X checks see Z and Y errors, Z checks see X and Y errors
            c.ob("side of the error", o.err_idx == (1 if side == "X" else 0))
            c.ob("channels requested for bits and syndromes", sorted(str(x[1]) for x in log if x[0] == "ch") == ["per", "ser"] and all(E.entails(lift(x[3]) == (n.t if x[1] == "per" else m.t)) and x[2] == "bias" for x in log if x[0] == "ch"))
            data = lambda x: bits[a].at(x) + bits[b].at(x); sd = lambda x: syn[a].at(x) + syn[b].at(x)
            c.ob("data channel is that of the errors the checks see", z3.And(o.data_err_channel.at(q) == data(q), o.syndr_err_channel.at(i) == sd(i)))
            hs = [x for x in log if x[0] == "h3d"]
            c.ob("multi-round matrix spans the window", len(hs) == 1 and hs[0][1] is H and E.entails(lift(hs[0][2]) == rep.t - 1) and o.H3D is h3)
            c.ob("data block size", lift(o.check_block_size) == n.t * rep.t)
            ch = o.channel_probs
            c.ob("channel covers all columns", lift(ch._shape[0]) == N)
            E.assume(z3.And((j * n.t + q) / n.t == j, (j * n.t + q) % n.t == q, (j * m.t + i) / m.t == j, (j * m.t + i) % m.t == i))
            E.assume(z3.And(j * n.t + q < n.t * rep.t, j * n.t + q >= 0, j * m.t + i < m.t * rep.t, j * m.t + i >= 0))
            c.ob("data columns carry the data channel", ch.at(j * n.t + q) == data(q))
            c.ob("time-like columns carry the syndrome channel", ch.at(n.t * rep.t + j * m.t + i) == sd(i))
            sg = [x for x in log if x[0] == "sigma"]
            c.ob("width of the analog noise from the syndrome rate", z3.And(z3.BoolVal(len(sg) == 1), lift(sg[0][1]) == sd(z3.IntVal(0)), to_real(lift(o.sigma)) == z3.Real("sg")) if analog else to_real(lift(o.sigma)) == 0)
            ds = [x for x in log if x[0] in ("dec", "match")]
            if meth == "bposd": c.ob("decoder for the multi-round matrix and this channel", len(ds) == 1 and ds[0][1]["parity_check_matrix"] is h3 and ds[0][1]["channel_probs"] is ch)
            else: c.ob("matching decoder for the multi-round matrix", len(ds) == 1 and ds[0][1] is h3)
            c.ob("decoder kept", o.decoder == "decoder")
            c.ob("parameters kept", o.H is H and o.L == "L" and o.rounds == "R" and E.entails(lift(o.repetitions) == rep.t))
        c.run(t, post)
for side in "XZ":
    for meth in ("bposd", "matching"):
        setup(f"setup_{side}_{meth}", side, meth, meth == "bposd")
