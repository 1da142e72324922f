import numpy as np
import rt, gf
from rt import check
import mqt.qecc.analog_information_decoding.simulators.memory_experiment_v2 as M
import mqt.qecc.analog_information_decoding.simulators.quasi_single_shot_v2 as Q
from mqt.qecc.analog_information_decoding.utils.simulation_utils import get_virtual_check_init_vals
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
class Mock:
    """decoder with arbitrary answers; tracks the channel it currently works with"""
    def __init__(self, N, rng, ch=None): self.N, self.rng, self.ch, self.iter, self.log = N, rng, ch, 3, []
    def update_channel_probs(self, c): self.ch = np.array(c, dtype=float)
    def decode(self, s):
        D = np.array([int(self.rng.random() < .2) for _ in range(self.N)], dtype=int)
        self.log.append((np.array(s).copy(), None if self.ch is None else self.ch.copy(), D.copy())); return D
@check("window shift")
def a(R):
    rng = R.rng()
    for t in range(R.pick(300, 3000)):
        m, h = rng.randint(1, 5), rng.randint(1, 4); s = gf.randmat(rng, m, 2 * h).astype(np.int32)
        r = M.move_syndrome(s.copy())
        R.ok(r.shape == s.shape and np.array_equal(r[:, :h], s[:, h:]) and not r[:, h:].any(), "window shift", s.tolist())
        f = s * 1.7 - .3; r = M.move_syndrome(f.copy(), data_type=np.float64)
        R.ok(r.shape == f.shape and np.allclose(r[:, :h], f[:, h:]) and not r[:, h:].any(), "analog window shift", f.tolist())
@check("window decoding")
def b(R):
    rng = R.rng()
    for t in range(R.pick(250, 2500)):
        if R.out_of_time(): break
        m, n, h = rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 3); rep = 2 * h
        H = gf.randmat(rng, m, n).astype(np.int32); N = (n + m) * rep
        ch = np.array([rng.uniform(.01, .4) for _ in range(N)])
        h3d = M.build_multiround_pcm(H, rep - 1)
        for meth in ("bposd", "matching"):
            d = Mock(N, rng, ch.copy()); old = M.Matching
            cur = [d]
            def fake(hh, weights=None, **k): x = Mock(N, rng, 1 / (1 + np.exp(np.asarray(weights)))); x.log = d.log; return x
            M.Matching = fake
            try:
                for last in (rng.random() < .5, rng.random() < .5, False, True, False):
                    an = np.array([[rng.uniform(-2, 2) for _ in range(rep)] for _ in range(m)]) if rng.random() < .5 else None
                    sg = rng.uniform(.2, 1); S = gf.randmat(rng, m, rep).astype(np.int32); S0 = S.copy()
                    inp = dict(H=H.tolist(), S=S.tolist(), last=last, analog=None if an is None else an.tolist(), method=meth)
                    k = len(d.log)
                    ok, r = R.call(lambda: M.decode_multiround(S, H, d, ch.copy(), rep, None if an is None else an.copy(), last_round=last, check_block_size=n * rep, sigma=sg, h3d=h3d, decoding_method=meth), inp)
                    if not ok: continue
                    if not R.ok(len(d.log) == k + 1, "decoded once", inp): continue
                    s, c, D = d.log[-1]
                    want = S0.copy(); want[:, 1:] = (S0[:, 1:] + S0[:, :-1]) % 2
                    R.ok(np.array_equal(s.reshape(rep, m).T, want), "difference syndrome", inp)
                    R.ok(np.array_equal(np.cumsum(want, 1) % 2, S0), "telescoping", inp)
                    wc = ch.copy()
                    if an is not None: wc[n * rep:] = get_virtual_check_init_vals(an.flatten("F"), sg)
                    if last: wc[-m:] = 1e-15
                    R.ok(np.allclose(c, wc, rtol=1e-6, atol=0 if meth == "bposd" else 1e-12), f"channel of the window: {c.tolist()} != {wc.tolist()}", inp)
                    sp = D[:n * rep].reshape(rep, n); tm = D[n * rep:].reshape(rep, m)
                    corr = sp[:rep if last else h].sum(0) % 2
                    R.ok(np.array_equal(r[0], corr), f"correction {r[0].tolist()} != {corr.tolist()}", inp)
                    w = S0.copy()
                    if not last:
                        w[:, h:] = (w[:, h:] + (H @ corr % 2)[:, None]) % 2; w[:, h] = (w[:, h] + tm[h - 1]) % 2
                    R.ok(np.array_equal(r[1], w), "syndrome carried forward", inp)
                    R.ok((r[2] is None) == (an is None) and (an is None or np.array_equal(r[2], an)), "analog readings", inp)
            finally: M.Matching = old
@check("memory experiment")
def c(R):
    rng = R.rng()
    for t in range(R.pick(60, 600)):
        if R.out_of_time(): break
        m, n, h = rng.randint(1, 3), rng.randint(2, 5), rng.randint(1, 3); rep = 2 * h; rounds = h * rng.randint(2, 5)
        H = gf.randmat(rng, m, n, .5).astype(np.int32); L = gf.randmat(rng, rng.randint(1, 2), n).astype(np.int32)
        if not H.any(1).all() or not H.any(0).all(): continue
        analog, side = rng.random() < .5, rng.choice("XZ")
        bias = np.array([rng.choice([1.0, 2.0, .5]) for _ in range(3)])
        sim = Q.QssSimulator(pcm=H.copy(), per=.15, ser=.2, logicals=L, bias=bias, codename="t", bp_params=BpParams(osd_method="osd0"), check_side=side, repetitions=rep, rounds=rounds, analog_tg=analog, code_params={"n": n, "k": 1, "d": 1})
        px, py, pz = (bias / bias.sum()).tolist(); dr = .15 * (py + (pz if side == "X" else px)); sr = .2 * (py + (pz if side == "X" else px))
        inp = dict(H=H.tolist(), L=L.tolist(), h=h, rounds=rounds, analog=analog, side=side, bias=bias.tolist())
        R.ok(np.allclose(sim.channel_probs, [dr] * (n * rep) + [sr] * (m * rep)), "channel", inp)
        R.ok(np.array_equal(np.asarray(sim.H3D.todense()), np.asarray(M.build_multiround_pcm(H, rep - 1).todense())), "matrix", inp)
        log = []
        sim.decoder = Mock((n + m) * rep, rng, sim.channel_probs.copy())
        olds = {k: getattr(Q, k) for k in ("generate_err", "generate_syndr_err", "get_noisy_analog_syndrome", "is_logical_err")}
        def ge(nr_qubits, channel_probs, residual_err):
            before = [np.array(x).copy() for x in residual_err]; r = olds["generate_err"](nr_qubits=nr_qubits, channel_probs=channel_probs, residual_err=residual_err)
            log.append(("err", before, [np.array(x).copy() for x in r])); return r
        def gs(c): r = olds["generate_syndr_err"](c); log.append(("se", np.array(c), r.copy())); return r
        def gn(s, g): r = olds["get_noisy_analog_syndrome"](s, g); log.append(("an", np.array(s).copy(), g, r.copy())); return r
        def il(Lm, e): r = olds["is_logical_err"](Lm, e); log.append(("log", np.array(e).copy(), r)); return r
        Q.generate_err, Q.generate_syndr_err, Q.get_noisy_analog_syndrome, Q.is_logical_err = ge, gs, gn, il
        try:
            for rerun in range(2):
                log.clear(); sim.decoder.log.clear()
                ok, res = R.call(sim._single_sample, inp)
                if not ok: break
                # replay the experiment independently from the recorded errors
                errs = [x for x in log if x[0] == "err"]
                if not R.ok(len(errs) == rounds, "one error per round", inp): break
                k = 1 if side == "X" else 0
                err = np.zeros(n, int); W = np.zeros((m, rep), int); AW = np.zeros((m, rep)); cnt = 0; di = 0
                ses = [x for x in log if x[0] == "se"]; ans = [x for x in log if x[0] == "an"]; si = 0
                good = True
                for r in range(rounds):
                    good &= all(np.array_equal(b, err) for b in errs[r][1]); err = errs[r][2][k]
                    s = H @ err % 2; last = r == rounds - 1
                    if analog:
                        good &= np.array_equal(ans[r][1], s) and (ans[r][2] == (0 if last else sim.sigma)); a_ = ans[r][3]; v = s if last else (a_ <= 0).astype(int); AW[:, cnt] = a_
                    elif last: v = s
                    else: v = (s + ses[si][2]) % 2; si += 1
                    W[:, cnt] = v; cnt += 1
                    if cnt == rep:
                        if di >= len(sim.decoder.log): good = False; break
                        sy, ch, D = sim.decoder.log[di]; di += 1
                        diff = W.copy(); diff[:, 1:] = (W[:, 1:] + W[:, :-1]) % 2
                        good &= np.array_equal(sy.reshape(rep, m).T, diff)
                        wc = np.array([dr] * (n * rep) + [sr] * (m * rep))
                        if analog: wc[n * rep:] = get_virtual_check_init_vals(AW.flatten("F"), sim.sigma)
                        if last: wc[-m:] = 1e-15
                        R.ok(np.allclose(ch, wc, rtol=1e-6, atol=0), f"sample {rerun} round {r}: channel of the window {ch.tolist()} != {wc.tolist()}", inp, key="channel of the window")
                        sp = D[:n * rep].reshape(rep, n); tm = D[n * rep:].reshape(rep, m)
                        corr = sp[:rep if last else h].sum(0) % 2; err = (err + corr) % 2
                        if not last:
                            W[:, h:] = (W[:, h:] + (H @ corr % 2)[:, None]) % 2; W[:, h] = (W[:, h] + tm[h - 1]) % 2
                            W = np.hstack([W[:, h:], np.zeros((m, h), int)]); AW = np.hstack([AW[:, h:], np.zeros((m, h))]); cnt = h
                R.ok(good and di == len(sim.decoder.log) and cnt == rep, "history", inp)
                fin = [x for x in log if x[0] == "log"]
                R.ok(len(fin) >= 1 and np.array_equal(fin[-1][1], err) and res == int(not (L @ err % 2).any()), f"verdict {res}", inp)
        finally:
            for k_, v_ in olds.items(): setattr(Q, k_, v_)
@check("run counts samples")
def d(R):
    H = np.array([[1, 1, 0], [0, 1, 1]], dtype=np.int32)
    rng = R.rng()
    for N in (1, 2, 7, 51, 120):
        sim = Q.QssSimulator(pcm=H, per=.1, ser=.1, logicals=np.array([[1, 1, 1]]), bias=np.array([1., 1., 1.]), codename="t", bp_params=BpParams(osd_method="osd0"), repetitions=2, rounds=2, code_params={"n": 3, "k": 1, "d": 1}, eb_precision=1e-9)
        seq = [rng.randint(0, 1) for _ in range(N)]; it = iter(seq); sim._single_sample = lambda: next(it); saved = []
        sim._save_results = lambda s, r: saved.append((s, r)) or {"s": s, "r": r}
        r = sim.run(N)
        R.ok(r == {"s": sum(seq), "r": N} and all(s == sum(seq[:k]) for s, k in saved), f"{r}", seq)
rt.main("codes up to 4 checks and 5 qubits, windows up to 6 rounds, up to 15 rounds, random histories, mocked decoders with arbitrary answers, hard and analog, both sides, repeated samples")
