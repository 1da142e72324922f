import itertools, json, math, os, shutil, tempfile
import numpy as np
import rt
from rt import check
from pathlib import Path
from mqt.qecc.analog_information_decoding.utils import data_utils as D, simulation_utils as SU
def want_dir(a):
    p = f"results/{a.get('experiment', 'wer_per_round')}/"
    p += "analog_info/" if a.get("analog_info") else "analog_tg/" if a.get("analog_tg") else "hard_syndrome/"
    if a.get("bias") is not None: p += f"single_stage={a.get('single_stage', True)}/bias={a['bias'][0]}_{a['bias'][1]}_{a['bias'][2]}/"
    if a.get("sus_th_depth"): p += f"sus_th_depth={a['sus_th_depth']}/"
    elif a.get("rounds"): p += f"rounds={a['rounds']}/"
    if a.get("repetitions"): p += f"repetitions={a['repetitions']}/"
    p += f"x-meta={'true' if a.get('x_meta') else 'false'}/z-meta={'true' if a.get('z_meta') else 'false'}/{a['codename']}/"
    if a.get("syndr_err_rate") is not None: p += f"per_{a['data_err_rate']:.3e}_ser_{a['syndr_err_rate']:.3e}/"
    elif "z_sigma" in a: p += f"per_{a['data_err_rate']:.3e}_x_sigma_{a['x_sigma']:.3e}_z_sigma_{a['z_sigma']:.3e}/"
    elif "sigma" in a: p += f"per_{a['data_err_rate']:.3e}_sigma_{a['sigma']:.3e}/"
    return p
def params(rng):
    a = dict(codename=rng.choice(["lp_l=3", "steane"]), x_meta=rng.random() < .5, z_meta=rng.random() < .5, analog_info=rng.random() < .3, analog_tg=rng.random() < .3)
    if rng.random() < .6: a["bias"] = rng.choice([[1, 1, 1], [1.0, 0.5, np.inf], [2, 3, 4]]); a["single_stage"] = rng.random() < .5
    if rng.random() < .4: a["sus_th_depth"] = rng.choice([0, 3])
    if rng.random() < .5: a["rounds"] = rng.randint(1, 4)
    if rng.random() < .4: a["repetitions"] = rng.randint(1, 4)
    if rng.random() < .3: a["experiment"] = "other"
    k = rng.randint(0, 3)
    if k == 0: a.update(data_err_rate=rng.choice([0.1, 0.0123]), syndr_err_rate=rng.choice([0.02, 0.3]))
    if k == 1: a.update(data_err_rate=0.1, sigma=rng.choice([0.5, 0.25]))
    if k == 2: a.update(data_err_rate=0.1, x_sigma=0.5, z_sigma=rng.choice([0.5, 0.25]))
    if rng.random() < .4: a["identifier"] = rng.choice([0, 1, 5])
    return a
def snap(d): return {str(p): (p.read_bytes() if p.is_file() else None) for p in Path(d).rglob("*")}
class Scratch:
    def __enter__(self): self.cwd = os.getcwd(); self.d = tempfile.mkdtemp(prefix="verif-c24-"); os.chdir(self.d); return self.d
    def __exit__(self, *a): os.chdir(self.cwd); shutil.rmtree(self.d, ignore_errors=True)
@check("reserved paths")
def a(R):
    rng = R.rng()
    for _ in range(R.pick(40, 300)):
        if R.out_of_time(): break
        pool = [params(rng) for _ in range(rng.choice([1, 3]))]
        with Scratch() as d:
            seen, hist = set(), []
            for j in range(rng.choice([4, 14, 30])):
                p = rng.choice(pool); hist.append(p); before = snap(d)
                if rng.random() < .2:      # a gap or a foreign file in the target directory
                    q = Path(want_dir(p)); q.mkdir(parents=True, exist_ok=True); (q / rng.choice(["id_0.json", "id_2.json", "id_3.json", "x.txt"])).write_text(f"old{j}"); before = snap(d)
                ok, f = R.call(lambda: D.create_outpath(**p), hist)
                if not ok: break
                after = snap(d); key = str(Path(d) / f)
                base = p.get("identifier", 0)
                R.ok(f.startswith(want_dir(p)) and Path(f).parent == Path(want_dir(p)), f"{f} not in {want_dir(p)}", hist)
                R.ok(Path(f).name.startswith("id_") and f.endswith(".json") and int(Path(f).name[3:-5]) >= base, f"name {f}", hist)
                R.ok(key not in before, f"{f} existed already", hist)
                R.ok(after.get(key) == b"", f"{f} not reserved as an empty file", hist)
                R.ok(f not in seen, f"{f} chosen twice", hist); seen.add(f)
                R.ok(all(after.get(k) == v for k, v in before.items()), "existing file changed", hist)
                R.ok(all(v is None for k, v in after.items() if k not in before and k != key), "further files created", hist)
                if rng.random() < .6: Path(f).write_text(json.dumps({"run": j}))
@check("infinite values")
def b(R):
    rng = R.rng()
    vals = [0, 1, -1, 1.5, np.inf, -np.inf, np.float64(2.5), 10**9]
    for n in range(0, 4):
        for t in itertools.product(vals[1:7], repeat=n):
            src = list(t); ok, r = R.call(lambda: D.replace_inf(src), t)
            if ok: R.ok(src == list(t) and len(r) == n and all((x == "i" and isinstance(x, str)) if math.isinf(v) else x is v for x, v in zip(r, src)), f"{r}", t)
@check("written results")
def c(R):
    rng = R.rng()
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import AtdSimulator
    BP = D.BpParams()
    def rates(s, r, k): return D.calculate_error_rates(s, r, {"k": k})
    for t in range(R.pick(40, 400)):
        r = rng.randint(1, 1000); s, z = rng.randint(0, r), rng.randint(0, r); k, n = rng.randint(1, 5), rng.randint(5, 9)
        bias = rng.choice([[1.0, 1.0, 1.0], [np.inf, 0.0, 0.0], [0.0, 0.0, np.inf], [1.0, np.inf, 2.0]])
        clean = ["i" if math.isinf(b) else b for b in bias]; it = rng.randint(0, 99); inp = (r, s, z, k, bias)
        def verify(path, out, want):
            got = json.loads(Path(path).read_text())
            for q, v in want.items():
                R.ok(q in got and (got[q] == v or (isinstance(v, float) and abs(got[q] - v) < 1e-12)), f"{q}: {got.get(q)} instead of {v}", inp)
                R.ok(q in out and (out[q] == v or (isinstance(v, float) and abs(out[q] - v) < 1e-12)), f"returned {q}: {out.get(q)} instead of {v}", inp)
        def fields(side, s): return dict(zip([f"{side}_{q}" for q in ("ler", "ler_eb", "wer", "wer_eb")], map(float, rates(s, r, k)))) | {f"{side}_success_cnt": s}
        with Scratch() as d:
            Path("a").mkdir(); Path("a/other.json").write_text("keep"); before = snap(d)
            side = rng.choice("xz"); iv = {"bias": bias, "seed": 5}
            ok, o = R.call(lambda: SU.save_results(s, r, 0.1, 0.2, iv, "a/out.json", {"k": k, "n": n}, BP, err_side=side, bp_iterations=it), inp)
            if ok:
                R.ok(iv == {"bias": bias, "seed": 5}, "parameters modified", inp)
                verify("a/out.json", o, dict(code_K=k, code_N=n, nr_runs=r, pers=0.1, sers=0.2, seed=5, bias=clean, avg_bp_iterations=it / r, **fields(side, s)))
            sim = object.__new__(SingleShotSimulator)
            sim.__dict__.update(code_params={"k": k, "n": n}, data_err_rate=0.1, syndr_err_rate=0.2, _total_decoding_time=1.5, input_values={"bias": bias, "seed": 6}, outfile="a/ss.json")
            ok, o = R.call(lambda: sim.save_results(s, z, r, x_bp_iters=it, z_bp_iters=it + 1), inp)
            if ok: verify("a/ss.json", o, dict(code_K=k, code_N=n, nr_runs=r, pers=0.1, sers=0.2, seed=6, bias=clean, avg_x_bp_iter=it / r, avg_z_bp_iter=(it + 1) / r, **fields("x", s), **fields("z", z)))
            sim = object.__new__(AtdSimulator)
            sim.__dict__.update(code_params={"k": k, "n": n}, data_err_rate=0.1, x_sigma=0.3, z_sigma=0.4, x_bp_iterations=it, z_bp_iterations=it + 2, bp_params=BP, input_values={"seed": 7}, outfile="a/at.json")
            ok, o = R.call(lambda: sim.save_results(s, z, r), inp)
            if ok: verify("a/at.json", o, dict(code_K=k, code_N=n, nr_runs=r, pers=0.1, x_sigma=0.3, z_sigma=0.4, seed=7, x_bp_iterations=it / r, z_bp_iterations=(it + 2) / r, **fields("x", s), **fields("z", z)))
            after = snap(d)
            R.ok(all(after.get(k) == v for k, v in before.items()), "existing file changed", inp)
            R.ok({Path(p).name for p in after if p not in before} <= {"out.json", "ss.json", "at.json"}, "further files", inp)
rt.main("random parameter sets (6 kinds of rate arguments), up to 30 calls per directory with foreign and gap files; lists up to 3 entries; random counts up to 1000")
