import json, math, os, random, shutil, tempfile
import numpy as np
import rt
from rt import check
from pathlib import Path
from mqt.qecc.analog_information_decoding.utils import data_utils as D
KNOWN = "word-error-bar-uses-error-bar"
def close(a, b): return (a == b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
def rates_ok(R, got, s, r, k, inp):
    ler, eb, wer, web = [float(x) for x in got]
    L = 1 - s / r; EB = math.sqrt(L * (1 - L) / r) if 0 <= L <= 1 else float("nan")
    R.ok(close(ler, L) and 0 <= ler <= 1, f"logical error rate {ler} != {L}", inp)
    R.ok(close(eb, EB), f"error bar {eb} != {EB}", inp)
    W = 1 - (s / r) ** (1 / k)
    R.ok(close(wer, W) and -1e-12 <= wer <= 1 + 1e-12, f"word error rate {wer} != {W}", inp)
    if s == 0: ok = web == 0 or not math.isfinite(web) or k == 1     # no finite propagated error bar there
    else: ok = close(web, EB * (s / r) ** (1 / k - 1) / k)
    if not ok:
        known = close(web, EB * (1 - EB) ** (1 / k - 1) / k) if EB < 1 else False
        R.bad(f"word error bar {web} instead of {EB * (s / r) ** (1 / k - 1) / k if s else None}", inp, key=KNOWN if known else None)
def cases(R):
    rng = R.rng()
    yield from ((s, r, k) for r in (1, 2, 3, 7) for s in range(r + 1) for k in (1, 2, 3, 6))
    for _ in range(R.pick(400, 6000)):
        r = rng.choice([rng.randint(1, 50), rng.randint(1, 10**6)]); yield rng.randint(0, r), r, rng.randint(1, 20)
@check("rates of a single result")
def a(R):
    for s, r, k in cases(R):
        ok, t = R.call(lambda: D.calculate_error_rates(s, r, {"k": k}), (s, r, k))
        if ok: rates_ok(R, t, s, r, k, (s, r, k))
        ok, t = R.call(lambda: D._update_error_rates(s, r, k), (s, r, k))
        if ok: rates_ok(R, t, s, r, k, (s, r, k))
@check("convergence")
def cv(R):
    rng = R.rng()
    for s, r, k in cases(R):
        for cut in (0.01, 0.1, 0.5, 2.0):
            ok, t = R.call(lambda: D._check_convergence(s, r, {"k": k}, precision_cutoff=cut), (s, r, k, cut))
            if not ok: continue
            _, _, w, eb = D.calculate_error_rates(s, r, {"k": k})
            R.ok((t is True) == (eb != 0 and eb / w < cut), f"converged {t}", (s, r, k, cut))
        s2 = rng.randint(0, r)
        ok, t = R.call(lambda: D.is_converged(s, s2, r, {"k": k}, 0.3), (s, s2, r, k))
        if ok: R.ok(bool(t) == all(D._check_convergence(x, r, {"k": k}, precision_cutoff=0.3) is True for x in (s, s2)), f"converged {t}", (s, s2, r, k))
def dset(rng, k, keys="xz", extra=0):
    r = rng.randint(1, 10**4); d = {"code_K": k, "nr_runs": r, "code_N": 7, "tag": extra}
    for q in keys: d[q + "_success_cnt"] = rng.randint(0, r)
    return d
def check_merged(R, m, ds, side, inp):
    r = sum(d["nr_runs"] for d in ds); s = sum(d[side + "_success_cnt"] for d in ds)
    R.ok(m[side + "_success_cnt"] == s, f"{side} successes {m[side + '_success_cnt']} != {s}", inp)
    if "nr_runs" in m: R.ok(m["nr_runs"] == r, f"runs {m['nr_runs']} != {r}", inp)
    rates_ok(R, [m[f"{side}_{q}"] for q in ("ler", "ler_eb", "wer", "wer_eb")], s, r, m["code_K"], inp)
@check("merging both sides")
def mg(R):
    rng = R.rng()
    R.ok(D.merge_datasets([]) == {}, "merge of nothing")
    for _ in range(R.pick(200, 2000)):
        k = rng.randint(1, 9); ds = [dset(rng, k) for _ in range(rng.randint(1, 6))]; src = [dict(d) for d in ds]
        ok, m = R.call(lambda: D.merge_datasets(ds), src)
        if not ok: continue
        R.ok(ds == src, "inputs modified", src)
        for side in "xz": check_merged(R, m, src, side, src)
        R.ok(m["code_K"] == k and m["code_N"] == 7, "configuration fields", src)
        perm = src[:]; rng.shuffle(perm); m2 = D.merge_datasets(perm)
        c = rng.randint(0, len(src)); parts = [D.merge_datasets(p) for p in (src[:c], src[c:]) if p]
        m3 = D.merge_datasets(parts)
        R.ok(all(m[q] == m2[q] == m3[q] for q in m if q != "tag"), "depends on order or grouping", src)
@check("merging one side")
def mo(R):
    rng = R.rng()
    for side, fn in (("x", D._merge_datasets_x), ("z", D._merge_datasets_z)):
        R.ok(fn([]) == {}, "merge of nothing")
        for _ in range(R.pick(150, 1500)):
            k = rng.randint(1, 9); ds = [dset(rng, k, rng.choice(["x", "z", "xz", ""])) for _ in range(rng.randint(1, 6))]; src = [dict(d) for d in ds]
            ok, m = R.call(lambda: fn(ds), src)
            if not ok: continue
            R.ok(ds == src, "inputs modified", src)
            has = [d for d in src if side + "_success_cnt" in d]
            if not has: R.ok(m == {}, "result without data", src); continue
            check_merged(R, m, has, side, src)
            perm = src[:]; rng.shuffle(perm); m2 = fn(perm)
            R.ok(all(m[q] == m2.get(q) for q in m if q.startswith(side + "_") or q == "nr_runs"), "depends on order", src)
@check("merging result directories")
def mj(R):
    rng = R.rng()
    cwd = os.getcwd()
    for t in range(R.pick(24, 120)):
        tmp = tempfile.mkdtemp(prefix="verif-c23-")
        try:
            os.chdir(tmp)
            root = Path("res") / "codeA"; root.mkdir(parents=True)
            truth = []
            for f in range(rng.randint(0, 4)):
                (root / f"cfg{f}").mkdir(); ds = []
                k = rng.randint(1, 9)
                for j in range(rng.randint(0, 4)):
                    d = dset(rng, k, rng.choice(["xz", "x", "z"]) if t % 2 else "xz", extra=f); ds.append(d)
                    (root / f"cfg{f}" / f"id_{j}.json").write_text(json.dumps(d))
                if rng.random() < .3: (root / f"cfg{f}" / "bad.json").write_text("{")
                if rng.random() < .3: (root / f"cfg{f}" / "note.txt").write_text("x")
                if ds: truth.append((f, ds))
            (root / "stray.json").write_text("{}")
            fns = [("x", D.merge_json_files_x), ("z", D.merge_json_files_z), ("xz", D.merge_json_files_xz)] + ([] if t % 2 else [("both", D.merge_json_files)])
            before = {str(p): p.read_bytes() for p in root.rglob("*") if p.is_file()}
            for nm, fn in fns:
                for arg in (str(root), root, root.resolve()):
                    out = Path("res/codeA.json"); out.unlink(missing_ok=True)
                    ok, _ = R.call(lambda: fn(arg), (nm, str(arg), truth))
                    if not ok: continue
                    res = json.loads(out.read_text())
                    sides = "xz" if nm in ("both", "xz") else nm
                    want = {f: ds for f, ds in truth if any(f"{s}_success_cnt" in d for d in ds for s in sides)}
                    R.ok(sorted(m["tag"] for m in res) == sorted(want), f"{nm}: merged configurations {[m['tag'] for m in res]} instead of {sorted(want)}", (str(arg), truth))
                    for m in res:
                        if m["tag"] not in want: continue
                        for s in sides:
                            has = [d for d in want[m["tag"]] if f"{s}_success_cnt" in d]
                            if has:
                                check_merged(R, m, has, s, (nm, truth))
                                if nm == "xz": R.ok(m[f"{s}_runs"] == sum(d["nr_runs"] for d in has), f"{s}_runs {m[f'{s}_runs']}", (nm, truth))
            R.ok({str(p): p.read_bytes() for p in root.rglob("*") if p.is_file()} == before, "result files modified", truth)
        finally:
            os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)
rt.main("all counts up to 7 runs and random counts up to 10^6 runs, k up to 20; up to 6 datasets per merge; result trees with up to 4 configurations of up to 4 files, absolute and relative paths")
