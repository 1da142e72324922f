#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: deductive contracts of one property over /repo's current source, plus the
bounded runtime-contract replay on the real code.  Exit 0 held, 1 VIOLATION, 2 the checker itself failed."""
from __future__ import annotations
import glob, importlib, json, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("VERIF_STAGE2") != "1":
    py = VT if os.path.exists(VT) else "python3-vt"
    env = dict(os.environ, VERIF_STAGE2="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execvpe(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

def envinc():
    e = dict(os.environ); e.pop("VERIF_STAGE2", None)
    try:
        for l in open("/opt/vp/env.inc"):
            l = l.strip()
            if l.startswith("export "): l = l[7:]
            if "=" in l and not l.startswith("#"):
                k, v = l.split("=", 1)
                if k.isidentifier() and "$" not in v: e[k] = v.strip("'\"")
    except OSError: pass
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    extra = "" if REPO == "/repo" else os.pathsep + os.path.join(HERE, "tools", "sc")      # scratch copies: bypass the editable-install redirect
    e["PYTHONPATH"] = os.path.join(REPO, "src") + os.pathsep + os.path.join(HERE, "replay") + extra
    return e

def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    ent = next((c for c in man["checks"] if c["property"] == prop), {})
    level = ent.get("level", "proof")
    # --- bounded replay on the real code, concurrently
    rp = os.path.join(HERE, "replay", prop.lower() + ".py")
    budget = 90 if tier == "quick" else 600
    proc = None
    if os.path.exists(rp):
        proc = subprocess.Popen(["/opt/venv/bin/python", "-B", rp, tier, str(seed), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=envinc(), cwd="/tmp", start_new_session=True)
    # --- deductive part
    from vc import driver
    res, derr = [], None
    cf = os.path.join(HERE, "contracts", prop.lower() + ".py")
    if os.path.exists(cf):
        try:
            importlib.import_module("contracts." + prop.lower())
            idx = [i for i, r in enumerate(driver.REG) if r[0] == prop]
            res = driver.run_all(idx, jobs=7, limit=240 if tier == "quick" else 500, soft=200 if tier == "quick" else 450)
        except Exception as e:
            derr = traceback.format_exc()
    obls = [(r["name"], r["target"], *o) for r in res for o in r["obls"]]
    failed = [o for o in obls if o[3] != "proved"]
    # --- collect replay
    rep, rerr = None, None
    if proc:
        try:
            out, err = proc.communicate(timeout=max(60, (850 if tier == "thorough" else 780) - (time.time() - t0)))
            line = next((l for l in reversed(out.splitlines()) if l.startswith("REPLAY-JSON ")), None)
            if line: rep = json.loads(line[12:])
            else: rerr = f"replay gave no result (exit {proc.returncode}): {err[-3000:]}"
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(proc.pid, signal.SIGKILL); rerr = "replay did not finish in time"
    kf = [k for k in known() if k["property"] == prop and k["status"] == "known"]
    viol = []
    seen = {}
    for v in (rep or {}).get("violations", []):
        k = next((k for k in kf if v["key"] in k["keys"]), None)
        if k: seen[k["id"]] = k
        else: viol.append(v)
    dknown = []
    for o in list(failed):
        k = next((k for k in kf if o[2] in k.get("obligations", [])), None)
        if k: seen[k["id"]] = k; failed.remove(o); dknown.append(o)
    for k in seen.values(): print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    trusted = {}
    for r in res:
        for k, n in r["trusted"].items(): trusted[k] = trusted.get(k, 0) + n
    notes = {}
    try:
        mod = sys.modules.get("contracts." + prop.lower())
        notes = getattr(mod, "NOTES", {}) if mod else {}
    except Exception: pass
    ndis = sum(1 for o in obls if o[3] == "proved")
    fns = {}
    for r in res:
        f = fns.setdefault(r["target"], dict(digest=r["digest"], contracts=[], obligations=0, discharged=0, secs=0.0))
        f["contracts"].append(r["name"]); f["obligations"] += len(r["obls"]); f["discharged"] += sum(o[1] == "proved" for o in r["obls"]); f["secs"] = round(f["secs"] + r["secs"], 3)
    cov = dict(obligations=len(obls), discharged=ndis, checker_cmd=f"python3-vt {HERE}/check.py {prop} {tier}",
               trusted_base=sorted(set(["vc/ engine: mechanical translation of the /repo function text into verification conditions", "z3 (python3-vt z3-solver)"] + [f"{k} (used {n}x)" for k, n in trusted.items()] + list(notes.get("trusted", [])))),
               back_ends={"z3": sum(r["queries"] for r in res)}, solver_s=round(sum(r["solver"] for r in res), 2),
               functions_under_contract=fns, known_failed_obligations=[list(o) for o in dknown],
               functions_not_under_contract=notes.get("outside", []))
    if rep:
        cov["bounded_replay"] = dict(label="bounded, not counted as proved", evaluations=rep["evaluations"], distinct=rep["distinct"], per_clause=rep["per_clause"], bounds=rep.get("bounds", ""), complete=rep.get("complete", True))
        cov["evaluations"] = rep["evaluations"]; cov["distinct_nontrivial"] = rep["distinct"]; cov["rule"] = rep.get("bounds", "see replay file"); cov["samples"] = rep.get("samples", [])[:6]
    if level == "other" or notes.get("explanation"): cov["explanation"] = notes.get("explanation", "obligations discharged deductively plus a bounded replay; see DESIGN.md")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(notes.get("assumptions", [])), wall_s=round(time.time() - t0, 2), violations=len(viol) + len(failed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if os.environ.get("VERIF_NOEV") != "1": json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    fatal = []
    if derr: fatal.append(derr)
    if os.path.exists(cf) and not obls and not derr: fatal.append("zero obligations generated")
    if not os.path.exists(cf) and not proc: fatal.append("no contracts and no replay for " + prop)
    # --- verdict
    if viol or failed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{tier}.json" if os.environ.get("VERIF_NOEV") != "1" else f"try-{prop}.json")
        json.dump(dict(property=prop, concrete=viol[:20], failed_obligations=[dict(contract=o[0], function=o[1], obligation=o[2], status=o[3], verifier_output=o[4]) for o in failed[:40]], replay_cmd=f"/opt/venv/bin/python -B {rp} {tier} {seed} {budget}"), open(path, "w"), indent=1, default=str)
        for v in viol[:5]: print(f"  concrete: {v['key']}: {v['detail']}"[:600])
        for o in failed[:8]: print(f"  obligation not discharged: {o[1]} / {o[0]} / {o[2]} [{o[3]}] {o[4][:300]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if viol else " no-failing-input-found"))
        return 1
    if rerr:
        print(rerr); fatal.append(rerr)
    if fatal:
        print("CHECK ERROR:", *fatal, sep="\n"); return 2
    print(f"{prop}: {ndis}/{len(obls)} obligations discharged over {len(fns)} functions; replay {rep['evaluations'] if rep else 0} cases; {ev['wall_s']} s")
    return 0

if __name__ == "__main__": sys.exit(main())
