#!/usr/bin/env python3
"""try.py <seed id>... : run the quick check of each seeded bug's property on a scratch copy with the bug applied"""
import sys, os, json, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
def one(sid):
    d = f"/verif/seeded/{sid}"; prop = json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="try_", dir="/tmp"); w = wt + "/repo"
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    try:
        subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={w}", d + "/patch.diff"], cwd="/", check=True)
        for so in glob.glob("/opt/venv/lib/python3.12/site-packages/mqt/qecc/*.so"): shutil.copy(so, w + "/src/mqt/qecc/")
        p = subprocess.run(["python3", "/verif/check.py", prop, "quick"], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_NOEV="1"), capture_output=True, text=True)
        return f"== {sid} {prop} exit {p.returncode}\n" + "\n".join(l[:330] for l in p.stdout.splitlines()[-7:]) + p.stderr[-300:]
    finally: shutil.rmtree(wt, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
