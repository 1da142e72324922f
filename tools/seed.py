#!/usr/bin/env python3
"""seed.py <id> <property> <spec.py>: build seeded/<id> from a spec file defining EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python text or shell text)
run on a scratch copy of /repo; checks that the demo passes unpatched and fails patched.  --tests also runs the Python tests."""
import sys, os, json, subprocess, shutil, tempfile, runpy
sid, prop, spec = sys.argv[1:4]
s = runpy.run_path(spec)
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); w = wt + "/repo"
subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", w, "HEAD"], check=True)
try:
    for f, old, new in s["EDITS"]:
        t = open(f"{w}/{f}").read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if "DEMO_PY" in s:
        open(d + "/demo.py", "w").write(s["DEMO_PY"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    else:
        open(d + "/demo.sh", "w").write(s["DEMO_SH"])
        for k, v in s.get("FILES", {}).items(): open(d + "/" + k, "w").write(v)
    os.chmod(d + "/demo.sh", 0o755)
    os.makedirs(wt + "/sc"); open(wt + "/sc/sitecustomize.py", "w").write("import sys\nsys.meta_path = [f for f in sys.meta_path if 'ScikitBuild' not in type(f).__name__]\n")
    env = dict(os.environ, PYTHONPATH=w + "/src:" + wt + "/sc")
    cpp = any(f.endswith(("pp", ".h")) for f, _, _ in s["EDITS"])
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    print("unpatched:", a.returncode, a.stdout[-300:], a.stderr[-600:])
    if not cpp or "CPP_OK" in s:
        if not cpp:   # bring the compiled extension along
            import glob
            for so in glob.glob("/opt/venv/lib/python3.12/site-packages/mqt/qecc/*.so"): shutil.copy(so, w + "/src/mqt/qecc/")
            open(w + "/src/mqt/qecc/_version.py", "w").write("version = '0'\n")
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
        print("patched:", b.returncode, b.stdout[-300:], b.stderr[-600:])
    if "--tests" in sys.argv:
        tests = [a[8:] for a in sys.argv if a.startswith("--tests=")] or s.get("TESTS", ["test/python"])
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *s.get("TESTS", ["test/python"])], cwd=w, env=env, capture_output=True, text=True)
        print(t.stdout[-700:])
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w]); shutil.rmtree(wt, ignore_errors=True)
