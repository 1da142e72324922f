#!/usr/bin/env python3
"""assemble DESIGN.md"""
import sys, os, json, ast, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
import levels
head = open(H + "/tools/design_head.md").read().replace("@CXX@", open(H + "/tools/design_cxx.md").read() if os.path.exists(H + "/tools/design_cxx.md") else "(no C++ property is claimed yet)")
out = [head, "## 8. Properties\n"]
APP = json.load(open(H + "/tools/approach.json"))
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); pid = p["id"]
    out.append(f"### {pid} — {p['title']}\n")
    if pid in levels.CLAIMS:
        lv, tech, note = levels.CLAIMS[pid]
        out.append(f"*Level:* {lv}. *Note:* {note}.")
    else: out.append(f"*Not applicable:* {levels.NOT_APPLICABLE[pid]}.")
    out.append("*Anchored at:* " + "; ".join(m["where"] for m in p["anchors"]["mechanism"]) + ".")
    if pid in APP: out.append("*How it is decided:* " + APP[pid])
    f = f"{H}/contracts/{pid.lower()}.py"
    if os.path.exists(f):
        src = open(f).read(); t = ast.parse(src); notes = {}; tg = []
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "NOTES":
                try: notes = eval(compile(ast.Expression(n.value), f, "eval"))
                except Exception as e: notes = {}
        for k, t_ in (("assumptions", "Preconditions and assumptions"), ("trusted", "Assumed contracts"), ("outside", "Outside the contracts (sampled by the replay at most)")):
            if notes.get(k): out.append(f"*{t_}:* " + "; ".join(notes[k]) + ".")
        if notes.get("explanation") and pid not in APP: out.append("*How it is decided:* " + notes["explanation"] + ".")
    sd = [d for d in sorted(glob.glob(H + "/seeded/*")) if json.load(open(d + "/meta.json"))["property"] == pid]
    if sd: out.append("*Planted bugs:* " + ", ".join(os.path.basename(d) for d in sd) + ".")
    out.append("")
out.append("## 9. Findings on the original tree\n\nEach was shown with a failing input on the real code before it was repaired; every repair is one `fix:` commit in /repo.\n")
for k in json.load(open(H + "/known_findings.json")):
    out.append(f"* **{k['id']}** ({k['property']}, {'fixed in ' + k['commit'] if k['status'] == 'fixed' else 'known, not repaired'}): " + k["what"].split(k["commit"] + " ", 1)[-1] if k["status"] == "fixed" else f"* **{k['id']}** ({k['property']}, known finding, not repaired): {k['what']}")
out.append("\n## 10. Planted bugs\n\nEach changes lines of the original repository, passes the existing tests and comes with a demonstration. “Caught” is the check of its property run on a copy with the bug applied.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|")
CB = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {CB.get(i, m['property'] + ' (contracts and replay)')} |")
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
