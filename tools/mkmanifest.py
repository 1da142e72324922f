"""regenerate MANIFEST.json from the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from levels import CLAIMS, NOT_APPLICABLE
checks = []
for pid, (level, tech, note) in CLAIMS.items():
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough", technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NOT_APPLICABLE), "not applicable")
