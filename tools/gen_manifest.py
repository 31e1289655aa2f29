"""Write MANIFEST.json from properties.jsonl and the existing checks, and the
"fixed" list of known_findings.json from the fix: commits in /repo."""
import json, os, re, subprocess
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PY = "/opt/venv/bin/python"
checks, na = [], []
TECH = {}
exec(open(V + "/tools/techniques.py").read())
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/mon/props/{i.lower()}.py"):
        checks.append(dict(property=i,
                           quick_cmd=f"cd /verif && {PY} -m mon.run {i}",
                           thorough_cmd=f"cd /verif && {PY} -m mon.run {i} --tier thorough",
                           technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="no monitor has been built for this property yet"))
m = dict(version=1, setup_cmd=f"cd /verif && {PY} -m mon.setup", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01"], capture_output=True, text=True).stdout
fixed = []
for ent in log.split("\x01"):
    if not ent.strip():
        continue
    h, s, b = ent.strip().split("\x00")
    if s.startswith("fix:"):
        pr = re.search(r"Property: (.*)", b)
        for q in (pr.group(1) if pr else "?").replace(" ", "").split(","):
            fixed.append(f"fixed: property={q} {h} {s[5:]}")
kf = V + "/known_findings.json"
k = json.load(open(kf)) if os.path.exists(kf) else {"known": []}
k["fixed"] = fixed
json.dump(k, open(kf, "w"), indent=1)
print(len(checks), "checks", len(na), "na", len(fixed), "fixed")
