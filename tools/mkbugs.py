"""mkbugs.py [ID...]: (re)generate seeded/<ID>/ from tools/bugs/<ID>.py and validate.

tools/bugs/<ID>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text)."""
import json, os, subprocess, sys, shutil
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/bugs") if f.endswith(".py"))
for i in ids:
    ns = {}
    exec(open(f"{V}/tools/bugs/{i}.py").read(), ns)
    w = f"/tmp/mk.{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", w], check=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with the repository as the current directory\n'
        'export PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(i, ns["PROPERTY"], "demo clean", a.returncode, "patched", b.returncode, "OK" if ok else "BAD", b.stdout.strip()[-200:], a.stderr[-300:], b.stderr[-200:] if b.returncode not in (0,1) else "")
    if os.environ.get("TESTS"):
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=180"], cwd=w, env=dict(env, PYTHONPATH=w), capture_output=True, text=True)
        print("   tests:", t.stdout.strip().splitlines()[-1])
    shutil.rmtree(w, ignore_errors=True)
