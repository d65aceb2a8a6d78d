#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< json {"edits":[[file, old,new]...],"demo":"python text","needs":..,"breaks":..}"""
import json, os, shutil, subprocess, sys, tempfile
def mk(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    r = d + "/r"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    for f, old, new in edits:
        s = open(f"{r}/{f}").read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, ("ambiguous", id, f, old, s.count(old))
        open(f"{r}/{f}", "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    out = f"/verif/seeded/{id}"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(demo)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n. /opt/vp/harness/env.sh\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    # demo on clean and changed
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True, env=env)
    if os.path.isdir("/repo/lib"):
        shutil.copytree("/repo/lib", r + "/lib", dirs_exist_ok=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True, env=env)
    c = subprocess.run(["/verif/check", prop], capture_output=True, text=True, env=dict(os.environ, VX_REPO=r))
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOL")]
    print(f"{id}: demo clean={a.returncode} changed={b.returncode} check={c.returncode} {v}")
    if a.returncode: print(a.stdout[-1500:], a.stderr[-1500:])
    if not b.returncode: print("DEMO DOES NOT FAIL", b.stdout[-500:])
    if c.returncode != 1: print(c.stdout[-800:])
    shutil.rmtree(d)
