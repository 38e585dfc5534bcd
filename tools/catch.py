#!/usr/bin/env python3
"""catch.py [ID...]: runs every planted bug's property check (or all checks with --all) against a patched scratch copy of /repo
and prints which checks report a violation.  Used while developing; no registered check reads seeded/."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = "--all" in sys.argv
tier = "quick"
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(VERIF + "/seeded"))
props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
def one(i):
    d = os.path.join(VERIF, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="catch."); wt = tmp + "/repo"; ev = tmp + "/v"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, check=True)
        # a private copy of the machinery, so that evidence and replay files of this run do not land in /verif
        shutil.copytree(VERIF, ev, ignore=shutil.ignore_patterns("seeded", ".git", "build", "evidence"))
        res = []
        for p in (props if allp else [meta["property"]]):
            r = subprocess.run(["python3", ev + "/run.py", p, "--tier", tier], env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            res.append((p, r.returncode, v[:1], r.stdout.splitlines()[-3:] if r.returncode not in (0, 1) else []))
        return i, meta["property"], res
    finally:
        shutil.rmtree(tmp)
with ThreadPoolExecutor(3) as ex:
    for i, p, res in ex.map(one, ids):
        print(i, p, "CAUGHT" if any(q == p and rc == 1 and v for q, rc, v, _ in res) else "MISSED", [(q, rc) for q, rc, v, _ in res if rc], res[0][3] if len(res) == 1 else "", flush=True)
