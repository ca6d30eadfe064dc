"""Run checks against planted bugs: detect.py [-t] [id[:C01,C02] ...]; -t is thorough.

Every bug is applied to a scratch copy that is mounted over /repo for the check only."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = "quick"
if args[:1] == ["-t"]:
    tier, args = "thorough", args[1:]
for a in args or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    i, _, cs = a.partition(":")
    d = os.path.join(VERIF, "seeded", i)
    props = cs.split(",") if cs else [json.load(open(os.path.join(d, "meta.json")))["property"]]
    tmp = tempfile.mkdtemp(prefix="detect")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        if os.path.exists("/repo/stheno/_version.py"):
            shutil.copy("/repo/stheno/_version.py", os.path.join(repo, "stheno"))
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
        for x in ("evidence", "replays"):
            os.makedirs(os.path.join(tmp, x))
        for c in props:
            t = time.time()
            script = (f"mount --bind {repo} /repo && mount --bind {tmp}/evidence {VERIF}/evidence && "
                      f"mount --bind {tmp}/replays {VERIF}/replays && cd {VERIF} && exec ./check {c}")
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_TIER=tier, VERIF_SEED="1"))
            hit = re.search(r"VIOLATION property=.*\n(.*)", r.stdout)
            print(f"{i} {c}: {'CAUGHT' if r.returncode == 1 and hit else 'MISSED rc=%d' % r.returncode} ({time.time() - t:.0f} s) "
                  f"{hit.group(1).strip()[:160] if hit else r.stdout[-300:] if r.returncode not in (0, 1) else ''}", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
