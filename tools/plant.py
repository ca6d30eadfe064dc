"""Make seeded/<id> from tools-side definitions: plant.py DEFS.py [id ...].

DEFS.py defines BUGS = {id: dict(property=, needs=, what=, edits=[(file, old, new)], demo=str)}."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", JAX_PLATFORMS="cpu", TF_CPP_MIN_LOG_LEVEL="2", MPLBACKEND="Agg")
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=2 CUDA_VISIBLE_DEVICES=\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def demo(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)


def plant(bid, b):
    d = os.path.join(VERIF, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="plant")
    wt = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=wt)
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{bid}: REJECTED edit of {f}: {s.count(old)} occurrences of {old!r}"
            open(p, "w").write(s.replace(old, new))
        # All removed or changed lines must be original ones.
        base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=wt, text=True).strip()
        diff = subprocess.check_output(["git", "diff"], cwd=wt, text=True)
        orig = {f: subprocess.check_output(["git", "show", f"{base}:{f}"], cwd=wt, text=True).splitlines() for f, _, _ in b["edits"]}
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for l in gone:
            if not any(l in o for o in orig.values()):
                return f"{bid}: REJECTED line is not original: {l!r}"
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good, bad = demo(d, "/repo"), demo(d, wt)
        if good.returncode != 0 or bad.returncode == 0:
            shutil.rmtree(d)
            return f"{bid}: REJECTED demo: unchanged {good.returncode}, changed {bad.returncode}\n{good.stdout[-1500:]}\n{bad.stdout[-300:]}"
        x = os.path.join(tmp, "r.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-n", "3", "-p", "no:cacheprovider", "-p", "no:cov", "--timeout=300",
                        "-W", "ignore", "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=wt, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = os.path.join(tmp, "o.json")
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{x}"], stdout=subprocess.PIPE)
        res = json.load(open(out))
        basel = json.load(open("/opt/vp/BASELINE.json"))
        stable = basel.get("stable") or basel.get("tests") or basel
        passed = res.get("passed", res)
        missing = [t for t in stable if t not in passed or (isinstance(passed, dict) and passed[t] not in ("passed", True, "pass"))]
        if missing:
            shutil.rmtree(d)
            return f"{bid}: REJECTED tests fail: {missing[:6]}"
        return f"{bid}: ok; demo says {bad.stdout.strip().splitlines()[-1][:150]}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or [i for i in bugs if not os.path.exists(os.path.join(VERIF, "seeded", i))]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: plant(i, bugs[i]), ids):
            print(r, flush=True)
