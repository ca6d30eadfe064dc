"""Run TLC on the specifications of /verif/spec."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

from env import VERIF

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")


def compile_overrides():
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    os.makedirs(BUILD, exist_ok=True)
    if all(
        os.path.exists(c := os.path.join(BUILD, os.path.basename(s)[:-5] + ".class"))
        and os.path.getmtime(c) >= os.path.getmtime(s)
        for s in srcs
    ):
        return
    tmp = tempfile.mkdtemp(prefix="javac")
    subprocess.check_call(["javac", "-nowarn", "-cp", JAR, "-d", tmp] + srcs)
    for f in os.listdir(tmp):
        shutil.copy(os.path.join(tmp, f), os.path.join(BUILD, f))
    shutil.rmtree(tmp)


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out):
        self.out = out
        self.msgs = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.msgs.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal property) (\w+)", out)
        self.ok = "Model checking completed. No error has been found." in out


def run(module, cfg=None, env=None, workers=8, timeout=800, args=(), allow_violation=False, heap="6g"):
    """Run TLC, give back its messages and counts; raise if it fails as a machine."""
    compile_overrides()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={meta}",
        "-cp", f"{BUILD}:{JAR}:{CM}", "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
        "-config", (cfg or module) + ".cfg", *args, module + ".tla",
    ]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result(p.stdout)
    if not r.ok and not (allow_violation and r.violated):
        raise TLCError(f"TLC failed on {module}:\n" + "\n".join(
            x for x in p.stdout.splitlines() if not x.startswith(("Loading", "Linting", "Parsing", "Semantic", '"@@')))[-4000:])
    return r
