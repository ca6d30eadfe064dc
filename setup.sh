#!/bin/bash
# Compile the TLC overrides and check them and the specifications against themselves.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - "$here" <<'PY'
import sys
sys.path.insert(0, sys.argv[1] + "/harness")
import tlc
for m in ("RatSelf", "LinAlgSelf"):
    r = tlc.run(m)
    print(m, r.distinct, "states")
PY
