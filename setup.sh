#!/bin/sh
# Nothing to build: the checks load /repo's working tree themselves. Verify that the
# pieces the simulator needs are here, and that one run of each world works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, ".")
from sim.driver import Pool
p = Pool([1]); p.start()
for w in ("cli", "web", "mix"):
    r = p.one({"world": w, "seed": 1, "limit": 120})
    print(w, "ok" if "trace" in r else r)
p.stop()
'
