#!/usr/bin/env python3
"""replay.py <file>: re-execute a replay file exactly; exit 1 if it reproduces the recorded violation, 0 if not."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa

boot.ensure()

if __name__ == "__main__":
    from sim import runner
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    mod = runner.load(rec["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    r = runner.fresh(mod, rec.get("before", []), rec["case"], keep_events=True)
    for e in (r.get("trace") or [])[-int(os.environ.get("VERIF_TRACE", "40")):]:
        print("  ", e)
    if r["status"] == "violation":
        exact = r["digest"] == rec["expect"]["digest"]
        print("REPRODUCED kind=%s key=%s exact-event-log=%s" % (r["kind"], r["key"], exact))
        print(r["detail"])
        sys.exit(1)
    print("not reproduced: status=%s" % r["status"], r.get("detail", ""))
    sys.exit(0)
