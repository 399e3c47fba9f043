"""mk(id, prop, edits, needs, breaks, demo): write seeded/<id>/ from textual edits of /repo (in a scratch copy)."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os
import sys
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
sys.path.insert(0, os.getcwd())
import warnings
warnings.filterwarnings("ignore")
import numpy as np
'''


def mk(i, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mk-")
    try:
        w = os.path.join(tmp, "r")
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, check=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
