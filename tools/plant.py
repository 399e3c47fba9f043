#!/usr/bin/env python3
"""Confirm planted bugs: plant.py ID... (directories of seeded/): the patch applies to /repo's HEAD in a scratch copy, the
stable tests still pass there, demo.sh passes without it and fails with it; with --check the property's quick check is
run against the copy (VERIF_REPO) too.  Never touches /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(i, check, tests):
    out = [i]
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(tmp, "repo")
        sh("git -C /repo worktree list >/dev/null; cp -a /repo %s" % w, "/")
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        p = sh("bash %s/demo.sh" % demo, w, {"NUMBA_CACHE_DIR": tmp + "/nc0"}, 300)
        out.append("demo0=%d" % p.returncode)
        if p.returncode:
            out.append((p.stdout + p.stderr)[-600:])
        a = sh("git apply %s/patch.diff" % d, w)
        if a.returncode:
            return out + ["NOT APPLIED " + a.stderr]
        p = sh("bash %s/demo.sh" % demo, w, {"NUMBA_CACHE_DIR": tmp + "/nc1"}, 300)
        out.append("demo1=%d" % p.returncode)
        out.append((p.stdout + p.stderr).strip().splitlines()[-1:] or "")
        if tests:
            p = sh("PYTHONPATH=/opt/vp/pyplugin python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 --rootdir=%s "
                   "-o junit_family=xunit2 --junitxml=%s/j.xml unit_tests" % (w, tmp), w, {"NUMBA_CACHE_DIR": tmp + "/nc"})
            import xml.etree.ElementTree as ET
            ok = set()
            for c in ET.parse(tmp + "/j.xml").iter("testcase"):
                if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")):
                    ok.add("%s::%s" % (c.get("classname"), c.get("name")))
            miss = STABLE - ok
            out.append("tests=%s" % ("ok" if not miss else "BROKEN %s" % sorted(miss)[:4]))
        if check:
            p = sh("python3 check.py %s quick --seed 1" % meta["property"], HERE, {"VERIF_REPO": w, "VERIF_NOEVIDENCE": "1"})
            lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("check=%d %s" % (p.returncode, (lines[:1] or p.stdout.splitlines()[-1:])))
            for l in lines:
                r = l.split("replay=")[-1].strip()
                try:
                    j = json.load(open(os.path.join(HERE, r) if not r.startswith("/") else r))
                    out.append("%s: %s" % (j["expect"]["kind"], str(j["expect"]["detail"])[:160]))
                except Exception as e:
                    out.append(repr(e))
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check, tests = "--check" in sys.argv, "--notests" not in sys.argv
    if not args:
        args = sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(1 if check else 4) as ex:
        for r in ex.map(lambda i: one(i, check, tests), args):
            print(*r, flush=True)
