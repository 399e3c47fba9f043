"""Seeded search: many simulated runs, minimisation of a failing one, replay files, evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from . import boot
from .core import Ctx, InvalidCase, Rng, Violation, digest

VERIF = boot.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
REPLAYS = os.path.join(VERIF, "replays")


class CaseTimeout(Exception):
    pass


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def _alarm(signum, frame):
    raise CaseTimeout()


def _in_repo(tb):
    inside = False
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith((boot.REPO.rstrip("/") + "/rainbow/", boot.REPO.rstrip("/") + "/rigid_bodies_app")):
            inside = True
    return inside


def _last_repo_frame(tb):
    last = "?"
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith((boot.REPO.rstrip("/") + "/rainbow/", boot.REPO.rstrip("/") + "/rigid_bodies_app")):
            last = "%s:%s" % (fs.filename[len(boot.REPO) + 1:], fs.name)
    return last


def execute(mod, case, timeout=240, keep_events=False):
    """One simulated run.  Returns a JSON-able dict; status is ok | violation | harness-error."""
    ctx = Ctx(keep_events=keep_events)
    out = {"status": "ok"}
    t0 = time.perf_counter()
    # progress is judged by processor time, so that a loaded machine does not matter; the wall clock only catches dead locks
    old = signal.signal(signal.SIGALRM, _alarm)
    oldv = signal.signal(signal.SIGVTALRM, _alarm)
    signal.alarm(int(2.5 * timeout))
    signal.setitimer(signal.ITIMER_VIRTUAL, timeout)
    try:
        case = json.loads(json.dumps(case))
        try:
            mod.run(case, ctx)
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except InvalidCase as e:
        out["status"] = "ok"
        ctx.count("invalid-case")
    except Violation as v:
        out.update(status="violation", kind=v.kind, detail=v.detail[:2000], key=v.key)
    except CaseTimeout:
        out.update(status="violation", kind="no-progress", key="no-progress",
                   detail="the run made no progress within %d s of processor time (typical: well below 1 s)" % timeout)
    except Exception as e:  # noqa
        tb = e.__traceback__
        txt = "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
        if _in_repo(tb) and not isinstance(e, (ImportError,)):
            where = _last_repo_frame(tb)
            out.update(status="violation", kind="unexpected-exception",
                       detail="%s raised in %s by an operation that must succeed" % (txt, where),
                       key="unexpected-exception:%s:%s" % (type(e).__name__, where))
        else:
            out.update(status="harness-error", detail=txt + "\n" + "".join(traceback.format_tb(tb)[-6:]))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGVTALRM, oldv)
    out["digest"] = ctx.digest() + ("" if out["status"] == "ok" else "!" + out.get("kind", ""))
    out["events"] = ctx.n_events
    out["trace"] = ctx.events
    out["faults"] = dict(ctx.faults)
    out["stats"] = dict(ctx.stats)
    out["sim_time"] = ctx.sim_time
    out["sigs"] = sorted(ctx.sigs)
    out["wall"] = time.perf_counter() - t0
    return out


def make_case(mod, pid, seed, i, tier):
    return mod.gen(Rng(pid, seed, i), tier)


# ------------------------------------------------------------------------------------------------- process of a run
# Runs are grouped in chunks fixed by (property, tier, number of runs); every chunk starts in a process forked from one that has
# imported the code but never run it.  What a run can see of earlier runs (caches, class attributes, counters of the process) is
# therefore itself a function of the seed, and a replay file lists the earlier runs that a violation needs, usually none.
def in_fork(fn, *args):
    """fn(*args) in a forked process: its result and None, or None and the exit code of the process that died."""
    ctx = mp.get_context("fork")
    here, there = ctx.Pipe(False)

    def body():
        here.close()
        _limit_memory()
        there.send(fn(*args))
        there.close()
        os._exit(0)
    p = ctx.Process(target=body)
    sys.stdout.flush()
    sys.stderr.flush()
    p.start()
    there.close()
    out, ok = None, True
    try:
        out = here.recv()
    except EOFError:
        ok = False
    p.join()
    here.close()
    return out, (None if ok else p.exitcode)


def execute_seq(mod, before, case, keep_events=False):
    """One run after the given earlier runs of the same process."""
    t = getattr(mod, "TIMEOUT", 240)
    for c in before:
        execute(mod, c, timeout=t)
    return execute(mod, case, timeout=t, keep_events=keep_events)


def fresh(mod, before, case, keep_events=False):
    r, code = in_fork(execute_seq, mod, before, case, keep_events)
    return _died(code) if code is not None else r


def _modules_of(mod, case, timeout):
    have = set(sys.modules)
    execute(mod, case, timeout=timeout)
    return [m for m in list(sys.modules) if m not in have]


def warm(mod, case):
    """Import in this process what a run imports, found by running one in a forked process."""
    for m in in_fork(_modules_of, mod, case, getattr(mod, "TIMEOUT", 240))[0] or []:
        try:
            importlib.import_module(m)
        except BaseException:  # noqa
            pass


def chunk_of(mod, n):
    return max(1, min(getattr(mod, "CHUNK", 8), (n + 31) // 32))


# ------------------------------------------------------------------------------------------------------ minimiser
def _same(mod, before, case, kind, budget):
    if budget[0] <= 0 or time.time() > budget[1]:
        return False
    budget[0] -= 1
    r = fresh(mod, before, case)
    return r["status"] == "violation" and r["kind"] == kind


def _ddmin(items, test):
    n = 2
    while len(items) >= 1:
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
        elif not items:
            break
    return items


def minimise(mod, before, case, kind, max_runs=300, max_secs=60):
    budget = [max_runs, time.time() + max_secs]
    if before:
        before = _ddmin(list(before), lambda cand: _same(mod, cand, case, kind, budget))
    keys = getattr(mod, "SHRINK", ("faults", "ops"))
    changed = True
    rounds = 0
    while changed and rounds < 3:
        changed = False
        rounds += 1
        for k in keys:
            if isinstance(case.get(k), list) and case[k]:
                def test(cand, k=k):
                    c = dict(case)
                    c[k] = cand
                    return _same(mod, before, c, kind, budget)
                new = _ddmin(list(case[k]), test)
                if len(new) < len(case[k]):
                    case = dict(case)
                    case[k] = new
                    changed = True
        if hasattr(mod, "simplify"):
            for cand in mod.simplify(case):
                if _same(mod, before, cand, kind, budget):
                    case = cand
                    changed = True
    return before, case, max_runs - budget[0]


# --------------------------------------------------------------------------------------------------------- workers
_W = {}


def _blank(status, detail):
    return {"status": status, "detail": detail, "digest": "", "events": 0, "faults": {}, "stats": {}, "sim_time": 0.0, "sigs": [], "wall": 0.0}


def _died(code):
    """What the end of a process in the middle of a run means: a crash of the code under test, unless it was ended from outside."""
    if code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
        r = _blank("violation", "the process of the run died of signal %d" % -code)
        r.update(kind="process-crashed", key="process-crashed:%d" % -code, digest="!process-crashed")
        return r
    return _blank("harness-error", "the process of the run ended with code %s" % code)


MEMORY = 4 << 30  # a run that asks for more than this much gets a MemoryError


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))


def _worker(lo, hi, pipe):
    mod, pid, seed, tier, deadline = _W["mod"], _W["pid"], _W["seed"], _W["tier"], _W["deadline"]
    _limit_memory()
    for i in range(lo, hi):
        if time.time() > deadline:
            pipe.send((i, None))
            continue
        try:
            case = make_case(mod, pid, seed, i, tier)
            r = execute(mod, case, timeout=getattr(mod, "TIMEOUT", 240) * (1 if tier == "quick" else 3))
        except Exception:  # generator failed
            r = _blank("harness-error", "gen: " + "".join(traceback.format_exc()[-1500:]))
        r.pop("trace", None)
        pipe.send((i, r))
    pipe.close()
    sys.stdout.flush()
    os._exit(0)


def run_cases(mod, pid, seed, tier, n, deadline, workers):
    """One process per chunk, at most ``workers`` at a time.  A process that dies costs its chunk only."""
    _W.update(mod=mod, pid=pid, seed=seed, tier=tier, deadline=deadline)
    warm(mod, make_case(mod, pid, seed, 0, tier))
    chunk = chunk_of(mod, n)
    jobs = [(lo, min(n, lo + chunk)) for lo in range(0, n, chunk)][::-1]
    results = [None] * n
    ctx = mp.get_context("fork")
    live = {}
    while jobs or live:
        while jobs and len(live) < workers:
            lo, hi = jobs.pop()
            here, there = ctx.Pipe(False)
            sys.stdout.flush()
            sys.stderr.flush()
            p = ctx.Process(target=_worker, args=(lo, hi, there), daemon=True)
            p.start()
            there.close()
            live[here] = [p, lo, hi]
        for here in multiprocessing.connection.wait(list(live)):
            p, at, hi = live[here]
            try:
                i, r = here.recv()
                results[i] = r
                live[here][1] = i + 1
            except (EOFError, OSError):
                p.join()
                here.close()
                del live[here]
                if at < hi:
                    results[at] = _died(p.exitcode)
    return results


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e.get("property") == pid and e.get("status") == "known"]


def check(pid, tier, seed=None, workers=None, n=None):
    t0 = time.time()
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    n = n or mod.CASES[tier]
    secs = {"quick": 240, "thorough": 3600}[tier] if tier in ("quick", "thorough") else 3600
    secs = int(os.environ.get("VERIF_SECS", getattr(mod, "SECS", {}).get(tier, secs)))
    if hasattr(mod, "prepare"):
        mod.prepare()
    results = run_cases(mod, pid, seed, tier, n, t0 + secs, workers)
    done = [(i, r) for i, r in enumerate(results) if r is not None]
    bad = [(i, r) for i, r in done if r["status"] == "violation"]
    errs = [(i, r) for i, r in done if r["status"] == "harness-error"]
    # determinism: repeat a sample of the runs, with what preceded them in their process, and compare the complete event log
    chunk = chunk_of(mod, n)
    sample = [i for i, r in done if r["status"] == "ok"]
    sample = sample[:: max(1, len(sample) // 6)][:6]
    nondet = []
    for k, i in enumerate(sample):
        if time.time() - t0 > secs:
            sample = sample[:k]
            break
        before = [make_case(mod, pid, seed, j, tier) for j in range(i - i % chunk, i)]
        if fresh(mod, before, make_case(mod, pid, seed, i, tier))["digest"] != results[i]["digest"]:
            nondet.append(i)
    known = known_findings(pid)
    new, seen_known = [], {}
    for i, r in bad:
        hit = next((k for k in known if k["key"] == r["key"]), None)
        if hit is not None:
            seen_known[hit["id"]] = hit
        else:
            new.append((i, r))
    # one-off listed findings are announced whether or not this seed happened to meet them
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if new:
        # start the minimisation from the cheapest failing run that fails without the runs before it, if there is one
        order = sorted(new, key=lambda t: (t[1]["wall"], t[0]))
        for i, r in order[:6]:
            before, case = [], make_case(mod, pid, seed, i, tier)
            r1 = fresh(mod, [], case)
            if r1["status"] == "violation":
                r = dict(r, kind=r1["kind"])
                break
        else:
            i, r = order[0]
            case = make_case(mod, pid, seed, i, tier)
            before = [make_case(mod, pid, seed, j, tier) for j in range(i - i % chunk, i)]
        full = (before, case)
        before, small, runs = minimise(mod, before, case, r["kind"])
        final = fresh(mod, before, small, keep_events=True)
        if final["status"] != "violation":
            before, small = full
            final = fresh(mod, before, small, keep_events=True)
        path = write_replay(pid, tier, seed, i, before, small, final, r, runs)
        print("violation: kind=%s key=%s" % (final.get("kind", r["kind"]), final.get("key", r["key"])))
        print("  " + str(final.get("detail", r["detail"]))[:1500].replace("\n", "\n  "))
        print("  failing runs: %d of %d (seed %d, first index %d); minimised in %d runs" % (
            len(new), len(done), seed, new[0][0], runs))
        if before:
            print("  the violation needs %d earlier run(s) of the same process, which the replay file contains" % len(before))
        kinds = Counter(r["key"] for _, r in new)
        for k, c in kinds.most_common(8):
            print("  %6d x %s" % (c, k))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for i, r in errs[:3]:
        sys.stderr.write("harness-error in run %d: %s\n" % (i, r["detail"]))
    wall = time.time() - t0
    write_evidence(mod, pid, tier, seed, done, errs, new, seen_known, nondet, len(sample), wall, n, workers)
    agg = Counter()
    for _, r in done:
        agg.update(r["faults"])
    print("%s %s: %d runs (%d asked), %d violations (%d known), %d harness errors, %d/%d resampled runs identical, "
          "%.1f s; faults %s" % (pid, tier, len(done), n, len(bad), len(bad) - len(new), len(errs),
                                 len(sample) - len(nondet), len(sample), wall, dict(agg)))
    if rc == 0 and (not done or len(errs) * 2 > len(done)):
        sys.stderr.write("the harness could not drive this tree\n")
        rc = 2
    return rc


def write_replay(pid, tier, seed, i, before, case, final, first, runs):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (pid, seed, i))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "run": i, "before": before, "case": case,
                   "expect": {"kind": final.get("kind"), "key": final.get("key"), "detail": final.get("detail"),
                              "digest": final["digest"]},
                   "minimiser_runs": runs, "first_failure": first.get("detail"),
                   "trace": (final.get("trace") or [])[-400:]}, f, indent=1, default=str)
    return path


def write_evidence(mod, pid, tier, seed, done, errs, new, seen_known, nondet, nsample, wall, n, workers):
    faults, stats = Counter(), Counter()
    sigs = set()
    sim_time = 0.0
    events = 0
    for _, r in done:
        faults.update(r["faults"])
        stats.update(r["stats"])
        sigs.update(r["sigs"])
        sim_time += r["sim_time"]
        events += r["events"]
    samples = []
    for i, r in done[:3]:
        c = make_case(mod, pid, seed, i, tier)
        s = json.dumps(c)
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(sigs),
            "rule": mod.SIG_RULE,
            "samples": samples,
            "faults_injected": dict(faults),
            "counters": dict(stats),
            "simulated_seconds": sim_time,
            "events_logged": events,
            "runs_per_hour": round(len(done) / max(wall, 1e-6) * 3600),
            "asked": n,
            "workers": workers,
            "harness_errors": len(errs),
            "violations": len(new),
            "known_findings_met": sorted(seen_known),
            "determinism": {"resampled": nsample, "different": len(nondet)},
            "real": getattr(mod, "REAL", ""),
            "stubbed": getattr(mod, "STUB", ""),
        },
        "wall_s": round(wall, 2),
    }
    if nondet:
        ev["coverage"]["determinism"]["runs"] = nondet
    if hasattr(mod, "ASSUMPTIONS"):
        ev["coverage"]["assumptions"] = mod.ASSUMPTIONS
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
