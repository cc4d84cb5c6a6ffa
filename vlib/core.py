"""Harness shared by all monitors.

A check module defines KINDS: a list of Kind(name, gen, check, quick, thorough).
`gen(rng, tier)` draws the parameters of one workload, `check(p, obs)` runs the
real pfrl code under that workload while monitors (reference models, trace
checkers, hooks) watch, and raises Violation when an observation contradicts
the property.  Cases are distributed over forked worker processes; every random
choice derives from VERIF_SEED.
"""
import errno
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The monitor could not observe what it needs: neither held nor broken."""


class Obs:
    """What the monitors saw during one case."""

    def __init__(self, scratch_root):
        self.counts = {}
        self.sigs = set()
        self.sample = None
        self.known = []
        self._root = scratch_root
        self._dirs = []

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def sig(self, *x):
        """Record a distinct non-trivial state / history / decision seen."""
        self.sigs.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def require(self, cond, msg, key=None):
        self.n("monitor_evaluations")
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def tmpdir(self):
        d = tempfile.mkdtemp(dir=self._root)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class Kind:
    def __init__(self, name, gen, check, quick, thorough, timeout=240, weight=1.0):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout
        self.weight = weight


def case_seed(seed, prop, kind, i):
    h = hashlib.sha256("{}|{}|{}|{}".format(seed, prop, kind, i).encode()).digest()
    return int.from_bytes(h[:4], "little")


def seed_all(s):
    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s % (2**32))
    torch.manual_seed(s)


STARVED = (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE, errno.ENFILE, errno.EDQUOT)


def _in_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(os.path.join(REPO, "pfrl") + os.sep):
            return True
    return False


def run_case(kind, prop, tier, seed, i, scratch, params=None):
    """Run one case; returns a JSON-able result dict."""
    import numpy as np

    cs = case_seed(seed, prop, kind.name, i)
    obs = Obs(scratch)
    res = {"kind": kind.name, "i": i, "case_seed": cs, "status": "ok"}
    t0 = time.time()
    p = params
    try:
        if p is None:
            p = kind.gen(np.random.RandomState(cs), tier)
        res["params"] = p
        seed_all(cs)
        kind.check(p, obs)
    except Violation as e:
        res.update(
            status="violation", msg=str(e), key=e.key, tb=traceback.format_exc()
        )
    except HarnessError as e:
        res.update(status="harness", msg=str(e), tb=traceback.format_exc())
    except Exception as e:  # noqa
        # what the code returned could not even be processed (a missing file, a wrong shape, a lost
        # gradient ...): a violation, unless the sandbox ran out of something
        starved = isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno in STARVED)
        st = "harness" if starved and not _in_repo(e.__traceback__) else "violation"
        res.update(
            status=st,
            msg="unexpected {}: {}".format(type(e).__name__, e),
            key="exception",
            tb=traceback.format_exc(),
        )
    finally:
        obs.cleanup()
    res["wall"] = time.time() - t0
    res["counts"] = obs.counts
    res["sigs"] = sorted(obs.sigs)
    res["sample"] = obs.sample
    res["known"] = obs.known
    return res


def _worker(conn, kinds, prop, tier, seed, scratch):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    faulthandler.enable(file=sys.stderr)
    by = {k.name: k for k in kinds}
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        name, i, params = job
        r = run_case(by[name], prop, tier, seed, i, scratch, params)
        conn.send(json.loads(json.dumps(r, default=_js)))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _js(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


class _W:
    pass


def _spawn(ctx, kinds, prop, tier, seed, scratch):
    a, b = ctx.Pipe()
    p = ctx.Process(target=_worker, args=(b, kinds, prop, tier, seed, scratch))
    p.daemon = False
    p.start()
    b.close()
    w = _W()
    w.p, w.conn, w.job, w.t0 = p, a, None, None
    return w


def _kill(w):
    try:
        os.killpg(w.p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            w.p.kill()
        except Exception:
            pass
    w.p.join(5)


def run_jobs(kinds, prop, tier, seed, jobs, scratch, n_workers, stop_on_violation=True,
             budget=None, known=()):
    """Run jobs [(kind, i, params)] over worker processes, yield result dicts."""
    ctx = mp.get_context("fork")
    timeouts = {k.name: k.timeout for k in kinds}
    jobs = list(jobs)
    jobs.reverse()
    n_workers = max(1, min(n_workers, len(jobs)))
    ws = [_spawn(ctx, kinds, prop, tier, seed, scratch) for _ in range(n_workers)]
    results = []
    t_start = time.time()
    stop = False
    try:
        while True:
            if budget is not None and time.time() - t_start > budget:
                jobs = []
            for w in ws:
                if w.job is None and jobs and not stop:
                    w.job = jobs.pop()
                    w.t0 = time.time()
                    try:
                        w.conn.send(w.job)
                    except (BrokenPipeError, OSError):
                        pass
            busy = [w for w in ws if w.job is not None]
            if not busy:
                break
            ready = mp.connection.wait([w.conn for w in busy], timeout=1.0)
            now = time.time()
            for w in busy:
                r = None
                if w.conn in ready:
                    try:
                        r = w.conn.recv()
                    except (EOFError, OSError):
                        _kill(w)
                        r = {
                            "kind": w.job[0], "i": w.job[1], "params": w.job[2],
                            "status": "violation", "key": "died",
                            "msg": "process died (exit %s)" % w.p.exitcode,
                            "counts": {}, "sigs": [], "wall": now - w.t0,
                        }
                elif now - w.t0 > timeouts[w.job[0]]:
                    _kill(w)
                    r = {
                        "kind": w.job[0], "i": w.job[1], "params": w.job[2],
                        "status": "violation", "key": "hang",
                        "msg": "no progress for %d s (normal cases take seconds)"
                        % timeouts[w.job[0]],
                        "counts": {}, "sigs": [], "wall": now - w.t0,
                    }
                if r is None:
                    continue
                w.job = None
                results.append(r)
                if not w.p.is_alive():
                    ws[ws.index(w)] = _spawn(ctx, kinds, prop, tier, seed, scratch)
                if (
                    stop_on_violation
                    and r["status"] == "violation"
                    and r.get("key") not in known
                ):
                    stop = True
            if stop and stop_on_violation:
                break
    finally:
        for w in ws:
            if w.job is not None:
                _kill(w)
            else:
                try:
                    w.conn.send(None)
                except Exception:
                    pass
        for w in ws:
            w.p.join(3)
            if w.p.is_alive():
                _kill(w)
    return results


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in d.get("known", []) if e["property"] == prop}


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    n_workers = int(os.environ.get("VERIF_WORKERS", "8"))
    j = 1
    while j < len(argv):
        if argv[j] == "--tier":
            tier = argv[j + 1]
            j += 2
        elif argv[j] == "--replay":
            replay = argv[j + 1]
            j += 2
        elif argv[j] == "--kind":
            only = argv[j + 1].split(",")
            j += 2
        else:
            raise SystemExit("unknown argument " + argv[j])
    t0 = time.time()
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    import pfrl

    assert os.path.abspath(pfrl.__file__).startswith(REPO + os.sep), pfrl.__file__
    mod = importlib.import_module("checks." + prop.lower())
    kinds = [k for k in mod.KINDS if only is None or k.name in only]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = _run(mod, kinds, prop, tier, seed, replay, scratch, n_workers, t0, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _run(mod, kinds, prop, tier, seed, replay, scratch, n_workers, t0, only):
    if replay:
        with open(replay) as f:
            d = json.load(f)
        seed = d["seed"]
        tier = d["tier"]
        jobs = [(d["kind"], d["i"], d.get("params"))]
        kinds = [k for k in mod.KINDS if k.name == d["kind"]]
    else:
        jobs = []
        per = []
        for k in kinds:
            n = k.quick if tier == "quick" else k.thorough
            per.append([(k.name, i, None) for i in range(n)])
        # interleave proportionally so that any time cap hits all kinds alike
        total = sum(len(x) for x in per)
        keyed = []
        for x in per:
            for q, jb in enumerate(x):
                keyed.append(((q + 0.5) / len(x), jb))
        keyed.sort(key=lambda t: (t[0], t[1][0]))
        jobs = [jb for _, jb in keyed]
        assert len(jobs) == total
    budget = float(os.environ.get("VERIF_BUDGET_S", "400" if tier == "quick" else "6000"))
    known = load_known(prop)
    results = run_jobs(kinds, prop, tier, seed, jobs, scratch, n_workers, budget=budget,
                       known=known)
    viol, harness, known_hits = [], [], {}
    counts, sigs, per_kind, samples = {}, set(), {}, []
    for r in results:
        st = r["status"]
        for kk in r.get("known") or []:
            if kk in known:
                known_hits[kk] = known[kk]
            else:
                viol.append(dict(r, status="violation", key=kk,
                                 msg="unlisted finding " + kk))
        if st == "violation":
            if r.get("key") in known:
                known_hits[r["key"]] = known[r["key"]]
            else:
                viol.append(r)
        elif st == "harness":
            harness.append(r)
        for a, b in r.get("counts", {}).items():
            counts[a] = counts.get(a, 0) + b
        sigs.update(r["kind"] + ":" + s for s in r.get("sigs", []))
        pk = per_kind.setdefault(r["kind"], {"cases": 0, "wall_s": 0.0})
        pk["cases"] += 1
        pk["wall_s"] = round(pk["wall_s"] + r.get("wall", 0), 3)
        if pk["cases"] <= 1 and r.get("params") is not None:
            samples.append({"kind": r["kind"], "params": r["params"],
                            "observed": r.get("sample")})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "events_observed": counts,
            "cases_by_kind": per_kind,
            "planned_cases": len(jobs),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    rc = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for key, e in sorted(known_hits.items()):
        print("KNOWN-FINDING: property={} {}".format(prop, e["what"]))
    if viol:
        rc = 1
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for r in viol[:3]:
            path = os.path.join(rd, "{}-{}-{}.json".format(prop, r["kind"], r["i"]))
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "kind": r["kind"], "i": r["i"], "seed": seed,
                     "tier": tier, "params": r.get("params"), "msg": r.get("msg"),
                     "key": r.get("key"), "traceback": r.get("tb")},
                    f, indent=1, default=_js)
            print("VIOLATION property={} replay={}".format(prop, path))
            print("  [{}] {}".format(r["kind"], r.get("msg")))
            if os.environ.get("VERIF_DEBUG") and r.get("tb"):
                print(r["tb"])
    elif harness:
        rc = 2
        for r in harness[:3]:
            print("HARNESS-ERROR property={} kind={} case={}: {}".format(
                prop, r["kind"], r["i"], r.get("msg")))
            print(r.get("tb"))
    elif counts.get("monitor_evaluations", 0) == 0 or not sigs:
        rc = 2
        print("HARNESS-ERROR property={}: the monitors observed nothing".format(prop))
    else:
        missing = [k.name for k in kinds if k.name not in per_kind]
        if missing and not replay:
            rc = 2
            print("HARNESS-ERROR property={}: no case of {}".format(prop, missing))
    if not replay and only is None:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=_js)
    print("{} tier={} seed={} cases={} distinct={} evaluations={} violations={} wall={:.1f}s".format(
        prop, tier, seed, len(results), len(sigs), counts.get("monitor_evaluations", 0),
        len(viol), time.time() - t0))
    if os.environ.get("VERIF_DEBUG"):
        for k, v in sorted(per_kind.items()):
            print("   ", k, v)
        print("   ", counts)
    return rc
