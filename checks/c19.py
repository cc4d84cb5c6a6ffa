"""C19: asynchronous training counts every step once and ends cleanly."""
import hashlib
import json
import os
import time

import numpy as np
import torch

from vlib.core import Kind, Violation
from vlib import asyncrun as A

LEVEL = "exploration"
RULE = (
    "run: train_agent_async with 1-8 worker processes, random delays in every call, episode limits, "
    "evaluations, early stops and step offsets; every process writes an event log and an offline checker "
    "decides exactly-once counting, hooks, evaluations, saves and sharing. fault: the same with an exception, "
    "an interrupt or SIGKILL in one worker, in training or in an evaluation, or an exception reported by "
    "another thread. real: A3C and ACER with a lock around every call; the parameters and optimizer "
    "statistics each worker sees must continue the last update of whichever worker made it. "
    "distinct_nontrivial counts distinct orders in which workers obtained the counted steps."
)
ASSUMPTIONS = ["scheduling is explored by random delays and oversubscribed processes, not enumerated"]
HANG = 120


def gen(rng, tier):
    P = int(rng.choice([1, 2, 3, 4, 5, 8]))
    steps = int(rng.choice([1, 3, P, 20, 60, 150, 300]))
    interval = [None, 1, 7, 20, 50, steps][rng.randint(6)]
    offset = int(rng.choice([0, 0, 0, 1, steps // 2, max(steps - 1, 0), steps + 3, 37]))
    if offset and rng.rand() < 0.7:
        steps += offset
    p = dict(procs=P, steps=steps, interval=interval, offset=offset, n_eval=int(rng.choice([1, 2, 3])),
             max_len=[None, 1, 4, 15][rng.randint(4)], p_done=float(rng.choice([0.03, 0.15, 0.5])), p_reset=float(rng.choice([0, 0.1])),
             delay=float(rng.choice([0, 0.0005, 0.002])), slow=[float(rng.choice([0.2, 1, 4])) for _ in range(3)],
             make_agent=bool(rng.rand() < 0.5), shared=bool(rng.rand() < 0.75), save_best=bool(rng.rand() < 0.7),
             own_stop=bool(rng.rand() < 0.3), jitter=float(rng.choice([0, 0.0003, 0.002])), prog=int(rng.randint(2**31)), sync=bool(rng.rand() < 0.7))
    if rng.rand() < 0.3:
        p["seeds"] = [int(x) for x in rng.randint(2**31, size=8)]
    u = rng.rand()
    if u < 0.2:
        p.update(steps=10**6 + offset, stop_at=offset + int(rng.choice([1, 5, 40, 120])))
        p["interval"] = [None, 10][rng.randint(2)]
    elif u < 0.45:
        p.update(steps=10**6 + offset, interval=int(rng.choice([3, 10, 30])), success=float(rng.choice([0.5, 2.0, 2.0])), scores=[-1.0] * int(rng.randint(1, 6)) + [2.0], n_eval=1)
    p["shared"] = p["shared"] or not p["make_agent"]
    return p


def check_logs(p, obs, d, outdir, fault=None, killed=False):
    """Offline checker of the event logs; returns facts for further checks."""
    P, off = p["procs"], p["offset"]
    logs = [A.read_log(d, str(i)) for i in range(P)]
    req = obs.require
    hooks = {}
    evals, ends, saves, rows_want = [], [], [], []
    counted, observed = [0] * P, [0] * P
    over = 0
    for i, log in enumerate(logs):
        cur, cur_t, ep_len, ep_r, rets = None, None, 0, 0.0, []
        state = "start"
        last_t = -1
        stopped = False
        test_cur = None
        evret, evlen = [], 0
        mode = "train"
        made = [e["test"] for e in log if e["e"] == "make"]
        req(made in ([False, True], [True, False]) if p["interval"] is not None else False in made,
            lambda: "worker %d made the environments %s" % (i, made))
        pend = None
        for e in log:
            k = e["e"]
            if k == "reset" and not e["test"]:
                req(state in ("start", "ended") and not stopped, lambda: "worker %d: reset in state %s%s" % (i, state, " after the end" if stopped else ""))
                cur, state, ep_len = e["obs"], "ready", 0
            elif k == "act" and e["training"]:
                req(state == "ready" and not stopped, lambda: "worker %d acts in state %s%s" % (i, state, " after the end" if stopped else ""))
                req(e["obs"] == cur, lambda: "worker %d acts on %s, the environment is at %s" % (i, e["obs"], cur))
                act, state = e["a"], "acted"
            elif k == "step" and not e["test"]:
                req(state == "acted" and e["a"] == act, lambda: "worker %d: environment step in state %s, action %s of %s" % (i, state, e["a"], act))
                cur, state, ep_len = e["obs"], "stepped", ep_len + 1
                pend = e
                counted[i] += 1
            elif k == "observe" and e["training"]:
                want = (pend["obs"], pend["r"], pend["done"], pend["needs"] or ep_len == p["max_len"])
                got = (e["obs"], e["r"], e["done"], e["reset"])
                req(state == "stepped" and got == want, lambda: "worker %d observes %s instead of %s (state %s)" % (i, got, want, state))
                state = "observed"
                observed[i] += 1
                hk = []
            elif k == "hook":
                req(state == "observed", lambda: "worker %d: step hook in state %s" % (i, state))
                req(e["idx"] == i and e["made"] == i and not e["test"], lambda: "worker %d: hook got the environment of %s, agent of %s" % (i, e["idx"], e["made"]))
                hk.append(e["which"])
                if e["which"] == 0:
                    t = e["t"]
                    req(t > last_t, lambda: "worker %d: step %d after %d" % (i, t, last_t))
                    req(t not in hooks, lambda: "step %d was counted by workers %d and %d" % (t, hooks[t], i))
                    hooks[t] = i
                    last_t = t
                else:
                    req(e["t"] == last_t and hk == [0, 1], "step hooks disagree or are called out of order: %s %s %s" % (hk, e["t"], last_t))
                    ended = pend["done"] or pend["needs"] or ep_len == p["max_len"]
                    if last_t >= p["steps"]:
                        over += 1
                        stopped = True
                    if ended or stopped:
                        ends.append((last_t, i))
                    state = "ended" if ended else "ready"
            elif k == "reset":
                req(state in ("ended", "ready"), lambda: "worker %d evaluates in state %s" % (i, state))
                test_cur, evlen = e["obs"], 0
                evret.append(0.0)
            elif k == "act":
                req(e["obs"] == test_cur, lambda: "worker %d acts on %s in an evaluation at %s" % (i, e["obs"], test_cur))
                tact = e["a"]
            elif k == "step":
                req(e["a"] == tact, "another action taken in an evaluation")
                test_cur, evlen = e["obs"], evlen + 1
                evret[-1] += e["r"]
                pend_t = e
            elif k == "observe":
                got = (e["obs"], e["r"], e["done"], e["done"] or e["reset"])
                want = (pend_t["obs"], pend_t["r"], pend_t["done"], pend_t["done"] or pend_t["needs"] or evlen == p["max_len"])
                req(got == want, lambda: "evaluation of worker %d observes %s instead of %s" % (i, got, want))
            elif k == "evalhook":
                req(e["idx"] == i and e["test"] and e["made"] == i, "evaluation hook got another worker's environment or agent")
                req(len(evret) == p["n_eval"], lambda: "evaluation ran %d episodes instead of %d" % (len(evret), p["n_eval"]))
                req(abs(e["mean"] - np.mean(evret)) < 1e-9, lambda: "evaluation score %r, the returns are %s" % (e["mean"], evret))
                req(e["step"] == last_t, lambda: "evaluation at %d is reported at %d" % (last_t, e["step"]))
                evals.append(dict(t=last_t, mean=e["mean"], idx=i, ns=e["ns"]))
                evret = []
                if p.get("success") is not None and e["mean"] >= p["success"]:
                    stopped = True
            elif k == "save":
                saves.append(dict(e, idx=i, t=last_t, after=dict(evals[-1]) if evals and evals[-1]["idx"] == i else None))
            elif k == "close":
                pass
        closes = [e["test"] for e in log if e["e"] == "close"]
        broke = any(e["e"] == "fault" for e in log)
        if not killed and not broke:
            req(sorted(closes) == sorted(made), lambda: "worker %d made environments %s and closed %s" % (i, made, closes))
            req(state in ("ready", "ended"), lambda: "worker %d ended in state %s" % (i, state))
    total = len(hooks)
    if not killed:
        req(sorted(hooks) == list(range(off + 1, off + total + 1)), lambda: "steps %s were counted (%d in all, from %d)" % (sorted(hooks)[-5:], total, off))
        req(sum(observed) == total and sum(counted) == total, lambda: "%d steps were counted, environments made %s, agents observed %s" % (total, counted, observed))
    for i, log in enumerate(logs):
        ts = [t for t in hooks if hooks[t] == i]
        req(sum(t >= p["steps"] for t in ts) <= 1, lambda: "worker %d went on after the end: steps %s of %d" % (i, sorted(ts)[-3:], p["steps"]))
    stop_early = p.get("stop_at") is not None or p.get("success") is not None
    if not killed:
        N = off + total
        if stop_early:
            req(N < p["steps"], lambda: "training was not stopped")
        else:
            req(N >= p["steps"], lambda: "training ended after %d of %d steps" % (N, p["steps"]))
    # evaluations
    iv = p["interval"]
    path = os.path.join(outdir, "scores.txt")
    if iv is None:
        req(not evals and not os.path.exists(path), "evaluated without an interval")
    else:
        base = off - off % iv
        ts = sorted(e["t"] for e in evals)
        req(all(t >= base + (j + 1) * iv for j, t in enumerate(ts)), lambda: "too many evaluations for interval %d from %d: %s" % (iv, base, ts))
        if fault is None and not killed and p.get("success") is None:
            at = {e["t"] for e in evals}
            for t, i in ends:
                req(t in at or len(ts) >= (t - base) // iv, lambda: "an episode ended at %d without evaluation; evaluations %s, interval %d from %d" % (t, ts, iv, base))
        with open(path) as f:
            rows = [x.rstrip("\n").split("\t") for x in f]
        if evals:
            cols = ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min", "count"]
            req(rows[0] == cols, lambda: "header %s" % rows[0])
            req(all(len(r) == len(cols) for r in rows), lambda: "torn line in scores.txt: %s" % rows)
            got = sorted((int(r[0]), float(r[3])) for r in rows[1:])
            want = sorted((e["t"], e["mean"]) for e in evals)
            ok = len(got) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-9 for a, b in zip(got, want))
            if fault is None and not killed:
                req(ok, lambda: "scores.txt has %s, evaluations were %s" % (got, want))
        elif fault is None and not killed:
            req(len(rows) == 0, "scores.txt has rows without evaluations")
    return dict(hooks=hooks, evals=evals, saves=saves, ends=ends, logs=logs, total=total, over=over, counted=counted)


def who(outdir, name):
    p = os.path.join(outdir, name, "who.json")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return json.load(f)


def check_saves(p, obs, outdir, f, fault=None):
    req = obs.require
    evals = f["evals"]
    best = who(outdir, "best")
    if p["save_best"] and evals:
        m = max(e["mean"] for e in evals)
        req(best is not None, "no best agent was saved")
        s = [x for x in f["saves"] if x["dir"] == "best" and x["idx"] == best["idx"] and x["nsave"] == best["nsave"]]
        req(len(s) == 1 and s[0]["after"] is not None and s[0]["after"]["mean"] == m,
            lambda: "the agent saved as best scored %s, the best evaluation %s" % (s and s[0]["after"], m))
    else:
        req(best is None, "a best agent was saved without need")
    names = sorted(os.listdir(outdir))
    fin = [n for n in names if n.endswith("_finish")]
    succ = [e for e in evals if p.get("success") is not None and e["mean"] >= p["success"]]
    broke = [i for i, log in enumerate(f["logs"]) if any(e["e"] == "fault" for e in log)]
    if p["steps"] in f["hooks"] and f["hooks"][p["steps"]] not in broke:
        t_idx = f["hooks"][p["steps"]]
        w = who(outdir, "%d_finish" % p["steps"])
        early = any(e["t"] == p["steps"] for e in succ)
        req(fin == ["%d_finish" % p["steps"]] and w is not None, lambda: "final agents saved: %s" % fin)
        req(w["idx"] == t_idx, lambda: "the final agent was saved by worker %s, step %d was made by %d" % (w, p["steps"], t_idx))
        req(early or w["count"] == f["counted"][t_idx], lambda: "the final agent was saved after %d of %d steps of its worker" % (w["count"], f["counted"][t_idx]))
    else:
        req(not fin, lambda: "final agents saved: %s" % fin)
    w = who(outdir, "successful")
    if succ:
        req(w is not None and w["idx"] in [e["idx"] for e in succ], lambda: "successful agent %s" % w)
    else:
        req(w is None, "a successful agent was saved")
    exc = [n for n in names if n.endswith("_except")]
    if fault is None:
        req(not exc, lambda: "agents saved on exceptions: %s" % exc)
    return exc


def check_run(p, obs):
    d, outdir = obs.tmpdir(), obs.tmpdir()
    status, v, left = A.in_session(lambda: A.run(p, d, outdir), HANG)
    if status == "timeout":
        raise Violation("asynchronous training hangs with %d workers" % p["procs"])
    if status != "ok":
        raise Violation("asynchronous training ended with %s: %s" % (status, str(v)[-600:]))
    obs.require(left == 0, "%d processes are left over" % left)
    obs.require(not v["warnings"], lambda: "workers failed: %s" % v["warnings"])
    f = check_logs(p, obs, d, outdir)
    check_saves(p, obs, outdir, f)
    if p.get("stop_at") is not None or p.get("own_stop"):
        obs.require(v["stopped"], "the stop event is not set at the end")
    if p["shared"]:
        for k, m in (("w", 1), ("c", 2), ("acc", 3)):
            want = [float(m * x) for x in f["counted"]]
            obs.require(v[k] == want, lambda: "shared %s ends as %s, workers made %s steps" % (k, v[k], f["counted"]))
    obs.n("steps", f["total"])
    obs.n("evaluations_seen", len(f["evals"]))
    obs.n("runs")
    order = [f["hooks"][t] for t in sorted(f["hooks"])]
    obs.n("switches", sum(a != b for a, b in zip(order, order[1:])))
    obs.sig(p["procs"], tuple(order[:200]))


def gen_fault(rng, tier):
    while True:
        p = gen(rng, tier)
        if p.get("stop_at") is None and p.get("success") is None:
            break
    p["steps"] = p["offset"] + int(rng.choice([60, 150, 300]))
    p["delay"] = float(rng.choice([0.0005, 0.002]))
    p["sync"] = True
    P = p["procs"]
    u = rng.rand()
    if u < 0.3:
        p["except_at"] = p["offset"] + int(rng.randint(1, 50))
        p["steps"] = p["offset"] + 10**6
    else:
        test = bool(rng.rand() < 0.3)
        p["fault"] = dict(how=str(rng.choice(["raise", "raise", "interrupt", "kill"])), idx=int(rng.randint(P)) if rng.rand() < 0.6 else 0, at=int(rng.randint(1, 8)),
                          test=test)
        if test:
            p["interval"] = int(rng.choice([3, 10]))
    return p


def check_fault(p, obs):
    d, outdir = obs.tmpdir(), obs.tmpdir()
    status, v, left = A.in_session(lambda: A.run(p, d, outdir), HANG)
    if status == "timeout":
        raise Violation("asynchronous training hangs after a failure (%s)" % (p.get("fault") or "exception event"))
    obs.require(left == 0, lambda: "%d processes are left over" % left)
    logs = [A.read_log(d, str(i)) for i in range(p["procs"])]
    if p.get("except_at") is not None:
        obs.require(status.startswith("signal") or status.startswith("exit") or status == "ok", lambda: "ended with %s" % status)
        f = check_logs(p, obs, d, outdir, fault=True, killed=True)
        exc = [n for n in os.listdir(outdir) if n.endswith("_except")]
        t0 = [t for t in f["hooks"] if f["hooks"][t] == 0]
        obs.require(len(exc) == 1, lambda: "agents saved after the reported exception: %s" % exc)
        obs.require(exc[0] == "%d_except" % max(t0), lambda: "saved as %s, worker 0 was at step %d" % (exc[0], max(t0)))
        w = who(outdir, exc[0])
        obs.require(w is not None and w["idx"] == 0, "the saved agent is not complete")
        obs.require(f["total"] < 10**5, "training went on after the exception")
        obs.sig("event", p["procs"], p["except_at"] - p["offset"])
        obs.n("faults")
        return
    fired = [i for i, log in enumerate(logs) if any(e["e"] == "fault" for e in log)]
    if status != "ok":
        raise Violation("asynchronous training ended with %s: %s" % (status, str(v)[-600:]))
    f = check_logs(p, obs, d, outdir, fault=True, killed=True)
    exc = check_saves(p, obs, outdir, f, fault=True)
    ts = sorted(f["hooks"])
    obs.require(ts == list(range(p["offset"] + 1, p["offset"] + 1 + len(ts))), lambda: "counted steps %s" % ts[-4:])
    if p["procs"] > 1 or not fired:
        obs.require(ts[-1] >= p["steps"], lambda: "the other workers ended after %s of %d steps" % (ts[-1:], p["steps"]))
    if fired:
        obs.require(len(v["warnings"]) == 1, lambda: "the failure of worker %s was reported as %s" % (fired, v["warnings"]))
        obs.require("#%d " % fired[0] in v["warnings"][0], lambda: "the failure of worker %s was reported as %s" % (fired, v["warnings"]))
        last = max([t for t in f["hooks"] if f["hooks"][t] == 0] or [0])
        if fired == [0] and p["fault"]["how"] != "kill":
            obs.require(exc == ["%d_except" % last], lambda: "agents saved after the failure of worker 0 at %d: %s" % (last, exc))
            w = who(outdir, exc[0])
            obs.require(w is not None and w["idx"] == 0, "the saved agent is not complete")
        else:
            obs.require(not exc, lambda: "agents saved on exceptions: %s" % exc)
        obs.n("faults")
    else:
        obs.require(not v["warnings"], lambda: "workers failed: %s" % v["warnings"])
    obs.n("steps", f["total"])
    obs.sig("fault", p["procs"], p["fault"]["how"], p["fault"]["idx"], p["fault"]["test"], p["fault"]["at"], bool(fired))


# -- real agents -------------------------------------------------------------------

def digest(agent, names):
    h = []
    for n in names:
        m = getattr(agent, n)
        if isinstance(m, torch.optim.Optimizer):
            st = m.state_dict()["state"]
            x = [v.detach().numpy().tobytes() for k in sorted(st, key=str) for _, v in sorted(st[k].items()) if isinstance(v, torch.Tensor)]
        else:
            x = [v.detach().numpy().tobytes() for _, v in sorted(m.state_dict().items())]
        h.append(hashlib.md5(b"".join(x)).hexdigest()[:10])
    return h


def gen_real(rng, tier):
    return dict(name=str(rng.choice(["A3C", "ACER"])), procs=int(rng.choice([1, 2, 3, 5])), steps=int(rng.choice([40, 90])),
                make_agent=bool(rng.rand() < 0.5), opt=str(rng.choice(["eps", "shared"])), prog=int(rng.randint(2**31)), delay=float(rng.choice([0.0005, 0.002])),
                interval=[None, 20][rng.randint(2)], t_max=int(rng.choice([1, 3, 5])))


def run_real(p, d, outdir):
    import pfrl
    import torch.multiprocessing as mp
    from torch import nn

    from checks import c14
    from vlib import agents as V

    lock = mp.Lock()
    names = ("shared_model", "optimizer") if p["name"] == "A3C" else ("shared_model", "shared_average_model", "optimizer")
    base = pfrl.agents.A3C if p["name"] == "A3C" else pfrl.agents.ACER

    class Watched(base):
        def _w(self, op, f, *a):
            if self.process_idx is None:
                return f(*a)
            with lock:
                b = digest(self, names)
                out = f(*a)
                A.ELog(d, "all").add("call", op=op, idx=self.process_idx, before=b, after=digest(self, names), training=bool(self.training))
            return out

        def act(self, o):
            return self._w("act", super().act, o)

        def observe(self, *a):
            return self._w("observe", super().observe, *a)

    Opt = pfrl.optimizers.SharedRMSpropEpsInsideSqrt

    def make(i=0):
        torch.manual_seed(p["prog"] % 1000 + 17 * i)
        if p["name"] == "A3C":
            m = nn.Sequential(nn.Linear(4, 8), nn.Tanh(), pfrl.nn.Branched(nn.Sequential(nn.Linear(8, 3), pfrl.policies.SoftmaxCategoricalHead()), nn.Linear(8, 1)))
            return Watched(m, Opt(m.parameters(), lr=1e-2), t_max=p["t_max"], gamma=0.9)
        m = pfrl.agents.acer.ACERDiscreteActionHead(
            pi=nn.Sequential(nn.Linear(4, 3), pfrl.policies.SoftmaxCategoricalHead()),
            q=nn.Sequential(nn.Linear(4, 3), pfrl.q_functions.DiscreteActionValueHead()))
        return Watched(m, Opt(m.parameters(), lr=1e-2), t_max=p["t_max"], gamma=0.9, replay_buffer=pfrl.replay_buffers.EpisodicReplayBuffer(100), replay_start_size=10, n_times_replay=1)

    class Env(A.Env):
        def step(self, a):
            return super().step(a)

        def _obs(self):
            return np.array([self.idx, self.ep % 3, self.k % 4, 1.0], dtype=np.float32) / 4

    def make_env(process_idx, test):
        return Env(d, process_idx, test, seed=(p["prog"] + process_idx) % 2**31, p_done=0.15, delay=p["delay"])

    kw = dict(make_agent=make) if p["make_agent"] else dict(agent=make())
    log = A.ELog(d, "final")
    ret = pfrl.experiments.train_agent_async(outdir, p["procs"], make_env, steps=p["steps"], eval_interval=p["interval"], eval_n_episodes=1, **kw)
    return dict(final=digest(ret, names))


def check_real(p, obs):
    d, outdir = obs.tmpdir(), obs.tmpdir()
    status, v, left = A.in_session(lambda: run_real(p, d, outdir), HANG)
    if status == "timeout":
        raise Violation("asynchronous training of %s hangs" % p["name"])
    if status != "ok":
        raise Violation("asynchronous training of %s ended with %s: %s" % (p["name"], status, str(v)[-900:]))
    log = A.read_log(d, "all")
    obs.require(len(log) > 0, "nothing was trained")
    prev, who_ = None, None
    n_up, cross = 0, 0
    changed = [0] * len(v["final"])
    for e in log:
        if prev is not None:
            obs.require(e["before"] == prev, lambda: "worker %d does not see the parameters and statistics left by worker %s" % (e["idx"], who_))
        if e["before"] != e["after"]:
            n_up += 1
            obs.require(e["training"], "an evaluation changed the shared parameters")
            if who_ is not None and who_ != e["idx"]:
                cross += 1
            who_ = e["idx"]
            for j in range(len(changed)):
                changed[j] += e["before"][j] != e["after"][j]
        prev = e["after"]
    obs.require(v["final"] == prev, "the returned agent does not have the parameters left by the workers")
    obs.require(all(changed) or n_up == 0, lambda: "updates changed %s of the shared attributes" % changed)
    obs.require(n_up > 0, "no update was made")
    obs.n("updates", n_up)
    obs.n("updates_following_another_worker", cross)
    obs.sig(p["name"], p["procs"], tuple(e["idx"] for e in log))


KINDS = [
    Kind("run", gen, check_run, 220, 2500, timeout=300),
    Kind("fault", gen_fault, check_fault, 100, 1000, timeout=300),
    Kind("real", gen_real, check_real, 30, 300, timeout=300),
]
