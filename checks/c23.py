"""C23: actor-learner training neither loses, duplicates nor corrupts experience."""
import os

import numpy as np
import torch

from vlib.core import Kind, Violation
from vlib import actorlearner as AL
from vlib import asyncrun as A

LEVEL = "exploration"
RULE = (
    "run: actor-learner training of DQN with 1-5 actor processes, random delays in actors, poller and learner and "
    "at shared counters; environments and the learner's replay memory log uniquely identified transitions and an offline "
    "checker decides exactly-once delivery in order, episode ends, published parameters, update counts, target updates and "
    "priorities. fault: the same with a failure in the learner, the poller or an actor. "
    "distinct_nontrivial counts distinct interleavings of deliveries and updates."
)
ASSUMPTIONS = ["scheduling is explored by random delays, not enumerated"]
HANG = 120


def gen(rng, tier):
    rec = bool(rng.rand() < 0.25)
    pri = bool(not rec and rng.rand() < 0.45)
    cap = int(rng.choice([20, 40, 10**4]))
    p = dict(agent=str(rng.choice(["DQN", "DoubleDQN"])), actors=int(rng.choice([1, 2, 3, 5])), recurrent=rec, prioritized=pri,
             capacity=cap if not rec else 10**4, n_step=int(rng.choice([1, 1, 3])), start=int(rng.choice([8, 15])), batch=int(rng.choice([1, 4])),
             update_interval=int(rng.choice([1, 4])), target_interval=int(rng.choice([4, 12, 40])), publish=int(rng.choice([1, 3, 8])),
             own_counter=bool(rng.rand() < 0.5), steps=int(rng.choice([60, 120, 200])), interval=[None, 30][rng.randint(2)],
             max_len=[None, 6, 20][rng.randint(3)], p_done=float(rng.choice([0.05, 0.2])), p_reset=float(rng.choice([0, 0.1])),
             delay=float(rng.choice([0.0003, 0.001, 0.003])), slow=[float(rng.choice([0.2, 1, 4])) for _ in range(3)],
             jitter=float(rng.choice([0, 0.001])), n_updates=None, error_max=[1, None][rng.randint(2)], learn_on=float(rng.choice([0, 0, 0.3])),
             prog=int(rng.randint(2**31)))
    if rng.rand() < 0.3:
        p.update(n_updates=int(rng.choice([1, 10, 40])), steps=10**6)
    if rec:
        p["max_len"] = 8
    return p


def actor_trace(d, i, max_len):
    """What actor i has to deliver: transitions and episode ends, in order."""
    out = []
    log = A.read_log(d, str(i))
    cur, pos, k = None, 0, 0
    for e in log:
        if e["e"] == "reset" and not e["test"]:
            cur, k = e["obs"], 0
        elif e["e"] == "step" and not e["test"]:
            k += 1
            out.append(("append", i, cur, e["a"], e["r"], e["obs"], e["done"], k))
            cur = e["obs"]
            if e["done"] or e["needs"] or k == max_len:
                out.append(("stop", i))
    pids = {e["pid"] for e in log if e["e"] == "pid"}
    return out, pids


def check_delivery(p, obs, d, v):
    total = 0
    for i in range(p["actors"]):
        want, _ = actor_trace(d, i, p["max_len"])
        got = []
        for e in v["ev"]:
            if e[0] in ("append", "stop") and e[1] == i and not (e[0] == "stop" and got and got[-1][0] == "stop"):
                got.append(e)
        n = 0
        for w, g in zip(want, got):
            if w[0] == "append":
                obs.require(g[0] == "append" and tuple(g[2:7]) == tuple(w[2:7]),
                            lambda: "actor %d made %s as transition %d, the replay memory got %s" % (i, w[2:7], n, g))
                total += 1
                n += 1
                if p["recurrent"]:
                    h, h2 = g[7].get("recurrent_state"), g[7].get("next_recurrent_state")
                    k = w[7]
                    obs.require((h is None if k == 1 else h == [k - 1.0]) and h2 == [float(k)],
                                lambda: "step %d of an episode was delivered with recurrent states %s, %s" % (k, h, h2))
            else:
                obs.require(g[0] == "stop", lambda: "the end of an episode of actor %d is missing, got %s" % (i, g))
        # an episode end of the very last step may still be on its way only for an interrupted actor
        obs.require(len(got) == len(want), lambda: "actor %d produced %d events, %d reached the replay memory (last %s)" % (i, len(want), len(got), got[-2:]))
    stray = [e for e in v["ev"] if e[0] in ("append", "stop") and e[1] not in range(p["actors"])]
    obs.require(not stray, lambda: "experience of unknown actors: %s" % stray[:2])
    obs.require(v["cumulative"] == total, lambda: "%d steps counted, %d transitions" % (v["cumulative"], total))
    obs.n("transitions", total)
    return total


def check_parameters(p, obs, d, v):
    pub = [v["vals"][0]] + [x for k, x in enumerate(v["vals"][1:], 1) if k % p["publish"] == 0]
    obs.require(v["published"] == pub[-1], lambda: "actors see %r at the end, the learner last published %r" % (v["published"], pub[-1]))
    obs.require(v["counter"] == len(pub) - 1, lambda: "update counter %d after %d publications" % (v["counter"], len(pub) - 1))
    seen = set()
    for i in range(p["actors"]):
        _, pids = actor_trace(d, i, p["max_len"])
        log = [e for pid in pids for e in A.read_log(d, "pid%d" % pid)]
        j, n = 0, 0
        for e in log:
            obs.require(e["t"] == n, lambda: "actor %d explores at time %d instead of %d" % (i, e["t"], n))
            n += 1
            while j < len(pub) and pub[j] != e["v"]:
                j += 1
            obs.require(j < len(pub), lambda: "actor %d acted with value %r which was not published (or after a later one)" % (i, e["v"]))
            seen.add(j)
    obs.n("publications", len(pub) - 1)
    obs.n("publications_seen_by_actors", len(seen))


def check_learner(p, obs, v):
    n = len(v["hooks"])
    obs.require(v["hooks"] == [(True, True, k + 1) for k in range(n)], lambda: "optimizer step hooks %s" % v["hooks"][-3:])
    obs.require(v["steph"] == [(True, True, (k + 1) * p["update_interval"]) for k in range(n)], lambda: "step hooks %s" % v["steph"][-3:])
    obs.require(v["optim_t"] == n, lambda: "%d updates, %d hooks" % (v["optim_t"], n))
    t = v["vals"][0]
    for k in range(1, n + 1):
        obs.require(v["targets"][k] == t, lambda: "target network at update %d is %r instead of %r" % (k, v["targets"][k], t))
        if (k * p["update_interval"]) % p["target_interval"] == 0:
            t = v["vals"][k]
    if p["n_updates"] is not None:
        obs.require(n == p["n_updates"], lambda: "%d updates were made, %d requested" % (n, p["n_updates"]))
    samples = [e for e in v["ev"] if e[0] == "sample"]
    obs.require(len(samples) == n or len(samples) == n + 1 and v["exc"], lambda: "%d samples, %d updates" % (len(samples), n))
    # nothing is learned before replay_start_size transitions
    first = next((k for k, e in enumerate(v["ev"]) if e[0] == "sample"), None)
    if first is not None and p["n_step"] == 1:
        obs.require(sum(e[0] == "append" for e in v["ev"][:first + 1]) >= p["start"], "learning started early")
    obs.require(v["saved"] == v["v_end"], lambda: "saved %r, the learner has %r" % (v["saved"], v["v_end"]))
    obs.n("updates", n)


def check_priorities(p, obs, v):
    """Weights of sampled transitions must follow the errors fed back for the same transitions."""
    if not p["prioritized"]:
        return
    pri = {}
    mx = 1.0
    last = None
    known = 0
    for e in v["ev"]:
        if e[0] == "sample":
            last = e[1]
            ws = [(k[0], k[1], k[3]) for k in last]
            ps = [pri.get(k) for k in ws]
            for a in range(len(ws)):
                for b in range(a):
                    if ps[a] is None or ps[b] is None:
                        continue
                    r, want = last[a][2] / last[b][2], (ps[a] / ps[b]) ** -0.7
                    obs.require(abs(r - want) <= 1e-5 * want, lambda: "transitions with priorities %r and %r got weights in the ratio %r instead of %r" % (ps[a], ps[b], r, want))
                    known += 1
        elif e[0] == "errors":
            obs.require(last is not None and len(e[1]) == len(last), "errors without a sample")
            for k, err in zip(last, e[1]):
                q = max(0.0, err)
                if p["error_max"] is not None:
                    q = min(p["error_max"], q)
                pri[(k[0], k[1], k[3])] = (q + 0.01) ** 0.6
            last = None
    obs.n("weight_ratios", known)


def check_run(p, obs):
    d, outdir = obs.tmpdir(), obs.tmpdir()
    status, v, left = A.in_session(lambda: AL.run(p, d, outdir), HANG)
    if status == "timeout":
        raise Violation("actor-learner training hangs")
    if status != "ok":
        raise Violation("actor-learner training ended with %s: %s" % (status, str(v)[-900:]))
    obs.require(left == 0, "%d processes are left over" % left)
    obs.require(not v["warnings"], lambda: "actors failed: %s" % v["warnings"])
    obs.require(not v["exc"], "a failure was reported")
    obs.require(not v["alive"], lambda: "threads do not end: %s" % v["alive"])
    total = check_delivery(p, obs, d, v)
    if p["n_updates"] is None:
        obs.require(p["steps"] <= total <= p["steps"] + p["actors"] - 1, lambda: "%d steps of %d were made" % (total, p["steps"]))
        obs.require(os.path.exists(os.path.join(outdir, "%d_finish" % p["steps"], "model.pt")), "the final agent was not saved")
    check_parameters(p, obs, d, v)
    check_learner(p, obs, v)
    check_priorities(p, obs, v)
    obs.n("runs")
    obs.sig(p["actors"], tuple((e[0], e[1] if e[0] in ("append", "stop") else 0) for e in v["ev"][:150]))


def gen_fault(rng, tier):
    p = gen(rng, tier)
    p["n_updates"] = None
    p["steps"] = 120
    p["max_len"] = 6
    who = str(rng.choice(["learner", "sample", "append", "actor", "actor"]))
    p["fault"] = dict(who=who, at=int(rng.choice([1, 2, 7, 20])), how=str(rng.choice(["raise", "kill"])), exc=str(rng.choice(["boom", "runtime", "value", "key", "os", "type"])),
                      idx=int(rng.randint(p["actors"])) if rng.rand() < 0.6 else 0)
    if who != "actor":
        p["steps"] = 10**6
    return p


def check_fault(p, obs):
    d, outdir = obs.tmpdir(), obs.tmpdir()
    status, v, left = A.in_session(lambda: AL.run(p, d, outdir), HANG)
    f = p["fault"]
    if status == "timeout":
        raise Violation("actor-learner training hangs after a failure of the %s" % f)
    if status == "error":
        raise Violation("actor-learner training ended with %s: %s" % (status, str(v)[-900:]))
    obs.require(left == 0, lambda: "%d processes are left over" % left)
    exc = [n for n in os.listdir(outdir) if n.endswith("_except")]
    if f["who"] != "actor":
        # the first actor saves the agent and ends all processes, by a signal to their group
        obs.require(len(exc) == 1, lambda: "agents saved after a failure of the %s: %s" % (f["who"], exc))
        m = torch.load(os.path.join(outdir, exc[0], "model.pt"))
        obs.require(len(m) >= 1 and all(torch.isfinite(x).all() for x in m.values()), "the saved model is not complete")
    else:
        obs.require(status == "ok", lambda: "ended with %s" % status)
        fired = any(e["e"] == "fault" for i in range(p["actors"]) for e in A.read_log(d, str(i)))
        obs.require(fired == bool(v["warnings"]), lambda: "failure of actor %d reported as %s" % (f["idx"], v["warnings"]))
        obs.require(not v["alive"], lambda: "threads do not end: %s" % v["alive"])
        total = check_delivery(p, obs, d, v)
        if p["actors"] > 1 or not fired:
            obs.require(total >= p["steps"], lambda: "%d of %d steps were made" % (total, p["steps"]))
        if fired and f["idx"] == 0 and f["how"] == "raise":
            obs.require(len(exc) == 1 and os.path.exists(os.path.join(outdir, exc[0], "model.pt")), lambda: "agents saved after the failure: %s" % exc)
        check_parameters(p, obs, d, v)
        check_learner(p, obs, v)
    obs.n("faults")
    obs.sig(f["who"], f["at"], f["how"], f["idx"], p["actors"], p["recurrent"], p["prioritized"])


KINDS = [
    Kind("run", gen, check_run, 90, 900, timeout=400),
    Kind("fault", gen_fault, check_fault, 60, 500, timeout=400),
]
