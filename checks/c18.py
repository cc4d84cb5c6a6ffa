"""C18: the batch training loop follows the documented protocol."""
import os

from vlib.core import Kind
from vlib import loops as L

LEVEL = "exploration"
RULE = (
    "loop: train_agent_batch / train_agent_batch_with_evaluation run on a batch of environments "
    "with unique observations and independent random scripts of terminals and reset requests, a "
    "recording agent, hooks, scripted or real evaluators, checkpoints, offsets and episode "
    "limits; an offline checker replays the event log through the per-environment protocol "
    "automata. faults: an exception of random type at a random call. shared: evaluation on the "
    "training environments themselves (no eval_env given). distinct_nontrivial counts distinct "
    "(environments, steps, offset, limit, end reasons seen, evaluator, checkpoint, fault point)."
)


def gen(rng, tier):
    return dict(
        envs=int(rng.choice([1, 2, 3, 5, 8])), n=int(rng.choice([1, 2, 5, 17, 40, 90])), off=int(rng.choice([0, 0, 1, 7, 33])),
        max_len=[None, 1, 2, 5, 9][rng.randint(5)],
        p_done=float(rng.choice([0.0, 0.05, 0.2, 0.6])), p_reset=float(rng.choice([0.0, 0.05, 0.3])),
        ckpt=[None, 1, 3, 7, 10][rng.randint(5)], hooks=int(rng.randint(4)),
        ev=str(rng.choice(["none", "stub", "stub", "real"])), eval_envs=int(rng.choice([1, 2, 3])),
        log=[None, 1, 4][rng.randint(3)],
        succ=[None, None, 5.0, 15.0][rng.randint(4)], with_t=bool(rng.rand() < 0.7),
        interval=int(rng.choice([1, 3, 10, 25])), eval_n=int(rng.choice([1, 2, 3])), eval_steps=bool(rng.rand() < 0.4),
        rewards=str(rng.choice(["dyadic", "int", "np32", "np64"])), fault=None, prog=int(rng.randint(2**31)))


def gen_fault(rng, tier):
    p = gen(rng, tier)
    ops = ["env.reset", "env.step", "agent.act", "agent.observe"]
    if p["hooks"]:
        ops += ["hook"] * 2
    if p["ev"] != "none":
        ops += ["evaluator"] if p["ev"] == "stub" else ["env.step"]
    if p["ckpt"]:
        ops += ["agent.save"] * 2
    p["fault"] = [str(ops[rng.randint(len(ops))]), int(rng.choice([0, 1, 2, 5, 12, 30])),
                  str(rng.choice(["Boom", "KeyboardInterrupt", "ValueError", "StopIteration"]))]
    return p


def gen_shared(rng, tier):
    p = gen(rng, tier)
    p.update(ev="shared", n=40, succ=None)
    return p


def run(p, obs):
    from pfrl import experiments as X

    log = L.Log()
    es = [L.ScriptEnv(log, p["prog"] + 17 * i, i, p["p_done"], p["p_reset"], p["rewards"]) for i in range(p["envs"])]
    venv = L.VecEnv(es)
    agent = L.RecAgent(log, p["with_t"])
    agent.envs = es
    out = obs.tmpdir()
    exc = None
    if p["fault"]:
        op, k, nm = p["fault"]
        exc = dict(Boom=L.Boom, KeyboardInterrupt=KeyboardInterrupt, ValueError=ValueError,
                   StopIteration=StopIteration)[nm]("injected")
        log.fault = (op, k, exc)

    def mk_hook(i):
        def hook(env_, agent_, step):
            log.call("hook")
            log.add("hook", i=i, t=int(step), same=env_ is venv and agent_ is agent)
        return hook

    hooks = [mk_hook(i) for i in range(p["hooks"])]
    kw = dict(checkpoint_freq=p["ckpt"], step_offset=p["off"], successful_score=p["succ"], step_hooks=hooks,
              max_episode_len=p["max_len"], log_interval=p["log"])
    raised, hist, ees = None, None, []
    total = p["off"] + p["n"]
    try:
        if p["ev"] in ("none", "stub"):
            ev = None
            if p["ev"] == "stub":
                ev = L.StubEvaluator(log, p["prog"] + 1)
                ees = [L.ScriptEnv(log, 1, 100)]
                ev.env = L.VecEnv(ees)
            hist = X.train_agent_batch(agent, venv, total, out, evaluator=ev, **kw)
        else:
            eenv = None
            if p["ev"] == "real":
                ees = [L.ScriptEnv(log, p["prog"] + 3 + i, 100 + i, 0.3, 0.1, p["rewards"])
                       for i in range(p["eval_envs"])]
                eenv = L.VecEnv(ees)
            ns, ne = (p["eval_n"] * 3, None) if p["eval_steps"] else (None, p["eval_n"])
            a, hist = X.train_agent_batch_with_evaluation(
                agent, venv, total, ns, ne, p["interval"], out,
                eval_max_episode_len=p["max_len"] or 6, eval_env=eenv, **kw)
            obs.require(a is agent, "another agent was returned")
    except BaseException as e:  # noqa
        raised = e
        if exc is None or not log.fired:
            raise
    return log, agent, es, ees, out, exc, raised, hist


def check(p, obs):
    log, agent, es, ees, out, exc, raised, hist = run(p, obs)
    N = p["envs"]
    if log.fired:
        obs.require(raised is exc, lambda: "injected %r, but %r came out" % (exc, raised))
        obs.n("faults_propagated")
    ev = log.ev
    obs.n("events", len(ev))
    off, total, ml = p["off"], p["off"] + p["n"], p["max_len"]
    t, iters = off, 0
    cur, ended, ep_len, eps = [None] * N, [True] * N, [0] * N, 0
    acts, taken = None, {}
    hooks, evals, saves, scores = [], [], [], []
    stop, after_fault, in_eval, reasons, tainted = False, False, False, set(), False
    for e in ev:
        op = e["op"]
        if op == "fault":
            after_fault = True
            continue
        if after_fault:
            obs.require(op == "save", lambda: "%s after a failure" % op)
        if op in ("reset", "step", "act", "observe") and not e["training"]:
            if not in_eval:
                in_eval = True
                evals.append((t, None))
                obs.require(acts is None, "evaluation between action and observation")
                if p["ev"] == "shared" and not all(ended):
                    tainted = True
            continue
        if op in ("reset", "step", "act", "observe"):
            in_eval = False
        if op == "reset":
            i = e["env"]
            obs.require(ended[i], lambda: "environment %d reset in mid-episode at step %d" % (i, t))
            obs.require(acts is None, "reset during a step")
            cur[i], ended[i], ep_len[i] = e["obs"], False, 0
        elif op == "act":
            obs.require(not stop and t < total or iters == 0,
                        lambda: "action after the end (step %d of %d)" % (t, total))
            obs.require(not any(ended), lambda: "step %d: environments %s were not reset" % (
                t, [i for i in range(N) if ended[i]]))
            if tainted and e["cur"] != cur:
                # the evaluation used and moved the training environments
                obs.known.append("shared-eval-env")
                obs.n("shared_evaluations")
                obs.sig("shared", N, ml)
                return
            obs.require(e["obs"] == cur, lambda: "step %d: agent saw %s instead of %s" % (t, e["obs"], cur))
            obs.require(e["cur"] == cur, lambda: "step %d: environments are in other states than shown" % t)
            obs.require(acts is None, "two actions for one step")
            acts = e["action"]
            taken = {}
        elif op == "step":
            i = e["env"]
            obs.require(acts is not None and i not in taken, lambda: "environment %d stepped twice" % i)
            obs.require(e["action"] == acts[i], lambda: "environment %d: executed action %s, chosen was %s" % (
                i, e["action"], acts[i]))
            obs.require(not e["bad"], "stepped an environment that had ended")
            taken[i] = e
            ep_len[i] += 1
        elif op == "observe":
            obs.require(acts is not None and len(taken) == N, "observation without stepping every environment")
            for i in range(N):
                x = taken[i]
                g = (e["obs"][i], e["r"][i], e["done"][i])
                w = (x["obs"], x["r"], x["done"])
                obs.require(g == w, lambda: "environment %d: agent was told %s, environment said %s" % (i, g, w))
                lim = ml is not None and ep_len[i] == ml
                want = lim or x["nr"]
                if want or not x["done"]:
                    obs.require(e["reset"][i] == want, lambda: "step %d, environment %d: reset=%s (limit %s, requested %s, terminal %s)" % (
                        t, i, e["reset"][i], lim, x["nr"], x["done"]))
                reasons.add((lim, x["nr"], x["done"]))
                cur[i] = x["obs"]
                ended[i] = want or x["done"]
                eps += ended[i]
            obs.require(len(e["reset"]) == N and len(e["obs"]) == N, "batch sizes differ")
            acts, taken = None, {}
            t += N
            iters += 1
            obs.n("steps_checked", N)
        elif op == "hook":
            obs.require(e["same"], "hook got another environment or agent")
            hooks.append((e["t"], e["i"]))
            obs.require(t - N < e["t"] <= t and acts is None, lambda: "hook called with step %d at step %d" % (e["t"], t))
        elif op == "eval":
            obs.require(e["t"] == t, lambda: "evaluator called with t=%d at step %d" % (e["t"], t))
            obs.require(e["episodes"] == eps, lambda: "evaluator told %d episodes, %d finished" % (e["episodes"], eps))
            evals.append((t, e["score"]))
            if e["score"] is not None:
                scores.append(e["score"])
                if p["succ"] is not None and e["max"] >= p["succ"]:
                    stop = True
        elif op == "save":
            saves.append((e["dir"], t, e["version"], after_fault, e["parent"]))
    T = t
    want_T = off + -(-p["n"] // N) * N
    if not log.fired:
        if not stop and not (p["ev"] == "real" and p["succ"] is not None):
            obs.require(T == want_T, lambda: "ran to step %d instead of %d" % (T, want_T))
        elif p["ev"] == "real":
            sc = [h["eval_score"] for h in hist]
            hit = [x >= p["succ"] for x in sc]
            obs.require(not any(hit[:-1]), lambda: "went on after score %s >= %s" % (sc, p["succ"]))
            if T < want_T:
                obs.require(hit and hit[-1] and evals[-1][0] == T, lambda: "stopped at step %d of %d" % (T, total))
        obs.require(acts is None, "ended between action and observation")
    if p["with_t"] and iters:
        obs.require(agent.t == off, lambda: "agent.t started at %s with offset %d" % (agent.t, off))
    want = [(q, i) for q in range(off + 1, T + 1) for i in range(p["hooks"])]
    if log.fired:
        obs.require(hooks == want[:len(hooks)] and len(hooks) >= len(want) - N * p["hooks"],
                    lambda: "hooks called: %s" % hooks[-10:])
    else:
        obs.require(hooks == want, lambda: "hooks called: %s..." % hooks[:12])
    want_eval = [off + N * (k + 1) for k in range(iters)]
    if p["ev"] == "stub":
        g, w = [q for q, _ in evals], want_eval
        if log.fired:
            g, w = [q for q in g if q < T], [q for q in w if q < T]
        obs.require(g == w, lambda: "evaluator consulted at %s instead of %s" % (g[:10], w[:10]))
    elif p["ev"] in ("real", "shared"):
        w, prev = [], off - off % p["interval"]
        for q in want_eval:
            if q >= prev + p["interval"]:
                w.append(q)
                prev = q - q % p["interval"]
        g = [q for q, _ in evals]
        if log.fired:
            w, g = [q for q in w if q < T], [q for q in g if q < T]
        obs.require(g == w, lambda: "evaluated at %s instead of %s (interval %d)" % (g[:10], w[:10], p["interval"]))
        obs.n("evaluations_seen", len(g))
    if hist is not None:
        n = len(scores) if p["ev"] == "stub" else len(evals)
        obs.require(len(hist) == n, lambda: "%d evaluation results returned for %d evaluations" % (len(hist), n))
        if p["ev"] == "stub":
            obs.require([h["eval_score"] for h in hist] == scores, "returned scores differ")
    names = [x[0] for x in saves if x[0].endswith("_checkpoint")]
    may = ["%d_checkpoint" % q for q in range(off + 1, T + 1) if p["ckpt"] and q % p["ckpt"] == 0]
    lo = T - N if log.fired else T - 1
    must = ["%d_checkpoint" % q for q in range(off + 1, lo + 1) if p["ckpt"] and q % p["ckpt"] == 0]
    if p["fault"] and log.fired and p["fault"][0] == "agent.save":
        must = []
    obs.require(all(d in names for d in must) and set(names) <= set(may) and len(set(names)) == len(names),
                lambda: "checkpoints %s, expected %s" % (names, must))
    for d, tt, v, af, par in saves:
        obs.require(os.path.abspath(par) == os.path.abspath(out), lambda: "agent saved outside the output directory: %s" % par)
        if d.endswith("_checkpoint"):
            q = int(d.split("_")[0])
            obs.require(tt - N < q <= tt, lambda: "%s saved at step %d" % (d, tt))
    fin = [x for x in saves if x[0].endswith("_finish") or x[0].endswith("_except")]
    if not log.fired:
        obs.require([x[0] for x in fin] == ["%d_finish" % T] and fin[0][2] == agent.version,
                    lambda: "final saves %s at step %d" % ([x[0] for x in fin], T))
    elif not (p["fault"][0] == "env.reset" and p["fault"][1] < N):
        if not (p["fault"][0] == "agent.save" and ev[-1]["op"] == "fault"):
            # within the hooks of a step the count may lag by the environments not yet counted
            ok = len(fin) == 1 and fin[0][0].endswith("_except") and fin[0][2] == agent.version
            if ok:
                ok = T - N <= int(fin[0][0].split("_")[0]) <= T
            obs.require(ok, lambda: "after a failure at step %d: saves %s" % (T, [x[0] for x in fin]))
            obs.require(all(x.closed for x in es + ees), "environments left open after a failure")
            obs.n("saved_after_fault")
    obs.sig(N, p["n"], p["off"], ml, tuple(sorted(reasons)), p["ev"], bool(p["ckpt"]), log.fired and p["fault"][0])


KINDS = [
    Kind("loop", gen, check, 2500, 40000),
    Kind("faults", gen_fault, check, 2500, 40000),
    Kind("shared", gen_shared, check, 40, 400),
]
