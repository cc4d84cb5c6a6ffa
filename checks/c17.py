"""C17: the serial training loop follows the documented protocol."""
import os

import numpy as np

from vlib.core import Kind
from vlib import agents as V
from vlib import loops as L

LEVEL = "exploration"
RULE = (
    "loop: train_agent / train_agent_with_evaluation run with an environment of unique "
    "observations and a random script of terminals and reset requests, a recording agent, hooks, "
    "scripted or real evaluators, checkpoints, offsets and episode limits. An offline checker "
    "replays the event log through the protocol automaton. faults: an exception of random type at "
    "a random call of environment, agent, hook, evaluator or checkpoint. interp: the value "
    "interpolation hook against its formula. resume: real agents of every class continue training "
    "at a step offset. distinct_nontrivial counts distinct (steps, offset, limit, end reasons "
    "seen, evaluator, checkpoint, fault point)."
)


def gen(rng, tier):
    steps = int(rng.choice([1, 2, 5, 17, 40, 90]))
    off = int(rng.choice([0, 0, 1, 7, 33]))
    return dict(
        n=steps, off=off, max_len=[None, 1, 2, 5, 9][rng.randint(5)],
        p_done=float(rng.choice([0.0, 0.05, 0.2, 0.6])), p_reset=float(rng.choice([0.0, 0.05, 0.3])),
        ckpt=[None, 1, 3, 7, 10][rng.randint(5)], hooks=int(rng.randint(4)),
        ev=str(rng.choice(["none", "stub", "stub", "real", "shared"])), during=bool(rng.rand() < 0.3),
        succ=[None, None, 5.0, 15.0][rng.randint(4)], with_t=bool(rng.rand() < 0.7),
        interval=int(rng.choice([1, 3, 10, 25])), eval_n=int(rng.choice([1, 2, 3])), eval_steps=bool(rng.rand() < 0.4),
        rewards=str(rng.choice(["dyadic", "int", "np32", "np64"])), fault=None, prog=int(rng.randint(2**31)))


def gen_fault(rng, tier):
    p = gen(rng, tier)
    ops = ["env.reset", "env.step", "agent.act", "agent.observe", "agent.stats"]
    if p["hooks"]:
        ops += ["hook"] * 2
    if p["ev"] != "none":
        ops += ["evaluator"] if p["ev"] == "stub" else ["env.step"]
    if p["ckpt"]:
        ops += ["agent.save"] * 2
    p["fault"] = [str(ops[rng.randint(len(ops))]), int(rng.choice([0, 1, 2, 5, 12])),
                  str(rng.choice(["Boom", "KeyboardInterrupt", "ValueError", "StopIteration"]))]
    return p


def run(p, obs):
    from pfrl import experiments as X

    log = L.Log()
    env = L.ScriptEnv(log, p["prog"], 0, p["p_done"], p["p_reset"], p["rewards"])
    agent = L.RecAgent(log, p["with_t"])
    agent.envs = [env]
    out = obs.tmpdir()
    exc = None
    if p["fault"]:
        op, k, nm = p["fault"]
        exc = dict(Boom=L.Boom, KeyboardInterrupt=KeyboardInterrupt, ValueError=ValueError,
                   StopIteration=StopIteration)[nm]("injected")
        log.fault = (op, k, exc)

    def mk_hook(i):
        def hook(env_, agent_, step):
            log.call("hook")
            log.add("hook", i=i, t=int(step), same=env_ is env and agent_ is agent)
        return hook

    hooks = [mk_hook(i) for i in range(p["hooks"])]
    kw = dict(checkpoint_freq=p["ckpt"], step_offset=p["off"], successful_score=p["succ"], step_hooks=hooks)
    during = p["during"]
    raised, hist = None, None
    total = p["off"] + p["n"]
    try:
        if p["ev"] in ("none", "stub"):
            ev = L.StubEvaluator(log, p["prog"] + 1) if p["ev"] == "stub" else None
            hist = X.train_agent(agent, env, total, out, max_episode_len=p["max_len"], evaluator=ev,
                                 eval_during_episode=during, **kw)
        else:
            eenv = None
            if p["ev"] == "real":
                eenv = L.ScriptEnv(log, p["prog"] + 3, 1, 0.3, 0.1, p["rewards"])
            else:
                during = False
            ns, ne = (p["eval_n"] * 3, None) if p["eval_steps"] else (None, p["eval_n"])
            ml = p["max_len"] or 6
            a, hist = X.train_agent_with_evaluation(
                agent, env, total, ns, ne, p["interval"], out, train_max_episode_len=p["max_len"],
                eval_max_episode_len=ml, eval_env=eenv, eval_during_episode=during, **kw)
            obs.require(a is agent, "another agent was returned")
    except BaseException as e:  # noqa
        raised = e
        if exc is None or not log.fired:
            raise
    return log, agent, env, out, exc, raised, hist, during


def check(p, obs):
    log, agent, env, out, exc, raised, hist, during = run(p, obs)
    if log.fired:
        obs.require(raised is exc, lambda: "injected %r, but %r came out" % (exc, raised))
        obs.n("faults_propagated")
    ev = log.ev
    fi = [i for i, e in enumerate(ev) if e["op"] == "fault"]
    obs.n("events", len(ev))
    off, total, ml = p["off"], p["off"] + p["n"], p["max_len"]
    t, cur, ep_len, ended, eps = off, None, 0, True, 0
    pend, taken = None, None  # chosen action, result of the environment step
    hooks_done, evals, saves, scores = {}, [], [], []
    stop, started, reasons = False, False, set()
    n_eval, after_fault = 0, False
    in_eval = False
    nsteps = 0
    for i, e in enumerate(ev):
        op = e["op"]
        if op == "fault":
            after_fault = True
            continue
        if after_fault:
            obs.require(op == "save", lambda: "%s after a failure" % op)
        if op in ("reset", "step", "act", "observe") and not e["training"]:
            # an evaluation in progress
            if not in_eval:
                in_eval = True
                n_eval += 1
                evals.append((t, None))
                obs.require(taken is None, "evaluation between environment step and observation")
            continue
        in_eval = False if op in ("reset", "step", "act", "observe") else in_eval
        if op == "reset":
            obs.require(ended, lambda: "environment reset in mid-episode at step %d" % t)
            cur, ended, ep_len = e["obs"], False, 0
            started = True
        elif op == "act":
            obs.require(not stop, lambda: "action after the end (step %d of %d)" % (t, total))
            obs.require(not ended, lambda: "step %d: acted without reset after the end of the episode" % t)
            obs.require(e["obs"] == cur, lambda: "step %d: agent saw %s instead of %s" % (t, e["obs"], cur))
            obs.require(e["cur"] == [cur], lambda: "step %d: the environment is in another state than shown" % t)
            obs.require(pend is None and taken is None, "two actions for one step")
            obs.require(t < total, lambda: "more than %d steps" % total)
            pend = e["action"]
        elif op == "step":
            obs.require(pend is not None and e["action"] == pend,
                        lambda: "executed action %s, chosen was %s" % (e["action"], pend))
            obs.require(not e["bad"], "stepped an environment that had ended")
            taken, pend = e, None
            t += 1
            nsteps += 1
            ep_len += 1
        elif op == "observe":
            obs.require(taken is not None, "observation without an environment step")
            g = (e["obs"], e["r"], e["done"])
            w = (taken["obs"], taken["r"], taken["done"])
            obs.require(g == w, lambda: "agent was told %s, environment said %s" % (g, w))
            lim = ml is not None and ep_len == ml
            want = lim or taken["nr"]
            if want or not taken["done"]:
                obs.require(e["reset"] == want, lambda: "step %d: reset=%s (limit %s, requested %s, terminal %s)" % (
                    t, e["reset"], lim, taken["nr"], taken["done"]))
            reasons.add((lim, taken["nr"], taken["done"]))
            cur = taken["obs"]
            ended = want or taken["done"]
            if ended or t == total:
                eps += 1
            taken = None
            obs.n("steps_checked")
        elif op == "hook":
            obs.require(e["same"], "hook got another environment or agent")
            obs.require(taken is None and e["t"] == t, lambda: "hook called with step %d at step %d" % (e["t"], t))
            hooks_done.setdefault(t, []).append(e["i"])
        elif op == "eval":
            obs.require(e["t"] == t, lambda: "evaluator called with t=%d at step %d" % (e["t"], t))
            obs.require(e["episodes"] == eps or t == total,
                        lambda: "evaluator told %d episodes, %d finished" % (e["episodes"], eps))
            evals.append((t, e["score"]))
            if e["score"] is not None:
                scores.append(e["score"])
            if p["succ"] is not None and e["max"] >= p["succ"]:
                stop = True
        elif op == "save":
            saves.append((e["dir"], t, e["version"], after_fault, e["parent"]))
    # totals
    T = t
    if not log.fired:
        if not stop and not (p["ev"] in ("real", "shared") and p["succ"] is not None):
            obs.require(T == total, lambda: "ran %d steps instead of %d" % (T - off, total - off))
        elif p["ev"] in ("real", "shared"):
            sc = [h["eval_score"] for h in hist]
            hit = [x >= p["succ"] for x in sc]
            obs.require(not any(hit[:-1]), lambda: "went on after score %s >= %s" % (sc, p["succ"]))
            if T < total:
                obs.require(hit and hit[-1] and evals[-1][0] == T, lambda: "stopped at step %d of %d" % (T, total))
            else:
                obs.n("ran_to_the_end")
        obs.require(taken is None and pend is None, "ended between action and observation")
    for q in range(off + 1, T + 1):
        full = not log.fired or q < T
        got = hooks_done.get(q, [])
        obs.require(got == list(range(len(got))) and (len(got) == p["hooks"] or not full),
                    lambda: "step %d: hooks called: %s" % (q, got))
    if p["with_t"] and nsteps and not log.fired:
        obs.require(agent.t == T, lambda: "agent.t is %s at step %d" % (agent.t, T))
    # where evaluations must have happened
    want_eval = []
    ends = episode_ends(ev, p, total)
    for q in range(off + 1, T + 1):
        if during or q in ends:
            want_eval.append(q)
    if p["ev"] == "stub":
        got = [q for q, _ in evals]
        w = want_eval if not log.fired else [q for q in want_eval if q < T]
        g = got if not log.fired else [q for q in got if q < T]
        obs.require(g == w, lambda: "evaluator consulted at %s instead of %s" % (g[:10], w[:10]))
    elif p["ev"] in ("real", "shared"):
        w, prev = [], off - off % p["interval"]
        for q in want_eval:
            if q >= prev + p["interval"]:
                w.append(q)
                prev = q - q % p["interval"]
        g = [q for q, _ in evals]
        if log.fired:
            w, g = [q for q in w if q < T], [q for q in g if q < T]
        obs.require(g == w, lambda: "evaluated at %s instead of %s (interval %d)" % (g[:10], w[:10], p["interval"]))
        obs.n("evaluations_seen", len(g))
    if hist is not None:
        n = len(scores) if p["ev"] == "stub" else n_eval
        obs.require(len(hist) == n, lambda: "%d evaluation results returned for %d evaluations" % (len(hist), n))
        if p["ev"] == "stub":
            obs.require([h["eval_score"] for h in hist] == scores, "returned scores differ")
    # saves
    ck = [(d, tt, af) for d, tt, v, af, par in saves if d.endswith("_checkpoint")]
    names = [d for d, _, _ in ck]
    must = []
    for q in range(off + 1, T + 1):
        if p["ckpt"] and q % p["ckpt"] == 0:
            if q < T and not (p["fault"] and log.fired and p["fault"][0] == "agent.save"):
                must.append("%d_checkpoint" % q)
    may = set("%d_checkpoint" % q for q in range(off + 1, T + 1) if p["ckpt"] and q % p["ckpt"] == 0)
    obs.require(all(d in names for d in must) and set(names) <= may and len(set(names)) == len(names),
                lambda: "checkpoints %s, expected %s" % (names, must))
    for d, tt, af in ck:
        obs.require(d == "%d_checkpoint" % tt, lambda: "%s saved at step %d" % (d, tt))
    for d, tt, v, af, par in saves:
        obs.require(os.path.abspath(par) == os.path.abspath(out), lambda: "agent saved outside the output directory: %s" % par)
    fin = [x for x in saves if x[0].endswith("_finish") or x[0].endswith("_except")]
    if not log.fired:
        obs.require([x[0] for x in fin] == ["%d_finish" % T] and fin[0][2] == agent.version,
                    lambda: "final saves %s at step %d" % ([x[0] for x in fin], T))
        obs.require(ev[-1]["op"] == "save", "not saved at the very end")
    elif started and not (p["fault"][0] == "env.reset" and p["fault"][1] == 0):
        on_final = p["fault"][0] == "agent.save" and not fin and saves_at_end(ev)
        if not on_final:
            obs.require([x[0] for x in fin] == ["%d_except" % T] and fin[0][2] == agent.version,
                        lambda: "after a failure at step %d: saves %s" % (T, [x[0] for x in fin]))
            obs.n("saved_after_fault")
    obs.sig(p["n"], p["off"], ml, tuple(sorted(reasons)), p["ev"], bool(p["ckpt"]), log.fired and p["fault"][0])


def saves_at_end(ev):
    """The failing save was the final one (nothing follows it, all steps done)."""
    return ev[-1]["op"] == "fault"


def episode_ends(ev, p, total):
    t, n, res = p["off"], 0, set()
    for e in ev:
        if e["op"] == "step" and e["training"]:
            t += 1
            n += 1
            if e["done"] or e["nr"] or n == p["max_len"] or t == total:
                res.add(t)
                n = 0
    return res


# -- value interpolation hook -------------------------------------------------

def gen_interp(rng, tier):
    return dict(total=int(rng.choice([1, 2, 10, 1000, 10**6])), a=float(rng.randn()), b=float(rng.randn()),
                prog=int(rng.randint(2**31)))


def check_interp(p, obs):
    from pfrl.experiments import LinearInterpolationHook

    got = []
    if p["total"] == 1:
        p = dict(p, total=3)
    h = LinearInterpolationHook(p["total"], p["a"], p["b"], lambda env, agent, v: got.append((env, agent, v)))
    r = np.random.RandomState(p["prog"])
    for s in [1, 2, p["total"], p["total"] + 1, p["total"] * 3] + [int(x) for x in r.randint(1, p["total"] + 5, 20)]:
        h("e", "a", s)
        f = min(max((s - 1) / (p["total"] - 1), 0.0), 1.0)
        w = p["a"] + f * (p["b"] - p["a"])
        e, a, v = got[-1]
        obs.require(e == "e" and a == "a" and abs(v - w) < 1e-9 * (1 + abs(w)),
                    lambda: "step %d of %d: value %s instead of %s" % (s, p["total"], v, w))
    obs.sig(p["total"])


# -- real agents resumed at an offset ------------------------------------------

def gen_resume(rng, tier):
    name = V.ALL[rng.randint(len(V.ALL))]
    return dict(name=name, off=int(rng.choice([0, 1, 5, 12, 31])), n=int(rng.choice([8, 20, 41])),
                envs=int(rng.choice([1, 2, 3])), batch=bool(rng.rand() < 0.5), max_len=[None, 5][rng.randint(2)],
                prog=int(rng.randint(2**31)))


class FloatEnv(L.ScriptEnv):
    def _obs(self):
        super()._obs()
        r = np.random.RandomState(self.cur[1] * 1000 + self.cur[2] + 7 * self.cur[0])
        self.last = r.uniform(-1, 1, V.OBS).astype(np.float32)
        return self.last


def check_resume(p, obs):
    from pfrl import experiments as X
    from checks import c14

    batch = p["batch"] and p["name"] not in c14.SINGLE_STEP or p["name"] == "A2C"
    envs = p["envs"] if batch else 1
    h = c14.build(dict(name=p["name"], recurrent=False, probe=False, explorer="eps", discrete=True, envs=envs,
                       n_step=1, prioritized=False, det=True, norm=False, backsep=False, prog=p["prog"]))
    log = L.Log()
    es = [FloatEnv(log, p["prog"] + i, i, 0.1, 0.0 if p["name"] in ("A2C", "REINFORCE") else 0.1) for i in range(envs)]
    for e in es:
        e.action_space = e.observation_space = None
    total = p["off"] + p["n"]
    ml = None if p["name"] in ("A2C", "REINFORCE") else p["max_len"]
    if batch:
        X.train_agent_batch(h.agent, L.VecEnv(es), total, obs.tmpdir(), step_offset=p["off"], max_episode_len=ml)
        per = -(-p["n"] // envs)
    else:
        X.train_agent(h.agent, es[0], total, obs.tmpdir(), step_offset=p["off"], max_episode_len=ml)
        per = p["n"]
    n = [0] * envs
    for e in log.ev:
        if e["op"] == "step":
            n[e["env"]] += 1
    obs.require(n == [per] * envs, lambda: "%s at offset %d: %s steps instead of %d" % (p["name"], p["off"], n, per))
    obs.n("resumed_runs")
    obs.sig(p["name"], p["off"] > 0, envs)


KINDS = [
    Kind("loop", gen, check, 2500, 40000),
    Kind("faults", gen_fault, check, 2500, 40000),
    Kind("interp", gen_interp, check_interp, 20, 200),
    Kind("resume", gen_resume, check_resume, 80, 1000),
]
