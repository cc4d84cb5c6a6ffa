"""C20: evaluations run on schedule, score truthfully and keep the best agent."""
import json
import os
import statistics

import numpy as np

from vlib.core import Kind
from vlib import loops as L

LEVEL = "exploration"
RULE = (
    "Each case runs a whole evaluation history (Evaluator or AsyncEvaluator, single or batched "
    "environments, by steps or episodes) on environments with unique observations and random "
    "scripts of terminals, reset requests and rewards. The event log is replayed through the "
    "protocol automaton, the returns of the episodes are recomputed from the environments' own "
    "log, and the score table, evaluation hooks, best score and saved best agent are compared "
    "with them. faults: an exception inside an evaluation. distinct_nontrivial counts distinct "
    "(evaluator, environments, by steps, number, limit, end kinds, schedule)."
)


def gen(rng, tier):
    envs = int(rng.choice([0, 0, 1, 2, 3, 5, 8]))  # 0: a single, not vectorised environment
    ml = [None, 1, 2, 5, 9, 30][rng.randint(6)]
    p_done = float(rng.choice([0.0, 0.05, 0.2, 0.6]))
    p_reset = float(rng.choice([0.0, 0.05, 0.3]))
    by_steps = bool(rng.rand() < 0.5)
    if not by_steps and ml is None and p_done + p_reset < 0.1:
        p_done = 0.2
    return dict(
        envs=envs, max_len=ml, p_done=p_done, p_reset=p_reset, by_steps=by_steps,
        n=int(rng.choice([1, 2, 3, 7, 20])), interval=int(rng.choice([1, 2, 5, 10, 100])), off=int(rng.choice([0, 0, 3, 17, 250])),
        asyn=bool(rng.rand() < 0.3), save_best=bool(rng.rand() < 0.8), stats=bool(rng.rand() < 0.4),
        evals=int(rng.choice([1, 3, 12])), hooks=int(rng.randint(3)),
        fixed=[None, None, 4][rng.randint(3)] if ml is None or ml > 4 else None,
        rewards=str(rng.choice(["dyadic", "int", "np32", "np64", "close"])), fault=None,
        outer=bool(rng.rand() < 0.2), prog=int(rng.randint(2**31)))


def gen_fault(rng, tier):
    p = gen(rng, tier)
    p["fault"] = [str(rng.choice(["env.step", "agent.act", "agent.observe", "env.reset"])), int(rng.choice([0, 1, 3, 8])),
                  str(rng.choice(["Boom", "KeyboardInterrupt"]))]
    return p


class CloseEnv(L.ScriptEnv):
    """Returns that differ only slightly from each other, or not exactly representable."""

    def reward(self):
        if self.kind == "close":
            return 0.1 + 1e-9 * int(self.rng.randint(-50, 51)) if self.k == 1 else 0.0
        return super().reward()


def trace(ev, p, obs, terminated=True):
    """Protocol of one evaluation; returns the episodes in the order they began."""
    N = max(1, p["envs"])
    ml = p["max_len"]
    cur, ended, el = [None] * N, [True] * N, [0] * N
    cidx = [None] * N
    episodes = []  # dict(env, r, len, finished)
    acts, taken, last, steps = None, {}, None, 0
    pending = []

    def lst(x):
        return x if p["envs"] else [x]

    for e in ev:
        op = e["op"]
        if op not in ("reset", "step", "act", "observe"):
            continue
        obs.require(not e["training"], "evaluated in training mode")
        if op == "reset":
            i = e["env"]
            obs.require(ended[i] and acts is None, lambda: "evaluation environment %d reset in mid-episode" % i)
            cur[i], ended[i], el[i] = e["obs"], False, 0
            pending.append(i)
        elif op == "act":
            for i in sorted(pending):
                if cidx[i] is None:
                    cidx[i] = len(episodes)
                    episodes.append(dict(env=i, r=0.0, len=0, finished=False))
            pending = []
            obs.require(not any(ended) and acts is None, "acted on an ended episode")
            obs.require(lst(e["obs"]) == cur, lambda: "agent saw %s instead of %s" % (e["obs"], cur))
            acts, taken = lst(e["action"]), {}
        elif op == "step":
            i = e["env"]
            obs.require(acts is not None and i not in taken and e["action"] == acts[i] and not e["bad"],
                        lambda: "environment %d executed %s, chosen %s" % (i, e["action"], acts))
            taken[i] = e
            el[i] += 1
            x = episodes[cidx[i]]
            x["r"] += e["r"]
            x["len"] += 1
        elif op == "observe":
            obs.require(acts is not None and len(taken) == N, "observation without steps")
            last = e
            steps += 1
            for i in range(N):
                x = taken[i]
                g = (lst(e["obs"])[i], lst(e["r"])[i], lst(e["done"])[i])
                w = (x["obs"], x["r"], x["done"])
                obs.require(g == w, lambda: "agent was told %s, environment said %s" % (g, w))
                end = x["done"] or x["nr"] or (ml is not None and el[i] == ml)
                if x["nr"] or (ml is not None and el[i] == ml):
                    obs.require(lst(e["reset"])[i], "agent not told of a reset")
                x["told"] = lst(e["reset"])[i]
                x["end"] = end
                if end:
                    episodes[cidx[i]]["finished"] = True
                    cidx[i] = None
                    ended[i] = True
                cur[i] = x["obs"]
                e.setdefault("ends", []).append(end)
                e.setdefault("tolds", []).append(lst(e["reset"])[i])
            # the start order of new episodes: by environment
            for i in range(N):
                if ended[i] and cidx[i] is None:
                    cidx[i] = len(episodes)
                    episodes.append(dict(env=i, r=0.0, len=0, finished=False))
            acts = None
    # reset flags of all but the last step mean the end of an episode
    obsv = [e for e in ev if e["op"] == "observe"]
    for e in obsv[:-1]:
        for en, to in zip(e["ends"], e["tolds"]):
            obs.require(en or not to, "agent told of a reset in mid-episode")
    if terminated and last is not None:
        for en, to, d in zip(last["ends"], last["tolds"], lst(last["done"])):
            obs.require(to or d, "agent not told of the end of the evaluation: its episode was left open")
    return episodes, steps


def expected(episodes, steps, p, obs):
    """Which returns count, and whether exactly as much was run as configured."""
    fin = [x for x in episodes if x["finished"]]
    n = p["n"]
    if not p["envs"]:
        if p["by_steps"]:
            obs.require(steps == n, lambda: "ran %d steps instead of %d" % (steps, n))
            use = fin or episodes[:1]
        else:
            obs.require(len(fin) == n, lambda: "ran %d episodes instead of %d" % (len(fin), n))
            use = fin
        return use
    pre = []
    for x in episodes:
        if not x["finished"]:
            break
        pre.append(x)
    rest = episodes[len(pre)]["len"] if len(pre) < len(episodes) else 0
    if not p["by_steps"]:
        obs.require(len(pre) >= n, lambda: "stopped after %d finished episodes of %d" % (len(pre), n))
        return pre[:n]
    tot, use = 0, []
    for x in pre:
        tot += x["len"]
        if tot > n:
            break
        use.append(x)
    obs.require(tot >= n or tot + rest >= n, lambda: "stopped after %d of %d steps" % (tot + rest, n))
    if not pre:
        return episodes[:1]
    return use


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def check(p, obs):
    import pfrl
    from pfrl.experiments import evaluator as E

    log = L.Log()
    N = max(1, p["envs"])
    es = [CloseEnv(log, p["prog"] + 17 * i, i, p["p_done"], p["p_reset"], p["rewards"], fixed=p["fixed"], stats=p["stats"])
          for i in range(N)]
    env = L.VecEnv(es) if p["envs"] else es[0]
    env_stats = p["stats"] and not p["envs"]
    agent = L.RecAgent(log, False)
    out = obs.tmpdir()
    hook_calls = []

    class H(pfrl.experiments.EvaluationHook):
        support_train_agent = support_train_agent_batch = support_train_agent_async = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            hook_calls.append((env, agent, evaluator, step, dict(eval_stats), list(agent_stats), list(env_stats)))

    ns, ne = (p["n"], None) if p["by_steps"] else (None, p["n"])
    kw = dict(n_steps=ns, n_episodes=ne, eval_interval=p["interval"], outdir=out, max_episode_len=p["max_len"],
              step_offset=p["off"], evaluation_hooks=[H() for _ in range(p["hooks"])],
              save_best_so_far_agent=p["save_best"])
    if p["asyn"]:
        ev = E.AsyncEvaluator(**kw)
        call = lambda t, e: ev.evaluate_if_necessary(t=t, episodes=e, env=env, agent=agent)  # noqa
    else:
        ev = E.Evaluator(agent, env, **kw)
        call = lambda t, e: ev.evaluate_if_necessary(t=t, episodes=e)  # noqa
    rng = np.random.RandomState(p["prog"] + 5)
    exc = None
    if p["fault"]:
        exc = dict(Boom=L.Boom, KeyboardInterrupt=KeyboardInterrupt)[p["fault"][2]]("injected")
        log.fault = (p["fault"][0], p["fault"][1], exc)
    agent.training = not p["outer"]
    t, prev = p["off"], p["off"] - p["off"] % p["interval"]
    rows, best, best_v, done_evals, kinds = [], None, set(), 0, set()
    episodes_arg = 0
    for _ in range(4000):
        if done_evals >= p["evals"]:
            break
        jump = int(rng.choice([0, 1, 1, 2, p["interval"], p["interval"] * 3 + 1]))
        t += jump
        episodes_arg += int(rng.randint(3))
        agent.version += 1
        start = len(log.ev)
        for e_ in es:
            if e_.ended is False:
                e_.ended = True
        nh = len(hook_calls)
        try:
            score = call(t, episodes_arg)
        except BaseException as x:  # noqa
            if x is not exc:
                raise
            obs.require(agent.training == (not p["outer"]), "agent left in another mode after a failed evaluation")
            seg = [e for e in log.ev[start:] if e["op"] != "fault"]
            trace(seg, p, obs, terminated=False)
            obs.require(best is None or not p["save_best"] or read(out) in best_v, "failed evaluation replaced the best agent")
            obs.n("failed_evaluations")
            obs.sig("fault", p["fault"][0], N, p["asyn"])
            return
        obs.require(agent.training == (not p["outer"]), "agent left in another mode after an evaluation")
        seg = log.ev[start:]
        ran = any(e["op"] == "step" for e in seg)
        due = t >= prev + p["interval"]
        obs.require(ran == due, lambda: "t=%d, last interval began at %d (interval %d): evaluated=%s" % (t, prev, p["interval"], ran))
        if not due:
            obs.require(score is None, "a score without an evaluation")
            obs.require(len(hook_calls) == nh, "evaluation hook called without an evaluation")
            continue
        prev = prev + p["interval"] if p["asyn"] else t - t % p["interval"]
        eps, steps = trace(seg, p, obs)
        use = expected(eps, steps, p, obs)
        rets, lens = [x["r"] for x in use], [x["len"] for x in use]
        obs.require(rets, "no episode counted")
        st = stats_of(rets, lens)
        kinds.update((x["finished"], x["len"]) for x in use)
        obs.require(close(score, st["mean"]), lambda: "score %s, true mean %s of %s" % (score, st["mean"], rets[:8]))
        rows.append((t, episodes_arg, st, agent.version, es[0].since if env_stats else None, agent.n))
        if env_stats:
            n_steps = sum(1 for e in seg if e["op"] == "step")
            obs.require(es[0].since == n_steps, lambda: "environment statistics cover %d steps, the evaluation had %d" % (es[0].since, n_steps))
        done_evals += 1
        obs.n("evaluations_checked")
        obs.n("episodes_checked", len(use))
        if best is None or st["mean"] > best + 1e-12:
            best, best_v = st["mean"], {agent.version}
        elif abs(st["mean"] - best) <= 1e-12:
            best_v.add(agent.version)
        obs.require(close(ev.max_score, best), lambda: "best score %r, true %r" % (ev.max_score, best))
        bdir = os.path.join(out, "best")
        if p["save_best"]:
            v = read(out)
            obs.require(v in best_v, lambda: "the saved best agent is version %s, the best scoring were %s (score %r)" % (v, best_v, best))
        else:
            obs.require(not os.path.exists(bdir), "best agent saved although not asked to")
        # hooks
        new = hook_calls[nh:]
        obs.require(len(new) == p["hooks"], lambda: "%d calls of %d evaluation hooks" % (len(new), p["hooks"]))
        for c in new:
            obs.require(c[0] is env and c[1] is agent and c[2] is ev and c[3] == t, "evaluation hook got other arguments")
            for k, v in st.items():
                obs.require(close(float(c[4][k]), v), lambda: "hook told %s=%s, true %s" % (k, c[4][k], v))
            obs.require(c[5][0] == ("version", agent.version), "hook told other agent statistics")
    # score table
    with open(os.path.join(out, "scores.txt")) as f:
        lines = [x.rstrip("\n").split("\t") for x in f]
    head = ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min", "version", "n"]
    head += ["env_steps_since_clear"] if env_stats else []
    if rows or not p["asyn"]:
        obs.require(lines and lines[0] == head, lambda: "header %s" % lines[:1])
    obs.require(len(lines) == 1 + len(rows) or not rows, lambda: "%d lines for %d evaluations" % (len(lines) - 1, len(rows)))
    el = -1.0
    for ln, (t_, e_, st, v, since, n_act) in zip(lines[1:], rows):
        row = dict(zip(lines[0], ln))
        obs.require(int(row["steps"]) == t_ and int(row["episodes"]) == e_, lambda: "line %s for step %d" % (ln, t_))
        for k in ("mean", "median", "stdev", "max", "min"):
            obs.require(close(float(row[k]), st[k]), lambda: "table says %s=%s, true %s" % (k, row[k], st[k]))
        obs.require(float(row["elapsed"]) >= el, "elapsed time decreases")
        el = float(row["elapsed"])
        obs.require(int(row["version"]) == v and int(row["n"]) == n_act, "other agent statistics in the table")
        if since is not None:
            obs.require(int(row["env_steps_since_clear"]) == since, "environment statistics not of this evaluation")
        obs.n("table_lines")
    obs.sig(p["asyn"], p["envs"], p["by_steps"], p["n"], p["max_len"], len(kinds), p["interval"], p["rewards"])


def read(out):
    try:
        with open(os.path.join(out, "best", "agent.json")) as f:
            return json.load(f)["version"]
    except FileNotFoundError:
        return None


def stats_of(r, ln):
    d = {}
    for pre, x in (("", r), ("length_", ln)):
        x = [float(v) for v in x]
        d[pre + "mean"] = statistics.fmean(x)
        d[pre + "median"] = statistics.median(x)
        d[pre + "stdev"] = float(np.std(x, ddof=1)) if len(x) > 1 else 0.0
        d[pre + "max"] = max(x)
        d[pre + "min"] = min(x)
    d["episodes"] = len(r)
    return d


# -- plain functions -----------------------------------------------------------

def check_plain(p, obs):
    from pfrl.experiments import evaluator as E

    log = L.Log()
    N = max(1, p["envs"])
    es = [CloseEnv(log, p["prog"] + 17 * i, i, p["p_done"], p["p_reset"], p["rewards"], fixed=p["fixed"]) for i in range(N)]
    env = L.VecEnv(es) if p["envs"] else es[0]
    agent = L.RecAgent(log, False)
    ns, ne = (p["n"], None) if p["by_steps"] else (None, p["n"])
    if p["prog"] % 2:
        res = E.eval_performance(env, agent, ns, ne, max_episode_len=p["max_len"])
    else:
        f = E.batch_run_evaluation_episodes if p["envs"] else E.run_evaluation_episodes
        scores, lens = f(env, agent, ns, ne, max_episode_len=p["max_len"])
    obs.require(agent.training, "agent left in evaluation mode")
    eps, steps = trace(log.ev, p, obs)
    use = expected(eps, steps, p, obs)
    rets, ln = [x["r"] for x in use], [x["len"] for x in use]
    if p["prog"] % 2:
        for k, v in stats_of(rets, ln).items():
            obs.require(close(float(res[k]), v), lambda: "%s=%s, true %s" % (k, res[k], v))
    else:
        obs.require(len(scores) == len(rets) and all(close(a, b) for a, b in zip(scores, rets)),
                    lambda: "returns %s, true %s" % (scores[:6], rets[:6]))
        obs.require(list(lens) == ln, "episode lengths differ")
    obs.n("plain_evaluations")
    obs.sig(p["envs"], p["by_steps"], p["n"], p["max_len"], len(use))


KINDS = [
    Kind("history", gen, check, 2400, 30000),
    Kind("faults", gen_fault, check, 800, 8000),
    Kind("plain", gen, check_plain, 1600, 30000),
]
