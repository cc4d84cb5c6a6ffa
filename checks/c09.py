"""C09: update and target synchronisation schedule of off-policy agents."""
import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V
from vlib import rb

LEVEL = "exploration"
RULE = (
    "Each case configures one off-policy agent (value-based family incl. "
    "recurrent and prioritized, DDPG, TD3, SAC) with random start size, update "
    "interval, updates per interval, batch size, target interval/method, policy "
    "delay and 1-4 environments, drives it with scripted experience and records "
    "appends, samples, optimizer steps and parameter snapshots; an automaton of "
    "the schedule is run in lock step. distinct_nontrivial counts distinct "
    "(agent, configuration class, environments) that reached an update or a "
    "target synchronisation."
)

NAMES = ["DQN", "DQN", "DoubleDQN", "PAL", "DPP", "CategoricalDQN", "IQN", "DDPG", "DDPG", "TD3",
         "TD3", "SAC", "SAC"]


def gen(rng, tier):
    name = NAMES[rng.randint(len(NAMES))]
    rec = bool(name in V.RECURRENT_OK and rng.rand() < 0.25)
    batch = int(rng.choice([1, 2, 3, 5, 8]))
    ui = int(rng.choice([1, 1, 2, 3, 4, 7]))
    return dict(
        name=name, recurrent=rec, batch=batch,
        replay_start=int(batch + rng.choice([0, 1, 5, 20])),
        update_interval=ui,
        n_times=int(rng.choice([1, 1, 2, 3])),
        target_interval=int(ui * rng.choice([1, 2, 3, 5, 11])),
        method=str(rng.choice(["hard", "soft"])),
        tau=float(rng.choice([0.01, 0.3, 1.0])),
        delay=int(rng.choice([1, 2, 3])),
        envs=int(rng.choice([1, 1, 2, 3, 4, 9])),
        n_step=int(rng.choice([1, 1, 2, 3])),
        capacity=[None, 40, 200][rng.randint(3)],
        prioritized=bool(name in V.VALUE_AGENTS and not rec and rng.rand() < 0.25),
        ep_len=[None, 1, 3][rng.randint(3)],
        steps=int(rng.choice([25, 60, 110])),
        p_done=float(rng.choice([0.0, 0.1, 0.3])),
        p_reset=float(rng.choice([0.0, 0.1])),
        max_grad=[None, 0.5][rng.randint(2)],
        p_eval=float(rng.choice([0.0, 0.05])),
        prog=int(rng.randint(2**31)),
    )


def vec(*mods):
    out = []
    for m in mods:
        for k, v in sorted(m.state_dict().items()):
            out.append(v.detach().double().reshape(-1).clone())
    return torch.cat(out)


def _close(a, b):
    return bool(torch.allclose(a, b, rtol=1e-5, atol=1e-7))


def _buffer(p, log):
    from pfrl import replay_buffers as R

    if p["recurrent"]:
        base, args = R.EpisodicReplayBuffer, dict(capacity=p["capacity"])
    elif p["prioritized"]:
        base, args = R.PrioritizedReplayBuffer, dict(
            capacity=p["capacity"], num_steps=p["n_step"], betasteps=50)
    else:
        base, args = R.ReplayBuffer, dict(capacity=p["capacity"], num_steps=p["n_step"])

    class Rec(base):
        def append(self, *a, **k):
            r = super().append(*a, **k)
            log.append(("append",))
            return r

        def sample(self, n, *a, **k):
            r = super().sample(n, *a, **k)
            log.append(("sample", len(r), [x[0]["state"] for x in r]))
            return r

        def sample_episodes(self, n, max_len=None):
            r = super().sample_episodes(n, max_len)
            log.append(("sample", len(r), [t["state"] for x in r for t in x], max(len(x) for x in r)))
            return r

        if p["prioritized"]:

            def update_errors(self, e):
                r = super().update_errors(e)
                log.append(("errors", len(e)))
                return r

    return Rec(**args)


def check(p, obs):
    name = p["name"]
    log = []
    if p["recurrent"]:
        # whole episodes are stored; the start size is reached later
        p = dict(p, capacity=None)
    if p["capacity"] is not None and p["capacity"] < p["replay_start"]:
        p = dict(p, capacity=None)
    extra = {}
    if name in V.VALUE_AGENTS or name == "DDPG":
        extra.update(target_update_method=p["method"], soft_update_tau=p["tau"])
    else:
        extra.update(soft_update_tau=p["tau"])
    if name == "TD3":
        extra.update(policy_update_delay=p["delay"])
    if name != "DDPG":
        extra.update(max_grad_norm=p["max_grad"])
    if name == "DQN" and p["recurrent"]:
        extra.update(episodic_update_len=p["ep_len"])
    h = V.make(name, seed=p["prog"] % 1000, buffer=_buffer(p, log), recurrent=p["recurrent"],
               batch=p["batch"], replay_start=p["replay_start"], update_interval=p["update_interval"],
               n_times=p["n_times"], target_interval=p["target_interval"], opt="sgd", lr=0.03,
               extra=extra)
    ag = h.agent
    n_times = p["n_times"] if name != "SAC" else 1
    if name in V.VALUE_AGENTS:
        comps = {"q": (ag.optimizer, [h.models[0]])}
        targets = lambda: vec(ag.target_model)
        online = lambda: vec(ag.model)
    elif name == "DDPG":
        comps = {"pi": (ag.actor_optimizer, [h.models[0]]), "q": (ag.critic_optimizer, [h.models[1]])}
        targets = lambda: vec(ag.target_model)
        online = lambda: vec(ag.model)
    elif name == "TD3":
        comps = {"pi": (ag.policy_optimizer, [h.models[0]]), "q1": (ag.q_func1_optimizer, [h.models[1]]),
                 "q2": (ag.q_func2_optimizer, [h.models[2]])}
        targets = lambda: vec(ag.target_policy, ag.target_q_func1, ag.target_q_func2)
        online = lambda: vec(*h.models)
    else:
        comps = {"pi": (ag.policy_optimizer, [h.models[0]]), "q1": (ag.q_func1_optimizer, [h.models[1]]),
                 "q2": (ag.q_func2_optimizer, [h.models[2]]), "T": (ag.temperature_optimizer, [])}
        targets = lambda: vec(ag.target_q_func1, ag.target_q_func2)
        online = lambda: vec(*h.models[1:])
    everything = lambda: vec(*h.models)
    for c, (o, _) in comps.items():
        o.register_step_post_hook(lambda opt, a, k, c=c: log.append(("step", c, online())))
    # what the online network is trained on
    qnet = h.models[0] if name in V.VALUE_AGENTS else h.models[1]

    def pre(mod, args):
        if torch.is_grad_enabled():
            x = args[0]
            if isinstance(x, tuple) and not isinstance(x, torch.nn.utils.rnn.PackedSequence):
                x = x[0]
            if isinstance(x, torch.nn.utils.rnn.PackedSequence):
                x = x.data
            log.append(("fwd", x.detach().numpy().copy()))

    qnet.register_forward_pre_hook(pre)
    obs.require(_close(targets(), online()), "target network differs from the online network initially")

    rng = np.random.RandomState(p["prog"])
    s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"])
    E = p["envs"]
    model = None if p["recurrent"] else rb.NStepModel(p["n_step"], p["capacity"])
    cur, eps_lens = [0] * E, []
    t = 0
    n_upd = 0
    n_sync = 0

    def held():
        if p["recurrent"]:
            return sum(eps_lens), len(eps_lens)
        return len(model.contents()), None

    for step in range(p["steps"]):
        if rng.rand() < p["p_eval"]:
            tv, ov = targets(), everything()
            del log[:]
            with ag.eval_mode():
                es = V.Stream(E, int(rng.randint(2**31)), 0.3, 0.3)
                for j in range(p["update_interval"] + 1):
                    ag.batch_act(es.obs)
                    o, r, d, e = es.step()
                    ag.batch_observe(o, r, d, [True] * E)
                    es.begin(o, d, [True] * E)
            obs.require(not [x for x in log if x[0] in ("step", "sample", "append")]
                        and torch.equal(targets(), tv) and torch.equal(everything(), ov),
                        "the agent learned during evaluation")
        ag.batch_act(s.obs)
        nobs, rew, done, reset = s.step()
        t0v, o0v, e0v = targets(), online(), everything()
        del log[:]
        ag.batch_observe(nobs, rew, done, reset)
        ev = list(log)
        # ---- the schedule, one environment at a time
        want_updates = []  # per environment step: number of updates
        syncs = []  # (updates done before, updates done after this step)
        for i in range(E):
            t += 1
            if p["recurrent"]:
                cur[i] += 1
                if done[i] or reset[i]:
                    eps_lens.append(cur[i])
                    cur[i] = 0
            else:
                model.append(i, dict(is_state_terminal=done[i], i=t))
                if done[i] or reset[i]:
                    model.end(i)
            size, neps = held()
            go = size >= p["replay_start"] and t % p["update_interval"] == 0
            if p["recurrent"]:
                go = go and neps >= p["batch"]
            before = sum(want_updates)
            want_updates.append(n_times if go else 0)
            if name not in ("TD3", "SAC") and t % p["target_interval"] == 0:
                syncs.append((before, sum(want_updates)))
        # ---- sequence of appends and updates
        seq = [x[0] if x[0] == "append" else "update" for x in ev if x[0] in ("append", "sample")]
        want = []
        for u in want_updates:
            want += ["append"] + ["update"] * u
        obs.require(seq == want, lambda: "step {} (t={}): {} expected {}".format(step, t, seq, want))
        # ---- inside each update
        ups, k = [], None
        for x in ev:
            if x[0] == "sample":
                ups.append([])
            if ups and x[0] != "append":
                ups[-1].append(x)
        snaps = [o0v]
        tgt = t0v
        for u in ups:
            n_upd += 1
            sm = u[0]
            obs.require(sm[1] == p["batch"], lambda: "update on {} samples instead of {}".format(sm[1], p["batch"]))
            if p["recurrent"]:
                L = p["ep_len"] if name == "DQN" else 4
                obs.require(L is None or sm[3] <= L, "update on longer sequences than configured")
            steps = {}
            for x in u:
                if x[0] == "step":
                    steps[x[1]] = steps.get(x[1], 0) + 1
            exp = {c: 1 for c in comps}
            if name == "TD3" and n_upd % p["delay"] != 0:
                exp.pop("pi")
            obs.require(steps == exp, lambda: "update {}: optimizer steps {} expected {}".format(n_upd, steps, exp))
            if p["prioritized"]:
                er = [x[1] for x in u if x[0] == "errors"]
                obs.require(er == [p["batch"]], lambda: "errors of {} samples written back, expected one write of {}".format(er, p["batch"]))
            fw = [x[1] for x in u if x[0] == "fwd"]
            key = lambda a: sorted(map(tuple, np.asarray(a, dtype=np.float32).reshape(len(a), -1).tolist()))
            ws = key(np.array(sm[2]))
            obs.require(any(key(f) == ws for f in fw if len(f) == len(sm[2])),
                        "the update was not computed on the sampled states")
            last = [x[2] for x in u if x[0] == "step"][-1]
            snaps.append(last)
            if name == "SAC" or (name == "TD3" and n_upd % p["delay"] == 0):
                tgt = (1 - p["tau"]) * tgt + p["tau"] * last
                n_sync += 1
        # ---- online parameters
        if not ups:
            obs.require(torch.equal(everything(), e0v), "online parameters changed without an update")
        else:
            obs.require(not torch.equal(online(), o0v), "updates left the online parameters unchanged")
        # ---- target parameters
        if name in ("TD3", "SAC"):
            if torch.equal(tgt, t0v):
                obs.require(torch.equal(targets(), t0v), "target parameters changed without a synchronisation")
            else:
                obs.require(_close(targets(), tgt), lambda: "step {}: soft-updated target differs by {:.3g}".format(
                    step, float((targets() - tgt).abs().max())))
        elif not syncs:
            obs.require(torch.equal(targets(), t0v), lambda: "target changed at t={} although the interval is {}".format(t, p["target_interval"]))
        else:
            ok, cands = False, []
            for which in (0, 1):
                x = t0v
                for sy in syncs:
                    src = snaps[sy[which]]
                    x = src if p["method"] == "hard" else (1 - p["tau"]) * x + p["tau"] * src
                ok = ok or _close(targets(), x)
                cands.append(x)
            obs.require(ok, lambda: "t={}: {} synchronisation due, target off by {:.3g}".format(
                t, p["method"], min(float((targets() - x).abs().max()) for x in cands)))
            n_sync += len(syncs)
        s.begin(nobs, done, reset)
        obs.n("environment_steps", E)
    obs.n("updates", n_upd)
    obs.n("target_synchronisations", n_sync)
    if n_upd or n_sync:
        obs.sig(name, p["recurrent"], p["prioritized"], E, p["update_interval"], n_times, p["method"],
                p["target_interval"], p["delay"] if name == "TD3" else 0, n_upd > 0)
    obs.sample = dict(updates=n_upd, syncs=n_sync)


KINDS = [Kind("schedule", gen, check, 240, 4000)]
