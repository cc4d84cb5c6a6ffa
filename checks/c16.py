"""C16: saved agents load back as behaviourally identical agents."""
import os
import random

import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V
from checks import c14

LEVEL = "exploration"
RULE = (
    "Each case trains one agent of any class for a random number of steps, saves it (sometimes "
    "over an older save), checks that saving changed nothing, loads into an agent built with other "
    "random parameters (sometimes used before), compares every parameter, buffer, target network, "
    "optimizer state and normalisation statistic to the bit, then lets both evaluate and train on "
    "the same further experience from the same random state and compares all actions and the "
    "final state. Snapshots of value-based agents also restore replay memory and counters. "
    "distinct_nontrivial counts distinct (agent, recurrent, environments, optimizer, options)."
)
ASSUMPTIONS = [
    "step counters and delayed-update phase are not part of a plain save: they are aligned the way "
    "train_agent does (agent.t = step_offset) before training is continued",
    "the annealed exponent of a prioritized memory is not part of its saved contents: constant here",
]

NAMES = V.VALUE_AGENTS + V.AC_AGENTS * 3 + ["A2C", "PPO", "TRPO"] * 3 + ["A3C", "ACER", "ACERcont", "REINFORCE"] * 2
OFF = V.VALUE_AGENTS + V.AC_AGENTS


def gen(rng, tier):
    name = NAMES[rng.randint(len(NAMES))]
    return dict(
        name=name, recurrent=bool(name in V.RECURRENT_OK and rng.rand() < 0.4),
        envs=1 if name in c14.SINGLE_STEP else int(rng.choice([1, 3] if name == "TD3" else [1, 2, 3])),
        opt=str(rng.choice(["adam", "rmsprop", "momentum", "pfrl_rmsprop", "sgd"])),
        probe=bool(rng.rand() < 0.4), norm=bool(rng.rand() < 0.6), discrete=bool(rng.rand() < 0.6),
        det=bool(rng.rand() < 0.5), used=bool(rng.rand() < 0.4), old=bool(rng.rand() < 0.3),
        snapshot=bool(name in V.VALUE_AGENTS and rng.rand() < 0.5),
        rounds=int(rng.choice([0 if name != "A2C" else 1, 1, 2, 4])), prioritized=bool(rng.rand() < 0.3),
        n_step=int(rng.choice([1, 3])), soft=bool(rng.rand() < 0.5),
        backsep=bool(rng.rand() < 0.5), prog=int(rng.randint(2**31)))


def build(p, seed):
    import pfrl

    name = p["name"]
    cfg = dict(recurrent=p["recurrent"], probe=p["probe"], explorer="eps", replay_start=12, batch=5,
               target_interval=7, discrete=p["discrete"], num_envs=p["envs"], n_step=p["n_step"],
               prioritized=p["prioritized"] and name in V.VALUE_AGENTS, opt=p["opt"], lr=0.01, update_steps=2,
               betasteps=None)
    extra = {}
    if name in ("PPO", "TRPO"):
        cfg.update(batch=6, update_interval=12)
        if p["norm"]:
            extra["obs_normalizer"] = pfrl.nn.EmpiricalNormalization(V.OBS, clip_threshold=5)
    if name in c14.STOCH:
        extra["act_deterministically"] = p["det"]
    if name == "REINFORCE":
        extra["backward_separately"] = p["backsep"]
        cfg["batch"] = 2
    if name == "DDPG" and p["soft"]:
        extra.update(target_update_method="soft", soft_update_tau=0.1)
    if name in V.VALUE_AGENTS and p["soft"]:
        extra.update(target_update_method="soft", soft_update_tau=0.1)
    cfg["extra"] = extra
    return V.make(name, seed=seed, **cfg)


def reseed(s):
    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


def obits(x):
    """Optimizer state by value: torch may turn a counter into a tensor when loading."""
    if isinstance(x, torch.Tensor) and x.ndim == 0:
        x = float(x)
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return repr(float(x))
    if isinstance(x, dict):
        return tuple((str(k), obits(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0])))
    if isinstance(x, (list, tuple)):
        return tuple(obits(v) for v in x)
    return c14.bits(x)


class Driver:
    """Feeds an agent; ends so that every partial rollout has been used."""

    def __init__(self, h, p, seed):
        self.h, self.p = h, p
        self.s = V.Stream(p["envs"], seed, 0.1, 0.0 if p["name"] in ("A2C", "REINFORCE") else 0.07)
        self.done_eps = 0

    def step(self, end=False):
        h, s = self.h, self.s
        acts = h.agent.batch_act(s.obs) if h.batch else [h.agent.act(s.obs[0])]
        o, r, d, e = s.step()
        if end:
            if self.p["name"] in ("A2C", "REINFORCE"):
                d = [True] * len(d)
            else:
                e = [True] * len(e)
        self.done_eps += d[0]
        if h.batch:
            h.agent.batch_observe(o, r, d, e)
        else:
            h.agent.observe(o[0], r[0], d[0], e[0])
        s.begin(o, d, e)
        return c14.bits(np.array(acts))

    def run(self, rounds):
        """Each round is 12 environment steps (one update of the batch on-policy agents)."""
        tr = []
        n = 12 // self.p["envs"]
        for k in range(rounds):
            for j in range(n):
                tr.append(self.step(end=j == n - 1))
        if self.p["name"] == "REINFORCE":
            if self.done_eps % 2:
                tr.append(self.step(end=True))
        if self.p["name"] == "TD3" and rounds:
            # end between two delayed policy updates
            for _ in range(3):
                if dict(self.h.agent.get_statistics())["q_func_n_updates"] % 2 == 0:
                    break
                tr.append(self.step(end=True))
        return tr


def state(h):
    s = {}
    for nm, m in c14.modules(h):
        for k, v in m.state_dict().items():
            s["%s.%s" % (nm, k)] = c14.bits(v)
    for nm, o in c14.optims(h):
        s["optimizer " + nm] = obits(o.state_dict())
    return s


def evaluate(h, p, seed):
    reseed(seed)
    r = np.random.RandomState(seed % 2**31)
    out = []
    with h.agent.eval_mode():
        k = p["envs"]
        for j in range(6):
            x = [r.uniform(-1, 1, V.OBS).astype(np.float32) for _ in range(k)]
            acts = h.agent.batch_act(x) if h.batch else [h.agent.act(x[0])]
            out.append(c14.bits(np.array(acts)))
            end = j in (3, 5)
            if h.batch:
                h.agent.batch_observe(x, [0.0] * k, [False] * k, [end] * k)
            else:
                h.agent.observe(x[0], 0.0, False, end)
    return out


def check(p, obs):
    a = build(p, p["prog"] % 997)
    d = os.path.join(obs.tmpdir(), "agent")
    reseed(p["prog"])
    da = Driver(a, p, p["prog"] + 1)
    da.run(p["rounds"])
    if p["old"]:
        a.agent.save_snapshot(d) if p["snapshot"] else a.agent.save(d)
        da.run(1)
    before = c14.snapshot(a)
    if p["snapshot"]:
        a.agent.save_snapshot(d)
    else:
        a.agent.save(d)
    df = c14.diff(before, c14.snapshot(a))
    obs.require(not df, lambda: "%s: saving changed %s" % (p["name"], df[:4]))
    b = build(p, p["prog"] % 997 + 1)
    if p["used"]:
        evaluate(b, p, 5)
    if p["name"] == "A2C":
        # its very first training step draws an extra action: let both be past it
        Driver(b, p, 3).run(1)
    if p["snapshot"]:
        b.agent.load_snapshot(d)
    else:
        b.agent.load(d)
    if hasattr(b.agent, "shared_attributes"):
        V.share(b.agent)  # as asynchronous training does when it starts
    df = c14.diff(state(a), state(b))
    obs.require(not df, lambda: "%s: not restored: %s" % (p["name"], df[:5]))
    obs.n("tensors_compared", len(before))
    if p["snapshot"]:
        sa, sb = dict(a.agent.get_statistics()), dict(b.agent.get_statistics())
        for k in ("cumulative_steps", "n_updates", "rlen"):
            obs.require(sa[k] == sb[k], lambda: "snapshot: %s is %s, was %s" % (k, sb[k], sa[k]))
        obs.require(c14.contents(a) == c14.contents(b), "snapshot: replay memory differs")
        obs.require(a.agent.t == b.agent.t, "snapshot: step counter differs")
        obs.n("snapshots")
    elif a.buf is not None:
        f = os.path.join(obs.tmpdir(), "replay")
        a.buf.save(f)
        b.buf.load(f)
        if p["name"] in OFF:
            b.agent.t = a.agent.t
    for sd in (11, 12):
        obs.require(evaluate(a, p, sd) == evaluate(b, p, sd),
                    lambda: "%s: the loaded agent acts differently" % p["name"])
    obs.n("evaluations_compared", 2)
    traces = []
    for h in (a, b):
        reseed(p["prog"] + 7)
        traces.append(Driver(h, p, p["prog"] + 99).run(3))
    obs.require(traces[0] == traces[1],
                lambda: "%s: the loaded agent acts differently in continued training (step %d)" % (
                    p["name"], [x == y for x, y in zip(*traces)].index(False)))
    df = c14.diff(state(a), state(b))
    obs.require(not df, lambda: "%s: continued training differs: %s" % (p["name"], df[:5]))
    obs.n("continued_steps", len(traces[0]) * p["envs"])
    obs.sig(p["name"], p["recurrent"], p["envs"], p["opt"], p["snapshot"], p["norm"], p["used"], p["rounds"] > 0)


KINDS = [Kind("roundtrip", gen, check, 400, 5000)]
