"""C34: agents report statistics that are what their names say."""
import collections

import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V
from checks import c10, c11, c12, c30

LEVEL = "exploration"
RULE = (
    "Each case trains one agent (12 value-based variants, DDPG, TD3, SAC, PPO, TRPO, "
    "A2C, A3C, REINFORCE, ACER) on scripted experience long enough to overflow the "
    "windows of its statistics, follows losses, values, entropies, KL divergences and "
    "step sizes with the float64 references of C10-C12 and C30, and compares every "
    "entry of get_statistics() after every step and around evaluations. "
    "distinct_nontrivial counts distinct (agent, options, statistic, window filled?)."
)
ASSUMPTIONS = ["relative tolerance 2e-3 on statistics (float32 code against float64 reference)",
               "a case stops where the reference is not comparable (ties, diverged training)"]


def same(a, b, tol=2e-3, atol=2e-4):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    return abs(a - b) <= tol * abs(b) + atol


class Means:
    """Shadow statistics: windows of values, counters, moving averages."""

    def __init__(self, p, obs):
        self.p, self.obs = p, obs
        self.win, self.val, self.tol = {}, {}, {}
        self.rng = np.random.RandomState(p["prog"] % 2**31)
        self.recurrent = bool(p.get("recurrent")) or p.get("kind") == "rec"

    def window(self, **sizes):
        for k, n in sizes.items():
            self.win[k] = collections.deque(maxlen=n)

    def ema(self, k, decay, x):
        for d, y in ((self.val, x), (self.tol, 2e-3 * abs(x) + 1e-4)):
            d[k] = d.get(k, 0.0) + (1 - decay) * (y - d.get(k, 0.0))

    def expected(self):
        w = dict(self.val)
        for k, d in self.win.items():
            w[k] = float(np.mean(d)) if d else float("nan")
        return w

    def compare(self, ag, skip=()):
        p, obs = self.p, self.obs
        got = collections.OrderedDict(ag.get_statistics())
        want = self.expected()
        for k, x in want.items():
            if k in skip:
                continue
            obs.require(k in got, lambda: "no statistic {}".format(k))
            obs.require(same(got[k], x) if k not in self.tol else same(got[k], x, 0.0, self.tol[k] + 1e-12), lambda: "{} reports {} = {} instead of {}".format(
                p["name"], k, got[k], x))
            full = k in self.win and len(self.win[k]) == self.win[k].maxlen
            obs.sig(p["name"], k, full, self.recurrent, np.isnan(x))
            obs.n("statistics_compared")
        return got

    def rest(self, ag):
        """Evaluations leave the statistics alone."""
        if self.rng.rand() > 0.1:
            return
        a = collections.OrderedDict(ag.get_statistics())
        with ag.eval_mode():
            for k in range(2):
                o = self.rng.uniform(-1, 1, V.OBS).astype(np.float32)
                if hasattr(ag, "batch_act"):
                    ag.batch_act([o])
                    ag.batch_observe([o], [1.0], [False], [k == 1])
                else:
                    ag.act(o)
                    ag.observe(o, 1.0, False, k == 1)
        b = collections.OrderedDict(ag.get_statistics())
        for k in a:
            self.obs.require(same(a[k], b[k], 0.0, 0.0), lambda: "an evaluation changed {} from {} to {}".format(k, a[k], b[k]))
        self.obs.n("evaluations_interleaved")


# ------------------------------------------------------------- value based
def gen_value(rng, tier):
    p = c10.gen(rng, tier)
    long = bool(rng.rand() < 0.4)
    p.update(batch=8 if long else int(rng.choice([1, 3, 5])), updates=140 if long else 15, lr=0.003, max_steps=700,
             n_step=int(rng.choice([1, 2])), scale=float(rng.choice([0.3, 1.0])))
    if long:
        p.update(recurrent=False)
    return p


class ValueWatch(Means):
    def __init__(self, p, obs):
        super().__init__(p, obs)
        self.window(average_q=1000, average_loss=100)
        self.val["n_updates"] = 0

    def __call__(self, ag, steps, facts):
        for loss, qs in facts:
            self.win["average_loss"].append(loss)
            self.win["average_q"].extend(qs)
            self.val["n_updates"] += 1
        self.val["cumulative_steps"] = steps
        self.val["rlen"] = len(ag.replay_buffer)
        self.compare(ag)
        self.rest(ag)


def check_value(p, obs):
    c10.check(p, obs, ValueWatch(p, obs))


# ------------------------------------------------- deterministic / SAC critics
def gen_critic(rng, tier):
    p = c11.gen(rng, tier)
    long = bool(rng.rand() < 0.5)
    p.update(batch=9 if long else int(rng.choice([1, 3, 5])), updates=125 if long else 15, lr=0.003, max_steps=500,
             scale=float(rng.choice([0.3, 1.0])))
    return p


class CriticWatch(Means):
    def __init__(self, p, obs):
        super().__init__(p, obs)
        if p["name"] == "DDPG":
            self.window(average_q=1000, average_actor_loss=100, average_critic_loss=100)
            self.val["n_updates"] = 0
        else:
            self.window(average_q1=1000, average_q2=1000, average_q_func1_loss=100, average_q_func2_loss=100)
            if p["name"] == "TD3":
                self.window(average_policy_loss=100)
                self.val.update(policy_n_updates=0, q_func_n_updates=0)
            else:
                self.window(average_entropy=1000)
                self.val.update(n_updates=0, temperature=p["temp0"])

    def __call__(self, ag, facts):
        w, v, name = self.win, self.val, self.p["name"]
        for f in facts:
            if name == "DDPG":
                w["average_q"].extend(f["pi"])
                w["average_actor_loss"].append(f["pi_loss"])
                w["average_critic_loss"].append(f["q1_loss"])
                v["n_updates"] += 1
                continue
            for k in "12":
                w["average_q" + k].extend(f["q" + k])
                w["average_q_func%s_loss" % k].append(f["q%s_loss" % k])
            if name == "TD3":
                v["q_func_n_updates"] += 1
                if "pi_loss" in f:
                    v["policy_n_updates"] += 1
                    w["average_policy_loss"].append(f["pi_loss"])
            else:
                v["n_updates"] += 1
                w["average_entropy"].extend(f["entropy"])
                v["temperature"] = f["temperature"]
        self.compare(ag)
        self.rest(ag)


def check_critic(p, obs):
    c11.check(p, obs, CriticWatch(p, obs))


# ------------------------------------------------------------------ PPO, TRPO
def gen_batch(rng, tier):
    p = c12.gen_batch(rng, tier)
    default = bool(rng.rand() < 0.25)
    w = lambda *c: int(rng.choice(c))
    p["windows"] = {}
    if not default:
        p["windows"] = dict(value_stats_window=w(1, 7, 40), entropy_stats_window=w(2, 9, 50))
        if p["name"] == "PPO":
            p["windows"].update(value_loss_stats_window=w(1, 5, 12), policy_loss_stats_window=w(2, 4, 14))
        else:
            p["windows"].update(kl_stats_window=w(1, 3), policy_step_size_stats_window=w(2, 4))
    p.update(updates=8, max_steps=300)
    return p


class BatchWatch(Means):
    def __init__(self, p, obs):
        super().__init__(p, obs)
        g = p["windows"].get
        self.window(average_value=g("value_stats_window", 1000), average_entropy=g("entropy_stats_window", 1000))
        if p["name"] == "PPO":
            self.window(average_value_loss=g("value_loss_stats_window", 100),
                        average_policy_loss=g("policy_loss_stats_window", 100))
            self.val["n_updates"] = 0
        else:
            self.window(average_kl=g("kl_stats_window", 100),
                        average_policy_step_size=g("policy_step_size_stats_window", 100))
        self.val["explained_variance"] = float("nan")

    def __call__(self, ag, acted, fact):
        w = self.win
        w["average_value"].extend(v for v, _ in acted)
        w["average_entropy"].extend(e for _, e in acted)
        skip = ()
        if fact is not None:
            vt, v = np.array(fact["vt"]), np.array(fact["v"])
            self.val["explained_variance"] = 1 - np.var(vt - v) / np.var(vt) if np.var(vt) > 0 else float("nan")
            if np.var(vt) < 1e-3 * (1 + np.mean(vt ** 2)):
                self.val["explained_variance"] = None
            if self.p["name"] == "PPO":
                self.val["n_updates"] += len(fact["losses"])
                w["average_value_loss"].extend(a for a, _ in fact["losses"])
                w["average_policy_loss"].extend(b for _, b in fact["losses"])
            else:
                size, kl = fact["trpo"]
                w["average_policy_step_size"].append(size)
                if kl is not None:
                    w["average_kl"].append(kl)
        if self.val["explained_variance"] is None:
            skip = ("explained_variance",)  # ill-conditioned
        self.compare(ag, skip)
        if self.recurrent:
            return  # the evaluation batch size must not vary
        self.rest(ag)


def check_batch(p, obs):
    c12.check_batch(p, obs, BatchWatch(p, obs))


# ------------------------------------------------------ moving averages
def decay(rng):
    return float(rng.choice([0.0, 0.5, 0.9, 0.999]))


def gen_ema(rng, tier):
    k = rng.randint(4)
    if k == 0:
        p = c12.gen_a2c(rng, tier)
        p["decays"] = dict(average_actor_loss_decay=decay(rng), average_entropy_decay=decay(rng),
                           average_value_decay=decay(rng))
    elif k in (1, 2):
        p = c12.gen_single(rng, tier)
        p["decays"] = dict(average_entropy_decay=decay(rng))
        if p["name"] == "A3C":
            p["decays"]["average_value_decay"] = decay(rng)
    else:
        p = c30.gen(rng, tier)
        p["name"] = "ACER"
        p["decays"] = dict(average_value_decay=decay(rng), average_entropy_decay=decay(rng),
                           average_kl_decay=decay(rng))
        p["t_max"] = int(rng.choice([1, 1, p["t_max"]]))
    if rng.rand() < 0.25:
        p["decays"] = {}
    return p


class EmaWatch(Means):
    def __init__(self, p, obs):
        super().__init__(p, obs)
        self.kls = []
        self.kl = p["name"] == "ACER" and p["t_max"] == 1 and p["kind"] != "cont" and p["trust"]

    def __call__(self, ag, fact, kls=None):
        d = lambda k: self.p["decays"].get("average_%s_decay" % k, 0.999)
        if self.p["name"] == "A2C":
            if fact is not None:
                self.ema("average_actor", d("actor_loss"), fact["actor"])
                self.ema("average_value", d("value"), fact["value"])
                self.ema("average_entropy", d("entropy"), fact["entropy"])
        else:
            for k, x in fact.items():
                self.ema("average_" + k, d(k), x)
        if self.kl:
            for x in self.kls:
                self.ema("average_kl", d("kl"), x)
        self.kls = kls or []
        if kls is not None:
            self.kls = kls
        if not self.val:
            for k, x in ag.get_statistics():
                self.obs.require(float(x) == 0.0, lambda: "{} starts at {}".format(k, x))
        self.compare(ag)


def check_ema(p, obs):
    w = EmaWatch(p, obs)
    if p["name"] == "A2C":
        c12.check_a2c(p, obs, w)
    elif p["name"] == "ACER":
        try:
            c30.run_train(p, obs, w)
        except c30.Diverged:
            obs.n("diverged")
    else:
        c12.check_single(p, obs, w)


KINDS = [
    Kind("value", gen_value, check_value, 80, 1500),
    Kind("critic", gen_critic, check_critic, 60, 1500),
    Kind("batch", gen_batch, check_batch, 60, 1500),
    Kind("ema", gen_ema, check_ema, 120, 2500),
]
