"""C28: seeded runs are reproducible."""
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np
import torch

from vlib.core import Kind, REPO, VERIF
from vlib import agents as V
from vlib import loops as L
from vlib import repro

LEVEL = "exploration"
RULE = (
    "same: every agent and configuration is trained twice with the same seed in one process with "
    "unrelated random draws and other agents in between. fresh: groups of runs are repeated in a "
    "fresh interpreter with another string-hash seed and in another order. Digests of all actions, "
    "sampled minibatches, statistics, parameters, optimizer states and the final random state must "
    "agree, and differ for another seed. loop: complete training loops with evaluations, comparing "
    "scores.txt. seeds: random draws in workers of train_agent_async and seeds received by the "
    "environments of vector environments. distinct_nontrivial counts distinct configurations."
)


def gen_case(rng, kind="agent"):
    from checks import c14

    p = c14.gen(rng, "quick")
    p["seed"] = int(rng.randint(2**31 if rng.rand() < 0.5 else 2**32 - 1, dtype=np.int64))
    p["steps"] = 45
    p["kind"] = kind
    if kind == "loop":
        p["name"] = str(rng.choice(["DQN", "DoubleDQN", "CategoricalDQN", "IQN", "DDPG", "TD3", "SAC", "PPO", "TRPO", "A2C"]))
        p["recurrent"] = False
        p["envs"] = 1
        p["steps"] = 70
    return p


def cmp(obs, a, b, what):
    bad = [k for k in a if a[k] != b[k]]
    obs.require(not bad, lambda: "%s: %s differ" % (what, ", ".join(bad)))


def junk(rng):
    [random.random() for _ in range(int(rng.randint(1, 9)))]
    np.random.rand(int(rng.randint(1, 99)))
    torch.rand(int(rng.randint(1, 99)))
    return [str(x) for x in rng.rand(int(rng.randint(1, 50)))]


def gen_same(rng, tier):
    return dict(case=gen_case(rng), prog=int(rng.randint(2**31)))


def check_same(p, obs):
    rng = np.random.RandomState(p["prog"])
    c = p["case"]
    a = repro.run_agent(c)
    keep = [junk(rng)]
    if rng.rand() < 0.5:
        repro.run_agent(dict(c, seed=c["seed"] ^ 5, steps=15))
    keep.append(junk(rng))
    b = repro.run_agent(c)
    cmp(obs, a, b, "two runs of %s with seed %d" % (c["name"], c["seed"]))
    d = repro.run_agent(dict(c, seed=(c["seed"] + 1 + int(rng.randint(1000))) % (2**32 - 1)))
    obs.require(d["parameters"] != a["parameters"] and d["random_state"] != a["random_state"], "another seed gives the same run")
    obs.n("runs", 3)
    obs.n("actions", a["n_actions"])
    obs.n("minibatches", a["n_samples"])
    obs.sig(c["name"], c["recurrent"], c["envs"], c["prioritized"], c["n_step"], c["explorer"], c["discrete"])


def gen_fresh(rng, tier):
    n = 14
    return dict(cases=[gen_case(rng) for _ in range(n - 2)] + [gen_case(rng, "loop") for _ in range(2)], prog=int(rng.randint(2**31)))


def sub(cases, order, hashseed, junkseed, scratch):
    f, o = os.path.join(scratch, "in%s.json" % hashseed), os.path.join(scratch, "out%s.json" % hashseed)
    with open(f, "w") as h:
        json.dump(dict(cases=cases, order=order, junk=junkseed, scratch=scratch), h)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF + ":" + REPO, PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1")
    r = subprocess.run([sys.executable, "-m", "vlib.repro", f, o], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    if r.returncode != 0:
        raise RuntimeError(r.stderr.decode()[-1500:])
    with open(o) as h:
        return dict((i, d) for i, d in json.load(h))


def check_fresh(p, obs):
    rng = np.random.RandomState(p["prog"])
    d = obs.tmpdir()
    n = len(p["cases"])
    order = [int(i) for i in rng.permutation(n)]
    a = sub(p["cases"], list(range(n)), int(rng.randint(1, 2**20)), 1, d)
    b = sub(p["cases"], order, 2**20 + int(rng.randint(2**20)), 2, d)
    for i, c in enumerate(p["cases"]):
        cmp(obs, a[i], b[i], "runs of %s with seed %d in two processes" % (c["name"], c["seed"]))
        if c["kind"] == "agent" and i % 3 == 0:
            cmp(obs, a[i], repro.run_agent(c), "runs of %s with seed %d in two processes" % (c["name"], c["seed"]))
        obs.n("runs", 2)
        obs.sig(c["name"], c["recurrent"], c["envs"], c["prioritized"], c["n_step"], c["explorer"], c["discrete"])


def gen_loop(rng, tier):
    return dict(case=gen_case(rng, "loop"), prog=int(rng.randint(2**31)))


def check_loop(p, obs):
    rng = np.random.RandomState(p["prog"])
    a = repro.run_loop(p["case"], obs.tmpdir())
    junk(rng)
    b = repro.run_loop(p["case"], obs.tmpdir())
    cmp(obs, a, b, "two training loops of %s with seed %d" % (p["case"]["name"], p["case"]["seed"]))
    obs.require(a["rows"] >= 3, "too few evaluations")
    obs.n("runs", 2)
    obs.sig("loop", p["case"]["name"], p["case"]["prioritized"])


# -- seeds ------------------------------------------------------------------------

def draws():
    return [random.random(), random.randrange(10**9), float(np.random.rand()), int(np.random.randint(10**9)), float(torch.rand(())), float(torch.randn(()))]


def gen_seeds(rng, tier):
    k = str(rng.choice(["global", "async", "async", "serial", "multi"]))
    return dict(kind=k, procs=int(rng.choice([1, 2, 3, 5])), given=bool(rng.rand() < 0.7), make_draws=bool(rng.rand() < 0.6),
                seeds=[int(x) for x in rng.randint(2**32 - 2, size=5, dtype=np.int64)], prog=int(rng.randint(2**31)))


class SeedEnv:
    action_space = observation_space = spec = None

    def __init__(self, path, i):
        self.path, self.i = path, i

    def seed(self, s):
        with open(self.path, "a") as f:
            f.write("%d %r\n" % (self.i, int(s)))

    def reset(self):
        return np.zeros(2)

    def step(self, a):
        return np.zeros(2), 0.0, False, {}

    def close(self):
        pass


def check_seeds(p, obs):
    import pfrl

    rng = np.random.RandomState(p["prog"])
    P = p["procs"]
    seeds = p["seeds"][:P]
    d = obs.tmpdir()
    if p["kind"] == "global":
        per = {}
        edges = [0, 1, 2**31 - 1, 2**31, 2**32 - 1]
        for s in [int(str(s)) for s in p["seeds"] + edges + p["seeds"][::-1] + edges]:
            junk(rng)
            pfrl.utils.set_random_seed(s)
            x = draws()
            if s in per:
                obs.require(per[s] == x, lambda: "draws after seeding with %d differ: %s %s" % (s, per[s], x))
            per[s] = x
        xs = list(per.values())
        obs.require(all(len({x[j] for x in xs}) > 1 for j in range(6)), "a generator ignores the seed")
    elif p["kind"] in ("serial", "multi"):
        path = os.path.join(d, "log")
        fns = [(lambda i=i: SeedEnv(path, i)) for i in range(P)]
        v = pfrl.envs.SerialVectorEnv([f() for f in fns]) if p["kind"] == "serial" else pfrl.envs.MultiprocessVectorEnv(fns)
        try:
            v.seed(list(seeds))
            v.reset()
        finally:
            v.close()
        got = sorted(tuple(int(y) for y in x.split()) for x in open(path))
        obs.require(got == sorted(enumerate(seeds)), lambda: "environments got the seeds %s instead of %s" % (got, seeds))
    else:
        pfrl.utils.set_random_seed(int(rng.randint(2**31)))

        class Agent(pfrl.agent.AsyncAgent):
            process_idx = None
            shared_attributes = ()
            training = True

            def act(self, o):
                return 0

            def observe(self, *a):
                pass

            def save(self, dn):
                os.makedirs(dn, exist_ok=True)

            def load(self, dn):
                pass

            def get_statistics(self):
                return []

        class Env(SeedEnv):
            def __init__(self, i):
                super().__init__("", i)
                self.n = 0

            def step(self, a):
                self.n += 1
                if self.n == 1:
                    with open(os.path.join(d, "w%d" % self.i), "w") as f:
                        json.dump(draws(), f)
                return super().step(a)

        kw = dict(random_seeds=seeds) if p["given"] else {}
        parent = os.getpid()
        made = os.path.join(d, "made")
        mkagent = bool(rng.rand() < 0.5)

        def note(what, i):
            with open(made + "_%s_%d_%d" % (what, i, int(os.getpid() != parent)), "w") as f:
                json.dump(draws(), f)

        def make_env(i, test):
            note("test" if test else "train", i)
            return Env(i)

        def make_agent(i):
            note("agent", i)
            return Agent()

        def launch(**k):
            for f in os.listdir(d):
                if f.startswith("made_") or f[1:].isdigit():
                    os.remove(os.path.join(d, f))
            pfrl.experiments.train_agent_async(
                d, P, make_env, agent=None if mkagent else Agent(), make_agent=make_agent if mkagent else None,
                steps=5 * P, eval_interval=None, use_shared_memory=False, **k)
            return {f: json.load(open(os.path.join(d, f))) for f in sorted(os.listdir(d))
                    if f.endswith("_1") and f.startswith("made_") or f[1:].isdigit()}

        if p["make_draws"]:
            # whatever a worker draws while it makes its environments, agent and steps follows its seed
            one = launch(**kw)
            pfrl.utils.set_random_seed(int(rng.randint(2**31)))
            two = launch(**kw)
            bad = [f for f in one if one[f] != two.get(f)]
            obs.require(one.keys() == two.keys() and not bad, lambda: "two runs with the same seeds draw differently: %s" % bad)
            other = launch(random_seeds=[(int(s) + 1) % 2**32 for s in (seeds if p["given"] else range(P))])
            bad = [f for f in one if one[f] == other.get(f)]
            obs.require(not bad, lambda: "draws do not depend on the worker's seed: %s" % bad)
            obs.n("worker_draws", len(one))
            obs.n("seeded", P)
            obs.sig("make", P, p["given"], mkagent)
            return
        pfrl.experiments.train_agent_async(d, P, lambda i, test: Env(i), agent=Agent(), steps=5 * P, eval_interval=None, use_shared_memory=False, **kw)
        for i in range(P):
            s = seeds[i] if p["given"] else i
            pfrl.utils.set_random_seed(s)
            want = draws()
            path = os.path.join(d, "w%d" % i)
            obs.require(os.path.exists(path), "worker %d did not run" % i)
            got = json.load(open(path))
            obs.require(got == want, lambda: "worker %d draws %s, its seed %d gives %s" % (i, got, s, want))
    obs.n("seeded", P)
    obs.sig(p["kind"], P, p["given"])


KINDS = [
    Kind("same", gen_same, check_same, 130, 1500),
    Kind("fresh", gen_fresh, check_fresh, 8, 80),
    Kind("loop", gen_loop, check_loop, 24, 200),
    Kind("seeds", gen_seeds, check_seeds, 60, 500),
]
