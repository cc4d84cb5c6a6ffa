"""Seeded runs of every agent reduced to digests; `python -m vlib.repro FILE` runs a list of them."""
import hashlib
import json
import os
import random
import sys

import numpy as np
import torch


def dig(*x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def run_agent(p):
    """One training run after set_random_seed; returns digests of what happened."""
    import pfrl
    from checks import c14
    from vlib import agents as V

    pfrl.utils.set_random_seed(p["seed"])
    h = c14.build(dict(p, prog=None))
    s = V.Stream(p["envs"], p["prog"] % 9973, 0.1, 0.1)
    acts, stats = [], []
    samples = []
    if h.buf is not None:
        for op in ("sample", "sample_episodes"):
            f = getattr(h.buf, op, None)
            if f is None:
                continue

            def rec(*a, _f=f, **k):
                out = _f(*a, **k)
                samples.append(dig([[(np.asarray(t["state"]).tolist(), float(t["reward"]), np.asarray(t.get("weight", 0.0)).tolist()) for t in
                                     (e if isinstance(e, (list, tuple)) else [e])] for e in (out[0] if isinstance(out, tuple) else out)]))
                return out
            setattr(h.buf, op, rec)
    for j in range(p["steps"]):
        if h.batch:
            a = h.agent.batch_act(s.obs)
        else:
            a = [h.agent.act(s.obs[0])]
        acts.append([np.asarray(x).tolist() for x in a])
        o, r, d, e = s.step()
        if h.batch:
            h.agent.batch_observe(o, r, d, e)
        else:
            h.agent.observe(o[0], r[0], d[0], e[0])
        s.begin(o, d, e)
        if j == p["steps"] // 2:
            with h.agent.eval_mode():
                for k in range(3):
                    ob = [np.full(V.OBS, 0.1 * k, np.float32) for _ in range(p["envs"])]
                    a = h.agent.batch_act(ob) if h.batch else [h.agent.act(ob[0])]
                    acts.append([np.asarray(x).tolist() for x in a])
                    z = [k == 2] * p["envs"]
                    if h.batch:
                        h.agent.batch_observe(ob, [0.0] * p["envs"], z, z)
                    else:
                        h.agent.observe(ob[0], 0.0, z[0], z[0])
        if j % 10 == 0:
            stats.append(repr(h.agent.get_statistics()))
    snap = c14.snapshot(h)
    tail = (random.random(), float(np.random.rand()), float(torch.rand(())))
    return dict(actions=dig(acts), samples=dig(samples), parameters=dig(sorted((k, v) for k, v in snap.items() if k != "statistics")),
                statistics=dig(stats), random_state=dig(tail), n_actions=len(acts), n_samples=len(samples))


def run_loop(p, outdir):
    """A whole training loop with evaluations."""
    import logging
    import pfrl
    from checks import c14
    from vlib import agents as V

    pfrl.utils.set_random_seed(p["seed"])
    h = c14.build(dict(p, prog=None, envs=1))

    class Env(pfrl.env.Env):
        action_space = observation_space = None

        def __init__(self, k):
            self.r = np.random.RandomState(k)

        def reset(self):
            self.t = 0
            self.x = self.r.uniform(-1, 1, V.OBS).astype(np.float32)
            return self.x

        def step(self, a):
            self.t += 1
            a = float(np.sum(np.asarray(a, np.float64)))
            self.x = np.tanh(self.x + 0.1 * a + 0.3 * self.r.randn(V.OBS)).astype(np.float32)
            return self.x, float(self.x.sum()), self.t >= 12, {}

        def close(self):
            pass

    env = Env(p["prog"] % 1000)
    pfrl.experiments.train_agent_with_evaluation(
        h.agent, env, steps=p["steps"], eval_n_steps=None, eval_n_episodes=2, eval_interval=20, outdir=outdir,
        eval_env=Env(7), train_max_episode_len=9, logger=logging.getLogger("x"))
    with open(os.path.join(outdir, "scores.txt")) as f:
        rows = [x.rstrip("\n").split("\t") for x in f]
    for r in rows[1:]:
        r[rows[0].index("elapsed")] = "-"
    snap = c14.snapshot(h)
    return dict(scores=dig(rows), parameters=dig(sorted((k, v) for k, v in snap.items() if k != "statistics")), rows=len(rows))


def main():
    import logging
    import tempfile
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    with open(sys.argv[1]) as f:
        d = json.load(f)
    junk = np.random.RandomState(d["junk"])
    out = []
    for i in d["order"]:
        p = d["cases"][i]
        random.random(), np.random.rand(int(junk.randint(1, 50))), torch.rand(int(junk.randint(1, 50)))
        if p["kind"] == "loop":
            out.append((i, run_loop(p, tempfile.mkdtemp(dir=d["scratch"]))))
        else:
            out.append((i, run_agent(p)))
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
