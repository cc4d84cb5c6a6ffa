"""C07: a saved replay buffer loads back as the same buffer."""
import os

import numpy as np

from vlib.core import Kind
from vlib import rb

LEVEL = "exploration"
RULE = (
    "Random append / end / sample / error-update histories on uniform, "
    "prioritized, episodic and prioritized episodic buffers; the buffer is saved "
    "between episodes, loaded into a fresh buffer of the same configuration, and "
    "both are driven in lock step by a common continuation with common seeds "
    "(possibly through several save/load generations). distinct_nontrivial "
    "counts distinct (buffer type, capacity, n, held size bucket, evicted before, "
    "evicted after, generation) with a non-empty buffer."
)
ASSUMPTIONS = [
    "saved between episodes and not between sampling and the error update; the "
    "importance exponent is constant (its annealing position is not part of the "
    "saved file)",
]


def gen(rng, tier):
    return dict(
        buf=str(rng.choice(["plain", "prioritized", "episodic", "pepisodic"])),
        n=int(rng.choice([1, 2, 3, 5])),
        capacity=[None, 1, 3, 7, 16, 60][rng.randint(6)],
        envs=int(rng.randint(1, 4)),
        pre=int(rng.choice([0, 5, 40, 150])),
        post=int(rng.choice([5, 40, 150])),
        gens=int(rng.randint(1, 4)),
        p_end=float(rng.choice([0.05, 0.2, 0.5])),
        norm=[False, True, "memory"][rng.randint(3)],
        alpha=float(rng.choice([0.0, 0.6, 1.0])),
        beta0=float(rng.choice([0.0, 0.4, 1.0])),
        uniform_ratio=float(rng.choice([0, 0.3])),
        default_priority=bool(rng.rand() < 0.5),
        max_len=[None, 2, 5][rng.randint(3)],
        prog=int(rng.randint(2**31)),
    )


def _ctor(p):
    from pfrl import replay_buffers as R

    if p["buf"] == "plain":
        return R.ReplayBuffer(p["capacity"], num_steps=p["n"])
    if p["buf"] == "prioritized":
        return R.PrioritizedReplayBuffer(
            p["capacity"], num_steps=p["n"], alpha=p["alpha"], beta0=p["beta0"],
            betasteps=None, normalize_by_max=p["norm"],
        )
    if p["buf"] == "episodic":
        return R.EpisodicReplayBuffer(p["capacity"])
    return R.PrioritizedEpisodicReplayBuffer(
        p["capacity"], alpha=p["alpha"], beta0=p["beta0"], betasteps=None,
        normalize_by_max=p["norm"], uniform_ratio=p["uniform_ratio"],
        default_priority_func=(lambda ep: 0.3 + len(ep)) if p["default_priority"] else None,
    )


class Prog:
    """A deterministic stream of operations applied to any number of buffers."""

    def __init__(self, p, obs):
        self.p, self.obs = p, obs
        self.rng = np.random.RandomState(p["prog"])
        self.ep = [0] * p["envs"]
        self.t = [0] * p["envs"]
        self.appended = 0
        self.episodes = []  # completed, (length, env, ep)

    def episodic(self):
        return "episodic" in self.p["buf"]

    def step(self, bufs):
        p, rng = self.p, self.rng
        e = int(rng.randint(p["envs"]))
        end = rng.rand() < p["p_end"]
        term = end and rng.rand() < 0.5
        x = rng.rand()
        for b in bufs:
            b.append(env_id=e, **rb.mk_transition(e, self.ep[e], self.t[e], term))
            if end and (not term or x < 0.5):
                b.stop_current_episode(env_id=e)
        self.appended += 1
        self.t[e] += 1
        if end:
            self.ep[e] += 1
            self.t[e] = 0
        if rng.rand() < 0.2:
            self.sample(bufs)

    def finish(self, bufs):
        for e in range(self.p["envs"]):
            for b in bufs:
                b.stop_current_episode(env_id=e)
            if self.t[e]:
                self.ep[e] += 1
                self.t[e] = 0

    def sample(self, bufs):
        p, rng, obs = self.p, self.rng, self.obs
        s = int(rng.randint(2**31))
        outs = []
        ep_mode = self.episodic() and rng.rand() < 0.7
        size = bufs[0].n_episodes if ep_mode else len(bufs[0])
        if size == 0:
            return
        k = int(rng.randint(1, size + 1))
        errs = rng.rand(k) * 1.5
        for b in bufs:
            np.random.seed(s)
            if ep_mode:
                r = b.sample_episodes(k, max_len=p["max_len"])
                w = None
                if isinstance(r, tuple):
                    r, w = r
                r = [rb.canon_exp(x) for x in r]
                out = (r, None if w is None else list(np.asarray(w, dtype=float)))
                if p["buf"] == "pepisodic":
                    b.update_errors(list(errs))
            else:
                r = b.sample(k)
                w = [x[0].get("weight") for x in r] if p["buf"] == "prioritized" else None
                out = ([rb.canon_exp(x) for x in r], w)
                if p["buf"] == "prioritized":
                    b.update_errors(list(errs))
            outs.append(out)
        for o in outs[1:]:
            obs.require(o[0] == outs[0][0], lambda: "seeded samples of {} items differ: {} vs {}".format(
                k, _short(outs[0][0]), _short(o[0])))
            obs.require(
                (o[1] is None and outs[0][1] is None) or np.allclose(o[1], outs[0][1], rtol=1e-9, atol=0),
                lambda: "weights differ: {} vs {}".format(outs[0][1], o[1]))
            obs.n("samples_compared", k)


def _short(exps):
    return [dict(e[0]).get("action") for e in exps][:8]


def _contents(p, b):
    """Everything held, through non-intrusive sampling."""
    out = []
    n = len(b)
    if p["buf"] in ("plain", "episodic", "pepisodic"):
        out.append(sorted((rb.canon_exp(x) for x in (b.sample(n) if n else [])), key=repr))
    if p["buf"] == "episodic":
        m = b.n_episodes
        out.append(sorted((rb.canon_exp(x) for x in (b.sample_episodes(m) if m else [])), key=repr))
    if "episodic" in p["buf"]:
        out.append(b.n_episodes)
    return n, out


def check(p, obs):
    d = obs.tmpdir()
    prog = Prog(p, obs)
    bufs = [_ctor(p)]
    for _ in range(p["pre"]):
        prog.step(bufs)
    for g in range(p["gens"]):
        prog.finish(bufs)
        before = [_contents(p, b) for b in bufs]
        f = os.path.join(d, "buf%d.pkl" % g)
        bufs[-1].save(f)
        obs.require([_contents(p, b) for b in bufs] == before, "saving changed the buffer")
        late = _ctor(p) if g % 2 else None
        new = _ctor(p)
        if p["prog"] % 3 == 0:  # loading replaces whatever the buffer held
            for i in range(4):
                new.append(**rb.mk_transition(77, 1, i, i == 3))
        new.load(f)
        obs.require(_contents(p, new) == before[-1], lambda: "loaded buffer holds something else: {} vs {} items".format(
            len(new), before[-1][0]))
        obs.n("save_load_cycles")
        sz = len(new)
        n0 = prog.appended
        bufs.append(new)
        for _ in range(p["post"]):
            prog.step(bufs)
            obs.require(len(set(len(b) for b in bufs)) == 1, lambda: "sizes diverge: {}".format([len(b) for b in bufs]))
            if prog.episodic():
                obs.require(len(set(b.n_episodes for b in bufs)) == 1, "episode counts diverge")
        c = [_contents(p, b) for b in bufs]
        obs.require(all(x == c[0] for x in c), "contents diverge after loading")
        prog.sample(bufs)
        if late is not None:  # the file still holds the state at saving time
            late.load(f)
            obs.require(_contents(p, late) == before[-1], "later activity changed the saved copy")
        if sz:
            cap = p["capacity"]
            obs.sig(p["buf"], cap, p["n"], min(sz, 8), cap is not None and n0 > cap,
                    cap is not None and prog.appended - n0 > 0, g, p["norm"])
    obs.sample = dict(held=len(bufs[0]), appended=prog.appended)


KINDS = [Kind("lockstep", gen, check, 600, 8000)]
