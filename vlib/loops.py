"""Scripted environments and recording agents for the training-loop and evaluation monitors."""
import json
import os

import numpy as np

import pfrl


class Boom(Exception):
    """Injected fault."""


class Log:
    """One shared event log; a fault can be injected at the k-th call of an operation."""

    def __init__(self):
        self.ev = []
        self.calls = {}
        self.fault = None  # (op, k, exception)
        self.fired = False
        self.agent = None

    def training(self):
        return self.agent is None or self.agent.training

    def add(self, op, **kw):
        kw["op"] = op
        kw["training"] = self.training()
        self.ev.append(kw)

    def call(self, op):
        """Count a call of op; raise the injected fault when its turn has come."""
        k = self.calls.get(op, 0)
        self.calls[op] = k + 1
        if self.fault is not None and self.fault[0] == op and self.fault[1] == k and not self.fired:
            self.fired = True
            self.add("fault", at=op)
            raise self.fault[2]


def oid(o):
    return tuple(int(v) for v in np.asarray(o).reshape(-1))


class ScriptEnv(pfrl.env.Env):
    """Environment with unique observations (index, episode, step) and a random script."""

    def __init__(self, log, seed, index=0, p_done=0.1, p_reset=0.05, rewards="dyadic", fixed=None,
                 stats=False, min_len=1):
        self.log, self.index = log, index
        self.rng = np.random.RandomState(seed)
        self.p_done, self.p_reset, self.kind = p_done, p_reset, rewards
        self.fixed, self.min_len = fixed, min_len
        self.episode, self.k = 0, 0
        self.cur = None
        self.ended = True
        self.closed = 0
        self.action_space = None
        self.observation_space = None
        self.hist = []  # [(episode, reward)]
        if stats:
            self.n_cleared = 0
            self.since = 0
            self.get_statistics = lambda: [("env_steps_since_clear", self.since)]
            self.clear_statistics = self._clear

    def _clear(self):
        self.n_cleared += 1
        self.since = 0

    def _obs(self):
        self.cur = (self.index, self.episode, self.k)
        return np.array(self.cur, dtype=np.int64)

    def reset(self):
        self.log.call("env.reset")
        self.episode += 1
        self.k = 0
        self.ended = False
        o = self._obs()
        self.log.add("reset", env=self.index, obs=self.cur)
        return o

    def reward(self):
        r = self.rng
        v = r.randint(-40, 41) / 8.0
        if self.kind == "int":
            return int(r.randint(-3, 4))
        if self.kind == "np32":
            return np.float32(v)
        if self.kind == "np64":
            return np.float64(v)
        return float(v)

    def step(self, action):
        self.log.call("env.step")
        bad = self.ended
        self.k += 1
        o = self._obs()
        rw = self.reward()
        done = bool(self.rng.rand() < self.p_done) if self.k >= self.min_len else False
        nr = bool(self.rng.rand() < self.p_reset) if self.k >= self.min_len else False
        if self.fixed is not None:
            done = self.k >= self.fixed
        info = {}
        if nr:
            info["needs_reset"] = True
        elif self.rng.rand() < 0.5:
            info["needs_reset"] = False
        if hasattr(self, "since"):
            self.since += 1
        if done or nr:
            self.ended = True
        self.hist.append((self.episode, float(rw), done, nr))
        self.log.add("step", env=self.index, action=action, obs=self.cur, r=float(rw), done=done, nr=nr, bad=bad)
        return o, rw, done, info

    def seed(self, s):
        pass

    def close(self):
        self.closed += 1


class RecAgent(pfrl.agent.BatchAgent):
    """Records every call; actions are unique numbers."""

    def __init__(self, log, with_t=True, version=None):
        self.log = log
        self.n = 0
        self.version = 0
        log.agent = self
        if with_t:
            self.t = -1
        self.envs = None  # environments whose true state is noted at every action

    def _cur(self):
        return None if self.envs is None else [e.cur for e in self.envs]

    def act(self, obs):
        self.log.call("agent.act")
        self.n += 1
        self.log.add("act", obs=oid(obs), action=self.n, cur=self._cur())
        return self.n

    def observe(self, obs, reward, done, reset):
        self.log.call("agent.observe")
        if self.training:
            self.version += 1
            if hasattr(self, "t"):
                self.t += 1
        self.log.add("observe", obs=oid(obs), r=float(reward), done=bool(done), reset=bool(reset))

    def batch_act(self, obss):
        self.log.call("agent.act")
        acts = []
        for _ in obss:
            self.n += 1
            acts.append(self.n)
        self.log.add("act", obs=[oid(o) for o in obss], action=list(acts), cur=self._cur())
        return acts

    def batch_observe(self, obss, rs, dones, resets):
        self.log.call("agent.observe")
        if self.training:
            self.version += 1
        self.log.add("observe", obs=[oid(o) for o in obss], r=[float(r) for r in rs],
                     done=[bool(d) for d in dones], reset=[bool(r) for r in resets])

    def save(self, dirname):
        self.log.call("agent.save")
        os.makedirs(dirname, exist_ok=True)
        with open(os.path.join(dirname, "agent.json"), "w") as f:
            json.dump({"version": self.version}, f)
        self.log.add("save", dir=os.path.basename(dirname), parent=os.path.dirname(dirname), version=self.version)

    def load(self, dirname):
        pass

    def get_statistics(self):
        self.log.call("agent.stats")
        return [("version", self.version), ("n", self.n)]


class StubEvaluator:
    """Scripted evaluator: score at given call numbers."""

    def __init__(self, log, seed, p_eval=0.4):
        self.log = log
        self.rng = np.random.RandomState(seed)
        self.p = p_eval
        self.max_score = -1e9
        self.env = None

    def evaluate_if_necessary(self, t, episodes):
        self.log.call("evaluator")
        s = None
        if self.rng.rand() < self.p:
            s = float(self.rng.randint(-20, 21))
            self.max_score = max(self.max_score, s)
        self.log.add("eval", t=int(t), episodes=int(episodes), score=s, max=self.max_score)
        return s


class VecEnv(pfrl.envs.SerialVectorEnv):
    """SerialVectorEnv logging whole-batch operations."""
