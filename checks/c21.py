"""C21: vector environments are faithful, ordered copies of their environments."""
import multiprocessing as mp
import os
import sys
import time

import gym
import numpy as np

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "Each case drives a vector environment (in-process, one process per environment, wrapped by a "
    "frame stack or a pass-through wrapper) with a random sequence of steps, masked and full "
    "resets, seedings and attribute reads; worker environments answer after random delays. Every "
    "reply is compared by position with a twin environment driven alone with the same calls; "
    "worker processes and environment close calls are counted after closing. failure: one "
    "environment raises or its process dies at a random call. distinct_nontrivial counts distinct "
    "(type, environments, program shape) and completion orders of the workers."
)


class TwinEnv(gym.Env):
    """Everything returned depends on index, seed, the whole action history and the call."""

    def __init__(self, index, style, delay=0.0, closefile=None, fail_at=None, fail_how=None):
        self.index, self.style, self.delay = index, style, delay
        self.closefile, self.fail_at, self.fail_how = closefile, fail_at, fail_how
        self.observation_space = gym.spaces.Box(-10, 10, shape=(2, 3), dtype=np.float32)
        self.action_space = gym.spaces.Discrete(3 + index)
        self.spec = ("spec", index)
        self.rng = np.random.RandomState(index * 7919 + 13)
        self.drng = np.random.RandomState(index + 100)
        self.acc = index + 1
        self.n_steps = self.n_resets = self.n_calls = 0
        if fail_at is not None and fail_how != "construct":
            sys.stderr = open(os.devnull, "w")
        if fail_how == "construct":
            sys.stderr = open(os.devnull, "w")
            raise RuntimeError("injected")

    def _wait(self):
        self.n_calls += 1
        if self.fail_at is not None and self.n_calls > self.fail_at:
            if self.fail_how == "raise":
                raise RuntimeError("injected")
            os._exit(3)
        if self.delay:
            time.sleep(self.drng.choice([0, 0, self.delay * self.drng.rand()]))

    def _obs(self):
        o = np.empty((2, 3), np.float32)
        o[0] = [self.index, self.n_resets, self.n_steps]
        o[1] = self.rng.uniform(-1, 1, 3)
        o[1, 2] = self.acc % 1009
        if self.style == "dict":
            return {"a": o, "b": (self.index, self.n_steps)}
        if self.style == "tuple":
            return (o, [self.index])
        return o

    def reset(self):
        self._wait()
        self.n_resets += 1
        return self._obs()

    def step(self, a):
        self._wait()
        self.n_steps += 1
        self.acc = (self.acc * 31 + int(np.sum(np.asarray(a, dtype=np.float64) * 8)) + 17) % 1000003
        o = self._obs()
        r = float(self.rng.randint(-8, 9)) / 4
        d = bool(self.rng.rand() < 0.2)
        info = {"i": self.index, "acc": self.acc, "a": np.asarray(a).tolist(), "n": {"x": [self.n_steps]}}
        if self.delay:
            info["t_done"] = time.monotonic()
        return o, r, d, info

    def seed(self, s=None):
        self.n_calls += 0
        self.rng = np.random.RandomState(4242 + self.index if s is None else s)
        return [("seeded", self.index, s)]

    def close(self):
        if self.closefile:
            with open(self.closefile, "a") as f:
                f.write("%d\n" % self.index)


def gen(rng, tier):
    return dict(
        kind=str(rng.choice(["serial", "multi", "multi", "multi"])), wrap=str(rng.choice(["none", "none", "stack", "pass"])),
        n=int(rng.choice([1, 2, 3, 4, 6])), style=str(rng.choice(["array", "array", "dict", "tuple"])),
        delay=float(rng.choice([0.0, 0.002, 0.006])), ops=int(rng.choice([10, 40, 120])),
        act=str(rng.choice(["int", "array", "tuple", "np"])), k=int(rng.choice([1, 2, 3, 4])),
        prog=int(rng.randint(2**31)))


def gen_fail(rng, tier):
    p = gen(rng, tier)
    p.update(kind="multi", wrap="none", ops=30, delay=0.0, fail_env=int(rng.randint(p["n"])), fail_at=int(rng.choice([0, 1, 3, 9])),
             how=str(rng.choice(["raise", "raise", "exit", "construct"])))
    return p


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {k for k in a if k != "t_done"}
        return ka == {k for k in b if k != "t_done"} and all(same(a[k], b[k]) for k in ka)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    return a == b


def children():
    return len(mp.active_children())


def build(p, closefile):
    import pfrl

    def fn(i):
        def f():
            kw = {}
            if p.get("how") and i == p["fail_env"]:
                kw = dict(fail_at=p["fail_at"], fail_how=p["how"])
            return TwinEnv(i, p["style"], p["delay"] if p["kind"] == "multi" else 0.0, closefile, **kw)
        return f

    fns = [fn(i) for i in range(p["n"])]
    if p["kind"] == "serial":
        return pfrl.envs.SerialVectorEnv([f() for f in fns])
    return pfrl.envs.MultiprocessVectorEnv(fns)


def action(p, rng):
    if p["act"] == "int":
        return [int(rng.randint(5)) for _ in range(p["n"])]
    if p["act"] == "array":
        return [rng.randint(-4, 5, 2).astype(np.float32) / 2 for _ in range(p["n"])]
    if p["act"] == "tuple":
        return tuple(int(rng.randint(5)) for _ in range(p["n"]))
    return rng.randint(0, 5, p["n"])


def check(p, obs):
    from pfrl.wrappers import VectorFrameStack
    from pfrl.wrappers.vector_frame_stack import VectorEnvWrapper

    base_children = children()
    cf = os.path.join(obs.tmpdir(), "closed")
    if p["wrap"] == "stack":
        p = dict(p, style="array")
    venv = raw = build(p, cf)
    stack = None
    if p["wrap"] == "stack":
        venv = VectorFrameStack(raw, p["k"], stack_axis=p["prog"] % 2)
        stack = [[] for _ in range(p["n"])]
    elif p["wrap"] == "pass":
        class W(VectorEnvWrapper):
            pass
        venv = W(raw)
    twins = [TwinEnv(i, p["style"]) for i in range(p["n"])]
    rng = np.random.RandomState(p["prog"])
    obs.require(venv.num_envs == p["n"], "num_envs")
    obs.require(venv.action_space == twins[0].action_space, "action space")
    if stack is None:
        obs.require(venv.observation_space == twins[0].observation_space, "observation space")
    last = None
    done = [False] * p["n"]
    shape, orders = [], set()

    def show(i, o):
        if stack is None:
            return o
        return np.concatenate([np.asarray(f) for f in stack[i]], axis=p["prog"] % 2)

    def cmp_obs(got, what):
        obs.require(len(got) == p["n"], "%s: wrong number of observations" % what)
        for i in range(p["n"]):
            w = show(i, last[i])
            g = np.asarray(got[i]) if stack is not None else got[i]
            obs.require(same(g, w), lambda: "%s: position %d holds %s, environment alone gives %s" % (what, i, g, w))
        obs.n("observations_compared", p["n"])

    kept = []  # observations handed out earlier must stay what they were
    for j in range(p["ops"]):
        u = rng.rand()
        if last is None or u < 0.04:
            mask = None
            op = "reset"
        elif u < 0.3:
            m = [bool(b) for b in rng.rand(p["n"]) < rng.choice([0.0, 0.5, 1.0])]
            mask = [m, np.array(m), np.array(m, dtype=float), tuple(m)][rng.randint(4)]
            op = "mask"
        elif u < 0.35 and p["kind"] != "x":
            op = "seed"
        elif u < 0.38:
            op = "attr"
        elif u < 0.55:
            op = "auto"
            mask = np.logical_not(done)
        else:
            op = "step"
        shape.append(op)
        if op in ("reset", "mask", "auto"):
            if mask is None:
                got = venv.reset()
            elif rng.rand() < 0.5:
                got = venv.reset(mask)
            else:
                got = venv.reset(mask=mask)
            last = list(last or [None] * p["n"])
            for i in range(p["n"]):
                if mask is None or not mask[i]:
                    last[i] = twins[i].reset()
                    done[i] = False
                    if stack is not None:
                        stack[i] = [last[i]] * p["k"]
            cmp_obs(got, "reset")
            kept.append((list(got), [show(i, last[i]) for i in range(p["n"])]))
        elif op == "seed":
            s = [int(x) for x in rng.randint(0, 2**31 - 1, p["n"])]
            if p["kind"] == "multi" and p["wrap"] == "none" and rng.rand() < 0.3:
                s = [s[0]] * p["n"]
                got = venv.seed(s[0])  # one seed for all of them
            else:
                got = venv.seed(list(s))
            for i in range(p["n"]):
                w = twins[i].seed(s[i])
                if got is not None:
                    obs.require(same(got[i], w), lambda: "seed of environment %d answered %s" % (i, got[i]))
        elif op == "attr":
            if p["wrap"] == "none":
                obs.require(venv.spec == twins[0].spec, lambda: "spec is %s" % (venv.spec,))
            obs.require(venv.num_envs == p["n"], "num_envs")
        else:
            a = action(p, rng)
            o, r, d, info = venv.step(a)
            res = [twins[i].step(a[i]) for i in range(p["n"])]
            last = [x[0] for x in res]
            if stack is not None:
                for i in range(p["n"]):
                    stack[i] = (stack[i] + [last[i]])[-p["k"]:]
            cmp_obs(o, "step")
            kept.append((list(o), [show(i, last[i]) for i in range(p["n"])]))
            done = [x[2] for x in res]
            obs.require(len(r) == len(d) == len(info) == p["n"], "step: wrong number of results")
            for i in range(p["n"]):
                obs.require(r[i] == res[i][1] and bool(d[i]) == res[i][2] and same(info[i], res[i][3]),
                            lambda: "step: position %d got %s, environment alone gives %s" % (
                                i, (r[i], d[i], info[i]), res[i][1:]))
            obs.n("steps_compared", p["n"])
            if "t_done" in info[0]:
                orders.add(tuple(np.argsort([x["t_done"] for x in info])))
        if len(kept) > 6:
            kept.pop(0)
        for g, w in kept[:2]:
            for i in range(p["n"]):
                x = np.asarray(g[i]) if stack is not None else g[i]
                obs.require(same(x, w[i]), "an observation handed out earlier changed afterwards")
    venv.close()
    with open(cf) as f:
        closed = sorted(set(int(x) for x in f))
    obs.require(closed == list(range(p["n"])), lambda: "closed environments %s of %d" % (closed, p["n"]))
    if p["kind"] == "multi":
        obs.require(children() == base_children, lambda: "%d worker processes left" % (children() - base_children))
        obs.n("worker_processes", p["n"])
    for o in orders:
        obs.sig("order", o)
    obs.n("completion_orders", len(orders))
    obs.sig(p["kind"], p["wrap"], p["n"], p["style"], p["act"], tuple(shape[:12]))


def check_fail(p, obs):
    base = children()
    cf = os.path.join(obs.tmpdir(), "closed")
    rng = np.random.RandomState(p["prog"])
    error = None
    venv = None
    try:
        venv = build(p, cf)
        o = venv.reset()
        for j in range(p["ops"]):
            o, r, d, info = venv.step(action(p, rng))
            for i in range(p["n"]):
                obs.require(info[i]["i"] == i, lambda: "position %d got the reply of %d" % (i, info[i]["i"]))
            if rng.rand() < 0.3:
                venv.reset([False] * p["n"])
    except Exception as e:  # noqa
        error = e
    obs.require(error is not None, "a failed environment went unnoticed")
    if venv is not None:
        venv.close()
    del venv
    error = None
    import gc
    gc.collect()
    t0 = time.time()
    while children() > base and time.time() - t0 < 20:
        time.sleep(0.05)
    obs.require(children() == base, lambda: "%d worker processes left after a failure" % (children() - base))
    obs.n("failures_noticed")
    obs.sig(p["n"], p["fail_env"], p["fail_at"], p["how"])


KINDS = [
    Kind("history", gen, check, 400, 8000, timeout=120),
    Kind("failure", gen_fail, check_fail, 120, 2000, timeout=60),
]
