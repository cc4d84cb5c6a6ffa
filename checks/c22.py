"""C22: environment wrappers transform the stream exactly as documented."""
import os

import gym
import numpy as np
from gym import spaces

from vlib.core import Kind, Violation
from vlib.stats import binom_ok, chi2_fit

LEVEL = "exploration"
RULE = (
    "chain: a random nesting of the deterministic wrappers around a recording environment of "
    "unique frames (with lives, terminals, reset requests) is driven next to reference wrappers "
    "written from the documentation around a twin environment; every observation, reward, "
    "terminal flag, info, inner action and inner reset is compared, earlier observations are "
    "re-read later. atari: make_atari/wrap_deepmind on a registered fake game. noop, flicker, "
    "randomize: distributions of the random wrappers (false-alarm rate < 1e-12) and their "
    "transformation. monitor: recorded episode statistics against the true ones. "
    "distinct_nontrivial counts distinct (wrapper chain, end reasons seen)."
)


class Ale:
    def __init__(self, env):
        self.env = env

    def lives(self):
        return self.env.n_lives


class Inner(gym.Env):
    """Recording environment; two instances with the same seed behave identically."""

    def __init__(self, seed=0, style="frame", hw=(6, 5), p_done=0.05, p_reset=0.03, lives=0, p_life=0.1,
                 reuse=False, low=None, high=None, hold=0):
        self.rng = np.random.RandomState(seed)
        self.np_random = np.random.RandomState(seed + 1)
        self.style, self.hw = style, hw
        self.p_done, self.p_reset, self.max_lives, self.p_life = p_done, p_reset, lives, p_life
        self.log = []
        self.n = 0
        self.n_lives = 0
        self.hold = hold
        self.ale = Ale(self)
        if style == "frame":
            self.observation_space = spaces.Box(0, 255, shape=hw + (3,), dtype=np.uint8)
            self.action_space = spaces.Discrete(6)
        elif style == "plane":
            self.observation_space = spaces.Box(0, 255, shape=(1,) + hw, dtype=np.uint8)
            self.action_space = spaces.Discrete(6)
        else:
            self.observation_space = spaces.Box(-1e3, 1e3, shape=(3,), dtype=np.float64)
            self.action_space = spaces.Box(np.array(low, np.float32), np.array(high, np.float32), dtype=np.float32)
        self.metadata = {"render.modes": ["human"]}
        self.renders = []
        self.over = True

    def get_action_meanings(self):
        return ["NOOP", "FIRE", "UP", "LEFT", "RIGHT", "DOWN"]

    def _obs(self):
        self.n += 1
        if self.style == "vector":
            o = self.rng.uniform(-5, 5, 3)
            o[0] = self.n
            return o
        return self.rng.randint(0, 256, self.observation_space.shape).astype(np.uint8)

    def reset(self):
        self.n_lives = self.max_lives
        self.over = False
        o = self._obs()
        self.k = 0
        self.log.append(("reset", o.copy()))
        return o

    def step(self, a):
        bad = self.over
        self.k += 1
        o = self._obs()
        r = float(self.rng.choice([-2.5, -1, 0, 0, 0.25, 1, 7]))
        done = bool(self.rng.rand() < self.p_done) and self.k > self.hold
        if self.max_lives and self.rng.rand() < self.p_life:
            self.n_lives -= 1
            if self.n_lives <= 0:
                done = True
        if self.max_lives and self.rng.rand() < 0.02:
            self.n_lives += 1  # bonus life
        nr = bool(self.rng.rand() < self.p_reset) and self.k > self.hold
        info = {"k": self.k, "x": [self.n]}
        if nr:
            info["needs_reset"] = True
        self.over = done or nr
        self.log.append(("step", np.array(a).copy(), o.copy(), r, done, nr, bad))
        return o, r, done, info

    def render(self, mode="human", **kw):
        self.renders.append((len(self.log), mode, tuple(sorted(kw.items()))))

    def seed(self, s=None):
        self.seeded = s
        return [s]


# -- reference wrappers, written from the documentation -----------------------

class R:
    def __init__(self, e, **kw):
        self.e = e
        self.__dict__.update(kw)
        self.init()

    def init(self):
        pass

    def reset(self):
        return self.e.reset()

    def step(self, a):
        return self.e.step(a)


class RScale(R):
    def step(self, a):
        o, r, d, i = self.e.step(a)
        return o, self.scale * r, d, i


class RCast(R):
    def reset(self):
        return self.e.reset().astype(self.dtype)

    def step(self, a):
        o, r, d, i = self.e.step(a)
        return o.astype(self.dtype), r, d, i


class RNorm(R):
    def step(self, a):
        lo, hi = self.low, self.high
        return self.e.step(lo + (np.asarray(a, np.float64) + 1) / 2 * (hi - lo))


class RLimit(R):
    def init(self):
        self.k = 0

    def reset(self):
        self.k = 0
        return self.e.reset()

    def step(self, a):
        o, r, d, i = self.e.step(a)
        self.k += 1
        i = dict(i)
        if self.k >= self.limit:
            i["needs_reset"] = True
        return o, r, d, i


class RSkip(R):
    wild = False

    def step(self, a):
        tot, frames = 0.0, []
        self.wild = False
        for j in range(self.skip):
            o, r, d, i = self.e.step(a)
            frames.append(o)
            tot += r
            if d or i.get("needs_reset", False):
                self.wild = j < self.skip - 1 or d
                break
        f = np.maximum(frames[-1], frames[-2]) if len(frames) > 1 else frames[-1]
        self.accept = [f, frames[-1]]
        return f, tot, d, i


def ended(d, i):
    return d or i.get("needs_reset", False)


class RLife(R):
    def init(self):
        self.real = True
        self.lives = 0

    def base(self):
        e = self.e
        while isinstance(e, R):
            e = e.e
        return e

    def step(self, a):
        o, r, d, i = self.e.step(a)
        self.real = ended(d, i)
        now = self.base().n_lives
        if 0 < now < self.lives:
            d = True
        self.lives = now
        return o, r, d, i

    def reset(self):
        if self.real:
            o = self.e.reset()
        else:
            o, _, d, i = self.e.step(0)
            if ended(d, i):
                o = self.e.reset()
        self.lives = self.base().n_lives
        return o


class RFire(R):
    def reset(self):
        self.e.reset()
        for a in (1, 2):
            o, _, d, i = self.e.step(a)
            if ended(d, i):
                o = self.e.reset()
        return o


class RClip(R):
    def step(self, a):
        o, r, d, i = self.e.step(a)
        return o, (r > 0) * 1.0 - (r < 0) * 1.0, d, i


class RFloat(R):
    def f(self, o):
        return np.asarray(o).astype(np.float32) / np.float32(255.0)

    def reset(self):
        return self.f(self.e.reset())

    def step(self, a):
        o, r, d, i = self.e.step(a)
        return self.f(o), r, d, i


class RStack(R):
    def get(self):
        return np.concatenate([np.asarray(x) for x in self.fr], axis=self.axis)

    def reset(self):
        self.fr = [self.e.reset()] * self.k
        return self.get()

    def step(self, a):
        o, r, d, i = self.e.step(a)
        self.fr = (self.fr + [o])[-self.k:]
        return self.get(), r, d, i


class RWarp(R):
    """Grey level and block averages; the source size is a multiple of 84."""

    def f(self, o):
        g = np.rint(o.astype(np.float64) @ np.array([0.299, 0.587, 0.114]))
        h, w = g.shape[0] // 84, g.shape[1] // 84
        g = g.reshape(84, h, 84, w).mean(axis=(1, 3))
        return g.reshape((84, 84, 1) if self.order == "hwc" else (1, 84, 84))

    def reset(self):
        return self.f(self.e.reset())

    def step(self, a):
        o, r, d, i = self.e.step(a)
        return self.f(o), r, d, i


# -- deterministic chains -------------------------------------------------------

def gen(rng, tier):
    style = str(rng.choice(["game", "game", "plane", "vector", "vector"]))
    if style == "vector":
        ws = [str(x) for x in rng.permutation(["scale", "cast", "norm", "limit", "render", "clip", "cast32"])[:rng.randint(1, 5)]]
    elif style == "plane":
        ws = [w for w in ("limit", "skip", "life", "fire", "float", "clip", "stack", "scale") if rng.rand() < 0.45]
        if not ws:
            ws = ["stack"]
        if rng.rand() < 0.3:
            rng.shuffle(ws)
        if "stack" in ws and "float" in ws and ws.index("stack") < ws.index("float"):
            pass  # LazyFrames below ScaledFloatFrame is supported
        if "skip" in ws:  # needs frames of unsigned bytes below
            ws.remove("skip")
            ws.insert(0, "skip")
    else:
        ws = [w for w in ("limit", "skip", "life", "fire", "warp", "float", "clip", "stack") if rng.rand() < 0.6]
        if not ws:
            ws = ["skip"]
    if style != "vector" and rng.rand() < 0.1:
        ws = ["limit", "skip"] if rng.rand() < 0.5 else ["skip"]
    d = int(rng.randint(1, 4))
    low = rng.uniform(-4, 1, d).round(2).tolist()
    return dict(style=style, ws=[str(w) for w in ws], limit=int(rng.choice([1, 2, 7, 30])), skip=int(rng.choice([1, 2, 3, 4])),
                k=int(rng.choice([1, 2, 4])), scale=float(rng.choice([0.5, 2.0, -3.0, 0.01])), lives=int(rng.choice([0, 1, 3, 5])),
                p_done=float(rng.choice([0.0, 0.03, 0.2])), p_reset=float(rng.choice([0.0, 0.03, 0.2])),
                hw=[84 * int(rng.choice([1, 2])), 84 * int(rng.choice([1, 2]))] if style == "game" and "warp" in ws else [4, 5],
                order=str(rng.choice(["hwc", "chw"])), low=low,
                high=[x + float(rng.choice([0.5, 1.0, 6.0])) for x in low],
                steps=int(rng.choice([20, 80, 200])) if "warp" not in ws else int(rng.choice([20, 50])),
                dtype=str(rng.choice(["float32", "float64", "float16"])), prog=int(rng.randint(2**31)))


def inner(p, prog):
    return Inner(prog, {"game": "frame"}.get(p["style"], p["style"]), tuple(p["hw"]), p["p_done"], p["p_reset"], p["lives"],
                 low=p["low"], high=p["high"], hold=0)


def chain(p):
    import pfrl.wrappers as W
    from pfrl.wrappers import atari_wrappers as A

    real_in, ref_in = inner(p, p["prog"]), inner(p, p["prog"])
    e, r = real_in, ref_in
    dt = np.dtype(p["dtype"])
    refs = []
    axis = {"hwc": 2, "chw": 0}[p["order"]]
    order = p["order"]
    if p["style"] == "plane":
        axis, order = 0, "chw"
    for w in p["ws"]:
        if w == "scale":
            e, r = W.ScaleReward(e, p["scale"]), RScale(r, scale=p["scale"])
        elif w == "cast":
            e, r = W.CastObservation(e, dt), RCast(r, dtype=dt)
        elif w == "cast32":
            e, r = W.CastObservationToFloat32(e), RCast(r, dtype=np.float32)
        elif w == "norm":
            r = RNorm(r, low=np.array(p["low"]), high=np.array(p["high"]))
            e = W.NormalizeActionSpace(e)
        elif w == "limit":
            e, r = W.ContinuingTimeLimit(e, p["limit"]), RLimit(r, limit=p["limit"])
        elif w == "render":
            e = W.Render(e, mode="human", z=1)
        elif w == "skip":
            e, r = A.MaxAndSkipEnv(e, skip=p["skip"]), RSkip(r, skip=p["skip"])
        elif w == "life":
            e, r = A.EpisodicLifeEnv(e), RLife(r)
        elif w == "fire":
            e, r = A.FireResetEnv(e), RFire(r)
        elif w == "clip":
            e, r = A.ClipRewardEnv(e), RClip(r)
        elif w == "float":
            e, r = A.ScaledFloatFrame(e), RFloat(r)
        elif w == "warp":
            e, r = A.WarpFrame(e, channel_order=order), RWarp(r, order=order)
        elif w == "stack":
            e, r = A.FrameStack(e, p["k"], channel_order=order), RStack(r, k=p["k"], axis=axis)
        refs.append(r)
    return real_in, ref_in, e, r, refs


def same(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol:
        return bool(np.all(np.abs(a.astype(np.float64) - b.astype(np.float64)) <= tol))
    return bool(np.array_equal(a, b))


def same_info(a, b):
    return {k: v for k, v in a.items() if not (k == "needs_reset" and not v)} == {
        k: v for k, v in b.items() if not (k == "needs_reset" and not v)}


def loglike(a, b, tol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "step" and not np.all(np.abs(np.asarray(x[1], np.float64) - np.asarray(y[1], np.float64)) <= tol):
            return False
    return True


def drive(p, obs, real_in, ref_in, e, ref, refs, steps, tol, act):
    rng = np.random.RandomState(p["prog"] + 9)
    sk = [x for x in refs if isinstance(x, RSkip)]
    only_skip = bool(sk) and ref is sk[0]
    kept = []
    need, reasons = True, set()
    nl = nr = 0
    for j in range(steps):
        if need:
            o = e.reset()
            for x in walk(ref):
                if isinstance(x, RNoop):
                    x.counts[:] = noop_runs(real_in.log[nl:])
            w = ref.reset()
            what = "reset"
            extra = ((), ())
            wild = False
            need = False
        else:
            a = act(rng)
            keep = np.array(a).copy()
            o, r, d, i = e.step(a)
            obs.require(np.array_equal(keep, np.array(a)), "the caller's action was modified")
            w, wr, wd, wi = ref.step(a)
            what = "step"
            wild = any(x.wild for x in sk)
            obs.require(np.all(np.abs(np.asarray(r, np.float64) - wr) <= 1e-9 * (1 + abs(wr))),
                        lambda: "%s: reward %s instead of %s" % (p["ws"], r, wr))
            obs.require(bool(d) == bool(wd), lambda: "%s: terminal %s instead of %s" % (p["ws"], d, wd))
            obs.require(same_info(i, wi), lambda: "%s: info %s instead of %s" % (p["ws"], i, wi))
            need = ended(d, i) or rng.rand() < 0.02
            reasons.add((bool(d), bool(i.get("needs_reset", False)), need))
            obs.n("steps_compared")
            if only_skip and wild and not wd:
                obs.require(any(same(o, x, 0) for x in sk[0].accept),
                            "frame skipping cut short: the frame returned is not of this step")
        if wild:
            # the frame at a terminal step does not matter; one cut short is judged above
            kept = []
        else:
            obs.require(same(o, w, tol), lambda: "%s, %s: observation differs: %s instead of %s" % (
                p["ws"], what, np.asarray(o).reshape(-1)[:6], np.asarray(w).reshape(-1)[:6]))
            kept.append((o, np.array(w)))
        la, lb = real_in.log[nl:], ref_in.log[nr:]
        obs.require(loglike(la, lb, 1e-5), lambda: "%s, %s: inner environment got %s instead of %s" % (
            p["ws"], what, [(x[0], x[1] if x[0] == "step" else "") for x in la], [(x[0], x[1] if x[0] == "step" else "") for x in lb]))
        for x in la:
            if x[0] == "step":
                obs.require(not x[6], "the inner environment was stepped after its end")
        nl, nr = len(real_in.log), len(ref_in.log)
        for g, x in kept[-8:]:
            obs.require(same(g, x, tol), "an observation handed out earlier changed afterwards")
    return reasons


def check(p, obs):
    real_in, ref_in, e, ref, refs = chain(p)
    tol = 2.01 if "warp" in p["ws"] else 0
    if "float" in p["ws"]:
        tol = tol / 255 + 1e-6
    d = len(p["low"])

    def act(rng):
        if p["style"] != "vector":
            return int(rng.randint(6))
        if "norm" in p["ws"]:
            return rng.choice([-1.0, 1.0, 0.0, rng.uniform(-1, 1)], d).astype(rng.choice([np.float32, np.float64]))
        return rng.uniform(p["low"], p["high"]).astype(np.float32)

    if "norm" in p["ws"]:
        obs.require(np.all(e.action_space.low == -1) and np.all(e.action_space.high == 1), "normalised range")
    reasons = drive(p, obs, real_in, ref_in, e, ref, refs, p["steps"], tol, act)
    if "render" in p["ws"]:
        want = [i + 1 for i in range(len(real_in.log))]
        obs.require([x[0] for x in real_in.renders] == want and all(x[1:] == ("human", (("z", 1),)) for x in real_in.renders),
                    "not rendered exactly once per call")
    if "stack" in p["ws"] or "float" in p["ws"] or "warp" in p["ws"]:
        e.reset()
        sp = e.observation_space
        o = np.asarray(e.step(3)[0])
        obs.require(sp.shape == o.shape, lambda: "observation space %s, observation %s" % (sp.shape, o.shape))
    obs.sig(tuple(p["ws"]), p["style"], tuple(sorted(reasons)))


# -- the assembled Atari pipeline -------------------------------------------------

class FakeAtari(Inner):
    CFG = {}

    def __init__(self):
        super().__init__(**FakeAtari.CFG)


def gen_atari(rng, tier):
    return dict(prog=int(rng.randint(2**31)), lives=int(rng.choice([1, 3, 5])), order=str(rng.choice(["hwc", "chw"])),
                episode_life=bool(rng.rand() < 0.7), clip=bool(rng.rand() < 0.7), stack=bool(rng.rand() < 0.7),
                scale=bool(rng.rand() < 0.5), fire=bool(rng.rand() < 0.5), max_frames=int(rng.choice([20, 60, 100000])),
                p_done=float(rng.choice([0.0, 0.02])), ws=["atari"], make=bool(rng.rand() < 0.5))


class RNoop(R):
    """Number of no-ops taken from what the real wrapper did."""

    def reset(self):
        self.e.reset()
        o = None
        n = self.counts.pop(0)
        if not 1 <= n <= 30:
            raise Violation("%d no-ops after a reset" % n)
        for _ in range(n):
            o, _, d, i = self.e.step(0)
            if ended(d, i):
                o = self.e.reset()
        return o


def check_atari(p, obs):
    from pfrl.wrappers import atari_wrappers as A

    cfg = dict(seed=p["prog"], style="frame", hw=(84, 84), p_done=p["p_done"], p_reset=0.0, lives=p["lives"], p_life=0.03)
    FakeAtari.CFG = cfg
    counts = []
    real_in = None
    ref = ref_in = Inner(**cfg)
    if p["make"]:
        gid = "VerifNoFrameskip-v%d" % (p["prog"] % 100000 + 1)
        gym.envs.registration.register(id=gid, entry_point=FakeAtari, max_episode_steps=10**6)
        e = A.make_atari(gid, max_frames=p["max_frames"])
        real_in = e.unwrapped
        # count the no-ops at the inner environment
        ref = RLimit(ref, limit=p["max_frames"])
        ref = RNoop(ref, counts=counts)
        ref = RSkip(ref, skip=4)
        refs = [ref]
    else:
        e = real_in = Inner(**cfg)
        refs = []
    e = A.wrap_deepmind(e, episode_life=p["episode_life"], clip_rewards=p["clip"], frame_stack=p["stack"], scale=p["scale"],
                        fire_reset=p["fire"], channel_order=p["order"])
    if p["episode_life"]:
        ref = RLife(ref)
        refs.append(ref)
    if p["fire"]:
        ref = RFire(ref)
    ref = RWarp(ref, order=p["order"])
    if p["scale"]:
        ref = RFloat(ref)
    if p["clip"]:
        ref = RClip(ref)
    if p["stack"]:
        ref = RStack(ref, k=4, axis={"hwc": 2, "chw": 0}[p["order"]])
    tol = 2.01 / (255 if p["scale"] else 1) + 1e-6
    reasons = drive(p, obs, real_in, ref_in, e, ref, refs, 60, tol, lambda rng: int(rng.randint(6)))
    o = e.reset()
    n = 4 if p["stack"] else 1
    shape = (84, 84, n) if p["order"] == "hwc" else (n, 84, 84)
    obs.require(np.asarray(o).shape == shape and e.observation_space.shape == shape, "shape of the assembled environment")
    obs.require(np.asarray(o).dtype == (np.float32 if p["scale"] else np.uint8), "dtype of the assembled environment")
    obs.sig("atari", p["make"], p["episode_life"], p["clip"], p["stack"], p["scale"], p["fire"], p["order"], len(reasons))


def noop_runs(seg):
    """Lengths of the runs of no-ops that follow a reset in what the inner environment was told."""
    res, k = [], None
    for x in seg:
        if x[0] == "reset":
            k = 0 if k is None else k
        elif int(x[1]) == 0:
            k = None if k is None else k + 1
        elif k is not None:
            res.append(k)
            k = None
    if k is not None:
        res.append(k)
    return res + [0] * 3


def walk(r):
    while isinstance(r, R):
        yield r
        r = r.e


# -- random wrappers ---------------------------------------------------------------

def gen_noop(rng, tier):
    return dict(noop_max=int(rng.choice([1, 2, 5, 30])), p_done=float(rng.choice([0.0, 0.1])), p_reset=float(rng.choice([0.0, 0.1])),
                prog=int(rng.randint(2**31)))


def check_noop(p, obs):
    from pfrl.wrappers import atari_wrappers as A

    n = 3000
    env = Inner(p["prog"], "plane", (1, 2), p["p_done"], p["p_reset"])
    e = A.NoopResetEnv(env, noop_max=p["noop_max"])
    counts = np.zeros(p["noop_max"] + 2)
    for j in range(n):
        s = len(env.log)
        o = e.reset()
        seg = env.log[s:]
        obs.require(seg[0][0] == "reset", "reset did not reset the environment")
        k = sum(x[0] == "step" for x in seg)
        obs.require(1 <= k <= p["noop_max"], lambda: "%d no-ops of at most %d" % (k, p["noop_max"]))
        counts[k] += 1
        prev = None
        for x in seg:
            if x[0] == "step":
                obs.require(int(x[1]) == 0 and not x[6], "not a no-op, or after the end of an episode")
                prev = x
            else:
                obs.require(prev is None or prev[4] or prev[5], "reset in mid-episode")
                prev = x if prev is not None else None
                if prev is not None:
                    prev = None
        last = seg[-1]
        obs.require(not (last[0] == "step" and (last[4] or last[5])), "reset returned an ended episode")
        w = last[1] if last[0] == "reset" else last[2]
        obs.require(np.array_equal(o, w), "reset returned another observation than the latest")
        if j % 50 == 0:
            s = len(env.log)
            a = 3
            r = e.step(a)
            obs.require(len(env.log) == s + 1 and int(env.log[-1][1]) == 3 and np.array_equal(r[0], env.log[-1][2])
                        and r[1] == env.log[-1][3] and r[2] == env.log[-1][4], "step changed")
    stat, thr = chi2_fit(counts[1:-1], np.ones(p["noop_max"]) / p["noop_max"], n)
    obs.require(p["noop_max"] == 1 or stat <= thr, lambda: "numbers of no-ops not uniform: %s" % counts)
    obs.n("resets", n)
    obs.sig(p["noop_max"], p["p_done"], p["p_reset"])


def gen_rand(rng, tier):
    return dict(f=float(rng.choice([0.0, 0.01, 0.25, 0.7, 1.0])), prog=int(rng.randint(2**31)))


def check_rand(p, obs):
    import pfrl.wrappers as W

    n = 20000
    seqs = []
    for rep in range(2):
        env = Inner(p["prog"], "plane", (1, 2), 0.0, 0.0)
        e = W.RandomizeAction(env, p["f"])
        e.seed(p["prog"] % 2**31)
        obs.require(env.seeded == p["prog"] % 2**31, "seed did not reach the environment")
        e.reset()
        rng = np.random.RandomState(p["prog"] + 1)
        acts = rng.randint(0, 6, n if rep == 0 else 500)
        for a in acts:
            r = e.step(int(a))
            if len(env.log) < 200:
                lg = env.log[-1]
                obs.require(np.array_equal(r[0], lg[2]) and r[1] == lg[3] and r[2] == lg[4], "step results changed")
        got = np.array([int(x[1]) for x in env.log if x[0] == "step"])
        obs.require(len(got) == len(acts) and got.min() >= 0 and got.max() <= 5, "actions outside the action space")
        seqs.append((acts, got))
    acts, got = seqs[0]
    # differs with probability f*5/6; replaced ones uniform over the other five offsets
    off = (got - acts) % 6
    k = int((off != 0).sum())
    obs.require(binom_ok(k, n, p["f"] * 5 / 6), lambda: "%d of %d actions differ with fraction %s" % (k, n, p["f"]))
    c = np.bincount(got[off != 0], minlength=6)
    want = np.array([(acts != v).sum() for v in range(6)], dtype=float)
    if k > 200:
        stat, thr = chi2_fit(c, want / want.sum(), k)
        obs.require(stat <= thr, lambda: "random actions not uniform: %s" % c)
    # independent of the previous replacement
    ch = off != 0
    if 0 < p["f"] < 1:
        kk = int((ch[1:] & ch[:-1]).sum())
        pp = (p["f"] * 5 / 6) ** 2
        z = (kk - n * pp) / np.sqrt(n * pp * (1 - pp) * 3 + 1)
        obs.require(abs(z) < 9, lambda: "replacements are not independent: %d pairs of %d" % (kk, n))
    obs.require(np.array_equal(seqs[1][1], got[:500]), "the same seed gave other actions")
    obs.n("actions", n)
    obs.sig(p["f"])


def check_flicker(p, obs):
    from pfrl.wrappers import atari_wrappers as A

    env = Inner(p["prog"], "plane", (2, 3), 0.05, 0.0)
    e = A.FlickerFrame(env)
    e.reset()
    n, blank = 4000, []
    for j in range(n):
        o, r, d, i = e.step(1)
        lg = env.log[-1]
        zero = not o.any()
        obs.require(zero or np.array_equal(o, lg[2]), "a frame was neither blank nor the original")
        obs.require(o.shape == lg[2].shape and o.dtype == lg[2].dtype, "shape or type of the frame changed")
        obs.require(r == lg[3] and d == lg[4] and lg[2].any(), "reward or terminal changed")
        blank.append(zero)
        if d:
            o = e.reset()
            obs.require(not o.any() or np.array_equal(o, env.log[-1][1]), "first frame of an episode")
    blank = np.array(blank)
    obs.require(binom_ok(int(blank.sum()), n, 0.5), lambda: "%d of %d frames blank" % (blank.sum(), n))
    obs.require(binom_ok(int((blank[1:] != blank[:-1]).sum()), n - 1, 0.5), "blank frames are not independent")
    obs.n("frames", n)
    obs.sig("flicker")


# -- monitor ---------------------------------------------------------------------

def gen_mon(rng, tier):
    return dict(p_done=float(rng.choice([0.0, 0.1, 0.3])), p_reset=float(rng.choice([0.05, 0.2])), steps=int(rng.choice([1, 20, 80])),
                prog=int(rng.randint(2**31)))


def check_mon(p, obs):
    import json

    import pfrl.wrappers as W

    env = Inner(p["prog"], "vector", (1, 1), p["p_done"], p["p_reset"], low=[-1], high=[1])
    env.spec = None
    d = os.path.join(obs.tmpdir(), "mon")
    e = W.Monitor(env, d, video_callable=False, force=True)
    rets, lens, cur, k = [], [], 0.0, 0
    o = e.reset()
    obs.require(np.array_equal(o, env.log[-1][1]), "first observation changed")
    rng = np.random.RandomState(p["prog"])
    for j in range(p["steps"]):
        o, r, dn, i = e.step(np.zeros(1, np.float32))
        lg = env.log[-1]
        obs.require(np.array_equal(o, lg[2]) and r == lg[3] and dn == lg[4] and bool(i.get("needs_reset", False)) == lg[5],
                    "monitored step differs from the environment's")
        cur += r
        k += 1
        if dn or lg[5] or rng.rand() < 0.05:
            rets.append(cur)
            lens.append(k)
            cur, k = 0.0, 0
            o = e.reset()
            obs.require(np.array_equal(o, env.log[-1][1]), "observation after a reset changed")
            obs.n("episodes")
    obs.require(e.get_total_steps() == p["steps"], lambda: "%s steps recorded" % e.get_total_steps())
    gr, gl = list(e.get_episode_rewards()), list(e.get_episode_lengths())
    obs.require(gl == lens and np.allclose(gr, rets), lambda: "recorded episodes %s %s, true %s %s" % (gl[:6], gr[:6], lens[:6], rets[:6]))
    e.close()
    if k:
        rets.append(cur)
        lens.append(k)
    f = [x for x in os.listdir(d) if x.endswith(".stats.json")]
    obs.require(len(f) == 1, "statistics file missing")
    with open(os.path.join(d, f[0])) as fh:
        s = json.load(fh)
    obs.require(s["episode_lengths"] == lens and np.allclose(s["episode_rewards"], rets),
                lambda: "statistics file %s, true %s" % (s["episode_lengths"], lens))
    obs.sig(p["p_done"], p["p_reset"], p["steps"], len(rets) > 1)


def gen_vstack(rng, tier):
    from checks import c21

    p = c21.gen(rng, tier)
    p.update(wrap="stack", k=int(rng.choice([1, 2, 3, 4, 5])), kind=str(rng.choice(["serial", "serial", "serial", "multi"])), delay=0.0,
             act=str(rng.choice(["int", "np"])))
    return p


def check_vstack(p, obs):
    from checks import c21

    return c21.check(p, obs)


KINDS = [
    Kind("vector", gen_vstack, check_vstack, 60, 800, timeout=120),
    Kind("chain", gen, check, 900, 15000),
    Kind("atari", gen_atari, check_atari, 60, 800),
    Kind("noop", gen_noop, check_noop, 16, 200),
    Kind("randomize", gen_rand, check_rand, 10, 100),
    Kind("flicker", gen_rand, check_flicker, 4, 50),
    Kind("monitor", gen_mon, check_mon, 60, 600),
]
