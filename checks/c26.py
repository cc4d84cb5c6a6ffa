"""C26: observation normalisation tracks the exact statistics of the data seen."""
import copy
import io
import os
import pickle

import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V

LEVEL = "exploration"
RULE = (
    "module: random histories of experience / forward with and without update / inverse / save and "
    "load / copies on real EmpiricalNormalization modules; after every event mean, deviation, count "
    "and outputs are compared with float64 statistics recomputed from all data recorded, and reads "
    "are compared to the bit. long: after up to a million samples single outliers and small batches "
    "arrive, and statistics and outputs must still follow each of them. agent: PPO and TRPO with a normaliser; after every update its "
    "statistics must be those of all observations acted upon in training, while acting and "
    "evaluating leave it unchanged, and the model receives the normalised observations. "
    "distinct_nontrivial counts distinct (shape, axis, options, event kind)."
)


def gen_mod(rng, tier):
    k = int(rng.randint(5))
    shape, axes = [(3, [0, 1]), ((4,), [0, 1, -1]), ((2, 3), [0, 1, 2, -1]), ((), [0]), ((1,), [0])][k]
    return dict(shape=list(shape) if isinstance(shape, tuple) else shape, axis=int(axes[rng.randint(len(axes))]),
                eps=float(rng.choice([1e-2, 1e-8, 1.0])), f64=bool(rng.rand() < 0.4),
                until=[None, None, 1, 7, 50, 300][rng.randint(6)], clip=[None, None, 0.5, 5.0][rng.randint(4)],
                loc=float(rng.choice([0, 0, 1, -30, 1000])), scale=float(rng.choice([1e-3, 1, 1, 100])),
                data=str(rng.choice(["normal", "const", "drift", "binary", "heavy"])),
                big=bool(rng.rand() < 0.3), events=30 if tier == "quick" else 120, prog=int(rng.randint(2**31)))


class Ref:
    def __init__(self, shape, until):
        self.rows = []
        self.n = 0
        self.shape, self.until = shape, until

    def add(self, rows):
        if self.until is not None and self.n >= self.until:
            return
        if len(rows):
            self.rows.append(np.asarray(rows, np.float64))
            self.n += len(rows)

    def stats(self):
        if self.n == 0:
            return np.zeros(self.shape), np.ones(self.shape), 1.0, 1.0
        x = np.concatenate(self.rows)
        m = x.mean(axis=0)
        M = np.abs(x).max(axis=0)
        D = np.abs(x - m).max(axis=0)
        return m, x.var(axis=0), M, D


def draw(rng, p, shape, step):
    B = int(rng.choice([0, 1, 1, 2, 5, 32, 400 if p["big"] else 3]))
    z = rng.randn(*((B,) + shape))
    if p["data"] == "const":
        z = np.ones_like(z)
    elif p["data"] == "drift":
        z = z + 0.3 * step
    elif p["data"] == "binary":
        z = (z > 1).astype(float)
    elif p["data"] == "heavy":
        z = np.sign(z) * np.abs(z) ** 3
    # one scale per feature
    f = 1 + np.arange(int(np.prod(shape)) if shape else 1).reshape(shape) % 3
    return z * p["scale"] * f + p["loc"]


def state(nz):
    return tuple((k, v.detach().numpy().tobytes()) for k, v in sorted(nz.state_dict().items()))


def check_mod(p, obs):
    import pfrl

    rng = np.random.RandomState(p["prog"])
    shape = tuple(p["shape"]) if isinstance(p["shape"], list) else (p["shape"],)
    dt = np.float64 if p["f64"] else np.float32
    ax = p["axis"]

    def mk():
        arg = p["shape"] if isinstance(p["shape"], int) else shape
        return pfrl.nn.EmpiricalNormalization(arg, batch_axis=ax, eps=p["eps"], dtype=dt, until=p["until"], clip_threshold=p["clip"])

    nz = mk()
    ref = Ref(shape, p["until"])
    lay = lambda rows: torch.as_tensor(np.ascontiguousarray(np.moveaxis(rows, 0, ax)).astype(dt))
    unlay = lambda t: np.moveaxis(t.detach().numpy().astype(np.float64), ax, 0)
    u = 2.0**-20 if p["f64"] else 2.0**-15
    u2 = 2.0**-18 if p["f64"] else 2.0**-12

    def verify(nz, what):
        m, v, M, D = ref.stats()
        gm, gs = nz.mean.numpy().astype(np.float64), nz.std.numpy().astype(np.float64)
        obs.require(gm.shape == shape and gs.shape == shape, "shape of the statistics")
        obs.require(bool(np.all(np.abs(gm - m) <= u * (M if not p["f64"] else D + 1e-6 * M) + 1e-12)),
                    lambda: "after %s: mean %s, of the %d samples seen %s" % (what, gm.ravel()[:4], ref.n, m.ravel()[:4]))
        tv = u2 * v + u * (M * D if not p["f64"] else D * D + 1e-8 * M * D) + (1e-12 if p["f64"] else 1e-6)
        obs.require(bool(np.all(np.abs(gs**2 - v) <= tv)),
                    lambda: "after %s: variance %s, of the %d samples seen %s" % (what, (gs**2).ravel()[:4], ref.n, v.ravel()[:4]))
        obs.require(int(nz.count) == ref.n, lambda: "count %d after %d samples" % (int(nz.count), ref.n))
        gm2 = nz.mean
        gm2 += 5
        gs2 = nz.std
        gs2 += 5
        obs.require(np.array_equal(nz.mean.numpy(), gm.astype(dt)) and np.array_equal(nz.std.numpy(), gs.astype(dt)), "reading the statistics exposes them to changes")
        return m, v, M, D

    def out_ok(nz, rows, y):
        # the module's own (already verified) statistics give the exact output
        gm, gs = nz.mean.numpy().astype(np.float64), nz.std.numpy().astype(np.float64)
        sd = np.sqrt(gs**2 + p["eps"])
        x = rows.astype(dt).astype(np.float64)
        want = (x - gm) / sd
        tol = 1e-4 * (1 + np.abs(want)) + 4e-7 * (np.abs(x) + np.abs(gm)) / sd
        if p["clip"] is not None:
            want = np.clip(want, -p["clip"], p["clip"])
        obs.require(y.shape == want.shape and bool(np.all(np.abs(y - want) <= tol)),
                    lambda: "output %s instead of %s" % (y.ravel()[:4], want.ravel()[:4]))
        if p["clip"] is not None:
            obs.require(bool(np.all(np.abs(y) <= np.float32(p["clip"]) * (1 + 1e-6))), "output beyond the clipping threshold")
        obs.n("outputs", y.size)

    for step in range(p["events"]):
        ev = str(rng.choice(["exp", "exp", "fwd", "fwd", "read", "inverse", "save", "deepcopy", "eval", "copy_param"]))
        rows = draw(rng, p, shape, step)
        x = lay(rows)
        x0 = x.clone()
        if ev == "exp":
            nz.experience(x)
            ref.add(x.numpy() if ax == 0 else unlay(x))
        elif ev == "fwd":
            y = nz(x)
            ref.add(unlay(x))
            verify(nz, ev)
            out_ok(nz, rows, unlay(y))
        elif ev in ("read", "eval"):
            if ev == "eval":
                nz.eval()
            s0 = state(nz)
            y = nz(x, update=False)
            out_ok(nz, rows, unlay(y))
            y2 = nz(x, update=False)
            obs.require(torch.equal(y, y2), "two reads differ")
            obs.require(state(nz) == s0, "normalising without update changed the statistics")
            nz.train()
        elif ev == "inverse":
            s0 = state(nz)
            y = nz(x, update=False)
            back = unlay(nz.inverse(y))
            ok = np.ones(back.shape, bool) if p["clip"] is None else np.abs(unlay(y)) < p["clip"] * (1 - 1e-6)
            sd = np.sqrt(nz.std.numpy().astype(np.float64) ** 2 + p["eps"])
            xr = unlay(x)
            tol = 1e-5 * (np.abs(xr) + np.abs(nz.mean.numpy()) + np.abs(xr - nz.mean.numpy()) + sd)
            obs.require(bool(np.all((np.abs(back - xr) <= tol) | ~ok)), lambda: "inverse does not recover the input: %s instead of %s" % (back.ravel()[:4], xr.ravel()[:4]))
            obs.require(state(nz) == s0, "inverting changed the statistics")
        else:
            # a second module takes over the statistics; the first stays as it is
            s0 = state(nz)
            ywant = nz(x, update=False)
            if ev == "deepcopy":
                n2 = copy.deepcopy(nz) if rng.rand() < 0.5 else pickle.loads(pickle.dumps(nz))
            else:
                n2 = mk()
                if rng.rand() < 0.7:  # used before loading
                    n2(lay(draw(rng, p, shape, step)))
                    n2(lay(draw(rng, p, shape, step)), update=False)
                if ev == "save":
                    f = os.path.join(obs.tmpdir(), "n.pt")
                    torch.save(nz.state_dict(), f)
                    n2.load_state_dict(torch.load(f))
                else:
                    pfrl.utils.copy_param.copy_param(n2, nz)
            obs.require(state(n2) == s0, "saving and loading changed the statistics")
            obs.require(torch.equal(n2(x, update=False), ywant), "output differs after taking over the statistics")
            n3 = copy.deepcopy(nz)
            (n3 if rng.rand() < 0.5 else n2).experience(x + 1)
            obs.require(state(nz) == s0, "a copy's experience changed the original")
            if ev != "deepcopy" and rng.rand() < 0.5:
                n4 = mk()
                n4.load_state_dict(nz.state_dict())
                nz = n4
        obs.require(torch.equal(x, x0), "the input was modified")
        m, v, M, D = verify(nz, ev)
        obs.n("events")
        obs.sig(str(shape), ax, p["until"] is not None and ref.n >= p["until"], p["clip"] is not None, p["f64"], p["data"], ev, len(rows) > 1)
    obs.sample = dict(samples_seen=ref.n, mean=nz.mean.numpy().ravel()[:3].tolist())


def gen_long(rng, tier):
    return dict(f64=bool(rng.rand() < 0.5), pre=int(rng.choice([20000, 200000, 1000000])), shape=int(rng.choice([1, 2])),
                eps=float(rng.choice([1e-2, 1e-6])), jump=float(rng.choice([3, 100, 3000])),
                events=25 if tier == "quick" else 60, prog=int(rng.randint(2**31)))


def check_long(p, obs):
    """Late data: after very many samples, statistics and outputs still follow every new one."""
    import pfrl

    rng = np.random.RandomState(p["prog"])
    d = p["shape"]
    dt = np.float64 if p["f64"] else np.float32
    nz = pfrl.nn.EmpiricalNormalization(d, eps=p["eps"], dtype=dt)
    n, sx, sxx = 0, np.zeros(d), np.zeros(d)

    def add(rows):
        nonlocal n, sx, sxx
        r = rows.astype(np.float64)
        n, sx, sxx = n + len(r), sx + r.sum(0), sxx + (r**2).sum(0)

    left = p["pre"]
    while left:
        k = min(left, int(rng.choice([50000, 300000, 1000000])))
        rows = rng.randn(k, d).astype(dt)
        nz.experience(torch.as_tensor(rows))
        add(rows)
        left -= k
    am = av = 0.0
    for ev in range(p["events"]):
        # reading before new data arrives
        q = (rng.randn(4, d) * 3).astype(dt)
        if rng.rand() < 0.7:
            nz(torch.as_tensor(q), update=False)
            nz.std
        B = int(rng.choice([1, 1, 2, 30]))
        rows = (rng.randn(B, d) + p["jump"] * rng.choice([-1, 1, 1])).astype(dt)
        if rng.rand() < 0.5:
            nz.experience(torch.as_tensor(rows))
        else:
            q = rows
            nz(torch.as_tensor(rows))
        add(rows)
        m = sx / n
        v = sxx / n - m * m
        am, av = am + B / n * p["jump"], av + B / n * p["jump"] ** 2
        gm, gs = nz.mean.numpy().astype(np.float64), nz.std.numpy().astype(np.float64)
        obs.require(int(nz.count) == n, lambda: "count %d after %d samples" % (int(nz.count), n))
        # what this batch contributes is far above rounding
        um = 5e-7 * (1 + am) if p["f64"] else 3e-6 * (1 + am) * (1 + ev)
        uv = 5e-7 * (1 + av) if p["f64"] else 3e-5 * (1 + av) * (1 + ev)
        obs.require(bool(np.all(np.abs(gm - m) <= um)), lambda: "mean %s, of the %d samples seen %s" % (gm, n, m))
        obs.require(bool(np.all(np.abs(gs**2 - v) <= uv)), lambda: "variance %s, of the %d samples seen %s" % (gs**2, n, v))
        x = torch.as_tensor(q)
        want = (q.astype(np.float64) - gm) / np.sqrt(gs**2 + p["eps"])
        y = nz(x, update=False).numpy()
        tol = (1e-9 if p["f64"] else 2e-6) * (1 + np.abs(want) + np.abs(q) + np.abs(gm))
        if p["f64"]:
            # eps and the cached reciprocals may be kept in single precision
            tol = tol + 1e-6 * np.abs(want)
        obs.require(bool(np.all(np.abs(y - want) <= tol)), lambda: "output %s instead of %s" % (y.ravel()[:4], want.ravel()[:4]))
        back = nz.inverse(torch.as_tensor(y)).numpy()
        obs.require(np.allclose(back, q, rtol=1e-5, atol=1e-4), "inverse does not recover the input")
        obs.n("late_batches")
    obs.sig("long", p["pre"], d, p["jump"], p["f64"])


def gen_agent(rng, tier):
    return dict(name=str(rng.choice(["PPO", "TRPO"])), recurrent=bool(rng.rand() < 0.4), envs=int(rng.choice([1, 2, 3, 6])),
                clip=[None, 5.0, 0.7][rng.randint(3)], interval=int(rng.choice([8, 15])), steps=60, prog=int(rng.randint(2**31)))


def check_agent(p, obs):
    import pfrl

    nz = pfrl.nn.EmpiricalNormalization(V.OBS, clip_threshold=p["clip"])
    h = V.make(p["name"], seed=p["prog"] % 997, recurrent=p["recurrent"], num_envs=p["envs"], batch=5, update_interval=p["interval"],
               extra=dict(obs_normalizer=nz))
    ag = h.agent
    rng = np.random.RandomState(p["prog"])
    s = V.Stream(p["envs"], p["prog"] % 1000, 0.1, 0.08)
    rows, used = [], 0
    mod = getattr(ag, "policy", None) or ag.model
    first = [m for m in mod.modules() if isinstance(m, torch.nn.Linear)][0]
    seen = []
    first.register_forward_hook(lambda m, i, o: seen.append(i[0].detach().clone()))

    def norm(o):
        m, sd = nz.mean.numpy().astype(np.float64), nz.std.numpy().astype(np.float64)
        y = (np.array(o, np.float64) - m) / np.sqrt(sd**2 + 1e-2)
        return y if p["clip"] is None else np.clip(y, -p["clip"], p["clip"])

    def act(os_):
        seen.clear()
        s0 = state(nz)
        ag.batch_act(os_)
        obs.require(state(nz) == s0, "acting changed the normaliser")
        got = [x.numpy() for x in seen if x.numel() == len(os_) * V.OBS]
        want = norm(os_)
        obs.require(any(np.allclose(g.reshape(want.shape), want, atol=1e-4) for g in got), "the model did not receive the normalised observations")

    for t in range(p["steps"]):
        if rng.rand() < 0.1:
            with ag.eval_mode():
                s0 = state(nz)
                for _ in range(4):
                    o = [rng.randn(V.OBS).astype(np.float32) * 3 for _ in range(p["envs"])]
                    act(o)
                    ag.batch_observe(o, [1.0] * p["envs"], [False] * p["envs"], [False] * p["envs"])
                ag.batch_observe(o, [1.0] * p["envs"], [True] * p["envs"], [True] * p["envs"])
                obs.require(state(nz) == s0, "evaluation changed the normaliser")
        act(s.obs)
        rows += [np.array(o) for o in s.obs]
        o, r, d, e = s.step()
        c0 = int(nz.count)
        st0 = state(nz)
        ag.batch_observe(o, r, d, e)
        s.begin(o, d, e)
        c1 = int(nz.count)
        if c1 == c0:
            obs.require(state(nz) == st0, "statistics changed without new data")
        else:
            obs.require(c1 == len(rows), lambda: "%d samples in the normaliser after %d training observations" % (c1, len(rows)))
            x = np.array(rows, np.float64)
            obs.require(np.allclose(nz.mean.numpy(), x.mean(axis=0), atol=1e-5) and np.allclose(nz.std.numpy(), x.std(axis=0), atol=1e-4),
                        "statistics are not those of the training observations")
            obs.n("updates")
            used += 1
    obs.require(used >= 2 if p["envs"] * p["steps"] > 4 * p["interval"] else True, "the normaliser was never updated")
    obs.sig(p["name"], p["recurrent"], p["envs"], p["clip"])


KINDS = [
    Kind("module", gen_mod, check_mod, 600, 6000),
    Kind("long", gen_long, check_long, 24, 300),
    Kind("agent", gen_agent, check_agent, 50, 500),
]
