"""C24: explorers explore with the configured probability and scale."""
import numpy as np
import torch

from vlib.core import Kind
from vlib.stats import binom_ok, chi2_fit
from vlib import agents as V

LEVEL = "exploration"
RULE = (
    "eps / boltzmann / gauss / ou: tens of thousands of select_action calls per configuration and "
    "time step on the real explorers; frequencies, conditional distributions, independence of "
    "consecutive choices and Kolmogorov-Smirnov distances of the noise are compared with the "
    "configured law (false-alarm rate below 1e-12), greedy actions and action values are compared "
    "to the bit before and after. agent: recording explorers inside every value-based and "
    "deterministic-policy agent see each environment's own greedy action, action values and the "
    "current step, and the agent executes what the explorer chose. distinct_nontrivial counts "
    "distinct (explorer, parameters, step regime)."
)
N = 20000


# -- epsilon greedy --------------------------------------------------------------

def gen_eps(rng, tier):
    k = str(rng.choice(["constant", "linear", "linear", "exp", "exp", "greedy"]))
    a, b = [float(x) for x in np.round(rng.choice([0.0, 1.0, rng.rand(), rng.rand() * 0.1], 2), 4)]
    if k == "exp" and a < b:
        a, b = b, a
    return dict(kind=k, start=a, end=b, steps=int(rng.choice([0, 1, 2, 10, 1000, 10**6])),
                decay=float(rng.choice([0.5, 0.9, 0.999, 0.99999])), prog=int(rng.randint(2**31)))


def epsilon(p, t):
    if p["kind"] == "greedy":
        return 0.0
    if p["kind"] == "constant":
        return p["start"]
    if p["kind"] == "linear":
        f = 1.0 if t >= p["steps"] else t / p["steps"]
        return p["start"] + (p["end"] - p["start"]) * f
    return max(p["start"] * p["decay"] ** t, p["end"])


def mk_eps(p, rand):
    from pfrl import explorers as X

    if p["kind"] == "greedy":
        return X.Greedy()
    if p["kind"] == "constant":
        return X.ConstantEpsilonGreedy(p["start"], rand)
    if p["kind"] == "linear":
        return X.LinearDecayEpsilonGreedy(p["start"], p["end"], p["steps"], rand)
    return X.ExponentialDecayEpsilonGreedy(p["start"], p["end"], p["decay"], rand)


def check_eps(p, obs):
    calls = [0, 0]
    ga = np.array([1.5, -2.5], np.float32)

    def rand():
        calls[0] += 1
        return ("random", calls[0])

    def greedy():
        calls[1] += 1
        return ga

    e = mk_eps(p, rand)
    rng = np.random.RandomState(p["prog"])
    s = p["steps"]
    ts = [0, 1, s // 2, s, s + 1, s * 10 + 3, int(rng.randint(0, s + 2))]
    if p["kind"] == "exp":
        h = int(np.log(0.5) / np.log(p["decay"]))
        ts = [0, 1, h, 3 * h, 100 * h]
    order = [int(ts[i]) for i in rng.permutation(len(ts))]
    for t in order:
        eps = epsilon(p, t)
        flags = np.zeros(N, bool)
        for j in range(N):
            c = list(calls)
            a = e.select_action(t, greedy)
            if a is ga:
                obs.n("greedy_choices")
                ok = calls == [c[0], c[1] + 1]
            else:
                flags[j] = True
                ok = a == ("random", calls[0]) and calls[0] == c[0] + 1
            if not ok:
                obs.require(False, "action %r is neither the greedy nor a fresh random one" % (a,))
        k = int(flags.sum())
        obs.require(binom_ok(k, N, eps), lambda: "%s at t=%d: %d of %d actions random, epsilon is %s" % (p, t, k, N, eps))
        pairs = int((flags[1:] & flags[:-1]).sum())
        q = eps * eps
        z = (pairs - N * q) / np.sqrt(3 * N * q * (1 - q) + 1)
        obs.require(abs(z) < 9, lambda: "random actions are not independent at t=%d" % t)
        if hasattr(e, "compute_epsilon"):
            obs.require(abs(e.compute_epsilon(t) - eps) < 1e-9, lambda: "epsilon(%d)=%s instead of %s" % (t, e.compute_epsilon(t), eps))
        obs.n("choices", N)
        obs.sig(p["kind"], p["start"], p["end"], t)
    obs.require(np.array_equal(ga, np.array([1.5, -2.5], np.float32)), "the greedy action was modified")


# -- schedule at many steps --------------------------------------------------------

def check_sched(p, obs):
    """Every t has its own probability: Poisson-binomial total over a whole decay."""
    e = mk_eps(p, lambda: 1)
    s = min(max(p["steps"], 1), 20000) if p["kind"] == "linear" else 20000
    if p["kind"] == "linear":
        p = dict(p, steps=s)
        e = mk_eps(p, lambda: 1)
    ts = np.arange(int(s * 1.3) + 5)
    f = np.array([e.select_action(int(t), lambda: 0) for t in ts])
    q = np.array([epsilon(p, int(t)) for t in ts])
    for lo in range(0, len(ts), max(1, len(ts) // 8)):
        hi = lo + max(1, len(ts) // 8)
        m, v = q[lo:hi].sum(), (q[lo:hi] * (1 - q[lo:hi])).sum()
        k = f[lo:hi].sum()
        obs.require(abs(k - m) <= 7.5 * np.sqrt(v) + 20 + 1e-6,
                    lambda: "%s steps %d..%d: %d random actions, expected %.1f" % (p, lo, hi, k, m))
    obs.require(np.all(f[q >= 1.0] == 1) and np.all(f[q <= 0.0] == 0), "certain choices were not certain")
    obs.n("choices", len(ts))
    obs.sig(p["kind"], p["start"], p["end"], s)


# -- Boltzmann ---------------------------------------------------------------------

def gen_boltz(rng, tier):
    return dict(T=float(rng.choice([0.1, 0.5, 1.0, 3.0, 100.0])), n=int(rng.choice([2, 3, 6, 18])), scale=float(rng.choice([0.1, 1, 5, 300])),
                quant=bool(rng.rand() < 0.3), prog=int(rng.randint(2**31)))


def check_boltz(p, obs):
    from pfrl import action_value as AV
    from pfrl import explorers as X

    rng = np.random.RandomState(p["prog"])
    q = (rng.randn(1, p["n"]) * p["scale"]).astype(np.float32)
    if p["quant"]:
        d = rng.randn(1, 5, 1).astype(np.float32)
        qt = torch.as_tensor(q[:, None, :] + (d - d.mean(axis=1, keepdims=True)))
        av = AV.QuantileDiscreteActionValue(qt)
    else:
        qt = torch.as_tensor(q.copy()).requires_grad_(bool(p["prog"] % 2))
        av = AV.DiscreteActionValue(qt)
    before = qt.detach().numpy().tobytes()
    e = X.Boltzmann(T=p["T"])
    q64 = av.q_values.detach().numpy()[0].astype(np.float64)
    z = q64 / p["T"]
    pr = np.exp(z - z.max())
    pr /= pr.sum()
    c = np.zeros(p["n"])
    for _ in range(N):
        a = e.select_action(int(rng.randint(100)), lambda: 0, action_value=av)
        c[int(a)] += 1
    obs.require(0 <= int(a) < p["n"], "not an action")
    stat, thr = chi2_fit(c, pr, N)
    obs.require(stat <= thr, lambda: "T=%s values %s: frequencies %s, probabilities %s" % (p["T"], q64, c / N, pr))
    obs.require(qt.detach().numpy().tobytes() == before, "the action values were modified")
    obs.n("choices", N)
    obs.sig("boltzmann", p["T"], p["n"], p["scale"])


# -- additive noise ------------------------------------------------------------------

def ks(x, cdf):
    x = np.sort(np.asarray(x, np.float64))
    n = len(x)
    F = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    return d, np.sqrt(np.log(2e13) / (2 * n))  # Dvoretzky-Kiefer-Wolfowitz, 1e-13


def ncdf(x, s):
    from math import erf
    return np.array([0.5 * (1 + erf(v / (s * 2**0.5))) for v in x])


def gen_gauss(rng, tier):
    d = int(rng.choice([1, 2, 4]))
    arr = bool(rng.rand() < 0.4)
    sc = [float(x) for x in np.round(rng.uniform(0.05, 2.0, d), 3)]
    bounds = str(rng.choice(["none", "both", "low", "high", "arrays"]))
    return dict(d=d, scale=sc if arr else sc[0], bounds=bounds, low=[float(x) for x in np.round(rng.uniform(-2, -0.1, d), 2)],
                high=[float(x) for x in np.round(rng.uniform(0.1, 2, d), 2)], prog=int(rng.randint(2**31)))


def check_gauss(p, obs):
    from pfrl import explorers as X

    d = p["d"]
    low = high = None
    if p["bounds"] in ("both", "low"):
        low = min(p["low"])
    if p["bounds"] in ("both", "high"):
        high = max(p["high"])
    if p["bounds"] == "arrays":
        low, high = np.array(p["low"], np.float32), np.array(p["high"], np.float32)
    sc = np.array(p["scale"]) if isinstance(p["scale"], list) else p["scale"]
    e = X.AdditiveGaussian(sc, low=low, high=high)
    rng = np.random.RandomState(p["prog"])
    g = rng.uniform(-1, 1, d).astype(np.float32)
    g0 = g.copy()
    n = N // 2
    out = np.zeros((n, d))
    for j in range(n):
        a = e.select_action(j, lambda: g)
        obs.require(a is not g and np.shape(a) == (d,), "shape of the action") if j < 5 else None
        out[j] = a
    obs.require(np.array_equal(g, g0), "the greedy action was modified")
    s = np.broadcast_to(np.asarray(sc, np.float64), (d,))
    for i in range(d):
        lo = -np.inf if low is None else float(np.broadcast_to(low, (d,))[i])
        hi = np.inf if high is None else float(np.broadcast_to(high, (d,))[i])
        x = out[:, i]
        obs.require(x.min() >= lo - 1e-6 and x.max() <= hi + 1e-6, lambda: "action outside [%s, %s]: %s..%s" % (lo, hi, x.min(), x.max()))
        nz = x - float(g0[i])
        a, b = lo - float(g0[i]), hi - float(g0[i])
        for edge, prob in ((a, ncdf([a], s[i])[0] if np.isfinite(a) else 0.0), (b, 1 - ncdf([b], s[i])[0] if np.isfinite(b) else 0.0)):
            if np.isfinite(edge):
                k = int((np.abs(nz - edge) < 1e-5).sum())
                obs.require(binom_ok(k, n, prob) or abs(k - n * prob) < 3, lambda: "%d of %d clipped, probability %s" % (k, n, prob))
        ins = nz[(nz > a + 1e-5) & (nz < b - 1e-5)]
        if len(ins) > 500:
            Fa = ncdf([a], s[i])[0] if np.isfinite(a) else 0.0
            Fb = ncdf([b], s[i])[0] if np.isfinite(b) else 1.0
            dist, thr = ks(ins, lambda v: (ncdf(v, s[i]) - Fa) / (Fb - Fa))
            obs.require(dist <= thr + 1e-3, lambda: "noise is not N(0, %s^2): distance %.4f (allowed %.4f)" % (s[i], dist, thr))
        free = nz[:-1], nz[1:]
        r = np.corrcoef(free)[0, 1] if np.std(nz) > 0 else 0.0
        obs.require(abs(r) < 8 / np.sqrt(n), lambda: "noise of consecutive steps is correlated: %.3f" % r)
        if i and p["bounds"] == "none":
            r = np.corrcoef(out[:, 0], out[:, i])[0, 1]
            obs.require(abs(r) < 8 / np.sqrt(n), lambda: "noise of dimensions is correlated: %.3f" % r)
    obs.n("choices", n)
    obs.sig("gauss", d, isinstance(p["scale"], list), p["bounds"])


def gen_ou(rng, tier):
    d = int(rng.choice([1, 2, 3]))
    return dict(d=d, mu=float(rng.choice([0.0, 0.7, -2.0])), theta=float(rng.choice([0.05, 0.15, 0.5, 1.0])),
                sigma=float(rng.choice([0.1, 0.3, 1.0])), arr=bool(rng.rand() < 0.3), start=bool(rng.rand() < 0.4),
                prog=int(rng.randint(2**31)))


def check_ou(p, obs):
    from pfrl import explorers as X

    d = p["d"]
    rng = np.random.RandomState(p["prog"])
    sig = np.full(d, p["sigma"]) * (1 + np.arange(d)) if p["arr"] else p["sigma"]
    s = np.broadcast_to(sig, (d,))
    firsts = []
    for rep in range(6000):
        e = X.AdditiveOU(mu=p["mu"], theta=p["theta"], sigma=sig, start_with_mu=p["start"])
        g = rng.uniform(-1, 1, d).astype(np.float32)
        firsts.append(np.asarray(e.select_action(0, lambda: g), np.float64) - g)
    firsts = np.array(firsts)
    if p["start"]:
        obs.require(np.all(np.abs(firsts - p["mu"]) < 1e-5), "did not start with mu")
    else:
        st = s / np.sqrt(2 * p["theta"] - p["theta"] ** 2)
        for i in range(d):
            dist, thr = ks(firsts[:, i] - p["mu"], lambda v: ncdf(v, st[i]))
            v = float(np.mean((firsts[:, i] - p["mu"]) ** 2)) / st[i] ** 2
            obs.require(abs(v - 1) < 10 * np.sqrt(2.0 / len(firsts)), lambda: "initial noise has %.3f times the stationary variance" % v)
            obs.require(dist <= thr + 1e-3, lambda: "initial noise is not stationary: distance %.4f (allowed %.4f)" % (dist, thr))
    n = N // 2
    e = X.AdditiveOU(mu=p["mu"], theta=p["theta"], sigma=sig, start_with_mu=p["start"])
    x = np.zeros((n, d))
    held = []
    for j in range(n):
        g = rng.uniform(-1, 1, d).astype(np.float32)
        g0 = g.copy()
        a = e.select_action(j, lambda: g)
        x[j] = np.asarray(a, np.float64) - g0
        if j < 50:
            held.append((a, np.array(a).copy()))
        if not np.array_equal(g, g0):
            obs.require(False, "the greedy action was modified")
    for a, w in held:
        obs.require(np.array_equal(a, w), "an action handed out earlier changed afterwards")
    inn = x[1:] - x[:-1] - p["theta"] * (p["mu"] - x[:-1])
    for i in range(d):
        dist, thr = ks(inn[:, i], lambda v: ncdf(v, s[i]))
        obs.require(dist <= thr + 1e-3, lambda: "increments are not N(0, %s^2): distance %.4f (allowed %.4f)" % (s[i], dist, thr))
        r = np.corrcoef(inn[:-1, i], inn[1:, i])[0, 1]
        obs.require(abs(r) < 8 / np.sqrt(n), lambda: "increments are correlated: %.3f" % r)
        r = np.corrcoef(inn[:, i], x[:-1, i])[0, 1]
        obs.require(abs(r) < 8 / np.sqrt(n), lambda: "increments depend on the state: %.3f" % r)
        if i:
            r = np.corrcoef(inn[:, 0], inn[:, i])[0, 1]
            obs.require(abs(r) < 8 / np.sqrt(n), lambda: "dimensions are correlated: %.3f" % r)
    obs.n("choices", n)
    obs.sig("ou", d, p["theta"], p["start"], p["arr"])


# -- inside agents -----------------------------------------------------------------

def gen_agent(rng, tier):
    names = V.VALUE_AGENTS + ["DDPG", "TD3"]
    return dict(name=names[rng.randint(len(names))], envs=int(rng.choice([1, 2, 4])), steps=30, off=int(rng.choice([0, 0, 50])),
                prog=int(rng.randint(2**31)))


def check_agent(p, obs):
    import pfrl

    rec = []
    rng = np.random.RandomState(p["prog"])
    cont = p["name"] in ("DDPG", "TD3")

    class Rec(pfrl.explorer.Explorer):
        def select_action(self, t, greedy_action_func, action_value=None):
            g = greedy_action_func()
            gc = np.array(g).copy()
            c = rng.uniform(-1, 1, gc.shape).astype(np.float32) if cont else int(rng.randint(V.NACT))
            vals = None
            if action_value is not None:
                vals = action_value.q_values.detach().numpy().copy()
            rec.append((int(t), gc, c, vals))
            return c

    h = V.make(p["name"], seed=p["prog"] % 997, num_envs=p["envs"], replay_start=5000, batch=4)
    if not hasattr(h.agent, "explorer"):
        raise RuntimeError("no explorer")
    h.agent.explorer = Rec()
    burn = getattr(h.agent, "burnin_action_func", None)
    if burn is not None:
        h.agent.burnin_action_func = None
    h.agent.t = p["off"]
    s = V.Stream(p["envs"], p["prog"] % 1000, 0.1, 0.1)
    seen = p["off"]
    for j in range(p["steps"]):
        n0 = len(rec)
        acts = h.agent.batch_act(s.obs)
        new = rec[n0:]
        if cont and len(new) == 0:
            obs.require(False, "the explorer was not asked")
        obs.require(len(new) == p["envs"], lambda: "%d choices for %d environments" % (len(new), p["envs"]))
        for i, (t, g, c, vals) in enumerate(new):
            obs.require(t == seen, lambda: "%s: explorer told step %d at step %d" % (p["name"], t, seen))
            obs.require(np.array_equal(np.asarray(acts[i]), np.asarray(c)), "the agent did not execute the explorer's choice")
            if vals is not None:
                obs.require(vals.shape[0] == 1, "explorer got the values of several environments")
                obs.require(vals[0][int(g)] >= vals[0].max() - 1e-6, "greedy action and action values do not match")
            obs.n("choices")
        # each environment's greedy action belongs to its own observation
        if not cont:
            with h.agent.eval_mode():
                if p["name"] != "IQN" and p["name"] != "DoubleIQN":
                    ref = [h.agent.batch_act([s.obs[i]])[0] for i in range(p["envs"])]
                    h.agent.batch_observe([s.obs[0]], [0.0], [False], [True])
                    obs.require([int(x[1]) for x in new] == [int(x) for x in ref],
                                lambda: "greedy actions %s, of each observation alone %s" % ([int(x[1]) for x in new], ref))
        else:
            with h.agent.eval_mode():
                ref = np.array([h.agent.batch_act([s.obs[i]])[0] for i in range(p["envs"])])
                h.agent.batch_observe([s.obs[0]], [0.0], [False], [True])
            obs.require(np.allclose(ref, np.array([x[1] for x in new]), atol=1e-5), "greedy actions of other observations")
        o, r, d, e = s.step()
        h.agent.batch_observe(o, r, d, e)
        s.begin(o, d, e)
        seen += p["envs"]
    check_actor(p, obs)
    obs.sig(p["name"], p["envs"], p["off"])


class NoPipe:
    """The learner's end: takes everything, acknowledges the end of an episode."""

    def send(self, x):
        self.last = x

    def recv(self):
        return None


def check_actor(p, obs):
    """The same for the acting process of actor-learner training, which counts its own steps."""
    import pfrl

    rec = []
    rng = np.random.RandomState(p["prog"])

    class Rec(pfrl.explorer.Explorer):
        def select_action(self, t, greedy_action_func, action_value=None):
            rec.append((int(t), int(greedy_action_func()), int(rng.randint(V.NACT)), action_value.q_values.detach().numpy().copy()))
            return rec[-1][2]

    m = torch.nn.Sequential(torch.nn.Linear(V.OBS, V.NACT), pfrl.q_functions.DiscreteActionValueHead())
    ag = pfrl.agents.StateQFunctionActor(NoPipe(), m, Rec())
    s = V.Stream(1, p["prog"] % 1000, 0.2, 0.2)
    seen = 0
    for j in range(p["steps"]):
        if rng.rand() < 0.2:
            with ag.eval_mode():
                a = ag.act(s.obs[0])
                ag.observe(s.obs[0], 0.0, False, True)
            with torch.no_grad():
                q = m(torch.as_tensor(np.array(s.obs[0], dtype=np.float32))[None]).q_values[0].numpy()
            obs.require(q[int(a)] >= q.max() - 1e-6, "the actor explores in evaluation mode")
        n0 = len(rec)
        a = ag.act(s.obs[0])
        obs.require(len(rec) == n0 + 1 and rec[-1][0] == seen, lambda: "actor: explorer told %s at step %d" % ([x[0] for x in rec[n0:]], seen))
        obs.require(int(a) == rec[-1][2], "the actor did not execute the explorer's choice")
        obs.require(rec[-1][3][0][rec[-1][1]] >= rec[-1][3][0].max() - 1e-6, "greedy action and action values of the actor do not match")
        o, r, d, e = s.step()
        ag.observe(o[0], r[0], d[0], e[0])
        s.begin(o, d, e)
        seen += 1
        obs.n("actor_choices")


KINDS = [
    Kind("eps", gen_eps, check_eps, 40, 400),
    Kind("sched", gen_eps, check_sched, 60, 600),
    Kind("boltzmann", gen_boltz, check_boltz, 24, 300),
    Kind("gauss", gen_gauss, check_gauss, 40, 400),
    Kind("ou", gen_ou, check_ou, 30, 300),
    Kind("agent", gen_agent, check_agent, 60, 600),
]
