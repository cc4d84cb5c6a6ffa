"""C14: evaluation mode is greedy and leaves the agent untouched."""
import copy
import random

import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V
from vlib import rb
from vlib.stats import chi2_fit

LEVEL = "exploration"
RULE = (
    "twin: two identically seeded agents get the identical training stream; one of them is "
    "additionally evaluated at random moments (alone or batched, several episodes, nested or "
    "left by an exception) with the global random state restored afterwards. All training "
    "actions, parameters, buffers, optimizer states, statistics, module modes and replay data "
    "of both must be equal to the bit, immediately after every evaluation and at the end. Every "
    "evaluation action is compared with the greedy action / mode of an independent copy of the "
    "network in evaluation mode. Networks contain a probe layer that keeps running statistics "
    "and perturbs its output in training mode. sampled: actions of stochastic agents in "
    "evaluation mode are compared with the policy's probabilities. distinct_nontrivial counts "
    "distinct (agent, recurrent, environments, probe, evaluation styles seen)."
)

SINGLE_STEP = ("A3C", "ACER", "ACERcont", "REINFORCE")
NAMES = V.VALUE_AGENTS + V.AC_AGENTS * 2 + V.ONPOLICY_BATCH * 3 + V.ASYNC * 2 + V.SINGLE * 2
STOCH = ["A2C", "PPO", "TRPO", "A3C", "ACER", "ACERcont", "REINFORCE", "SAC", "IQN"]


def gen(rng, tier):
    name = NAMES[rng.randint(len(NAMES))]
    return dict(
        name=name,
        recurrent=bool(name in V.RECURRENT_OK and rng.rand() < 0.4),
        envs=1 if name in SINGLE_STEP else int(rng.choice([1, 2, 3])),
        probe=bool(rng.rand() < 0.6),
        det=bool(rng.rand() < 0.7),
        discrete=bool(rng.rand() < 0.6),
        norm=bool(rng.rand() < 0.5),
        explorer=str(rng.choice(["eps", "decay", "ou"])),
        steps=int(rng.choice([20, 45, 80])),
        p_eval=float(rng.choice([0.05, 0.15, 0.4])),
        prioritized=bool(rng.rand() < 0.3),
        n_step=int(rng.choice([1, 3])),
        backsep=bool(rng.rand() < 0.5),
        prog=int(rng.randint(2**31)),
    )


def build(p):
    import pfrl

    name = p["name"]
    cfg = dict(recurrent=p["recurrent"], probe=p["probe"], explorer=p["explorer"], replay_start=12,
               batch=5, target_interval=7, discrete=p["discrete"], num_envs=p["envs"],
               n_step=p["n_step"],
               prioritized=p["prioritized"] and name in V.VALUE_AGENTS)
    if name in ("PPO", "TRPO"):
        cfg["batch"] = 6
        cfg["update_interval"] = 15
    extra = dict(p.get("extra") or {})
    if name in STOCH:
        extra["act_deterministically"] = p["det"]
    if name in ("PPO", "TRPO") and p["norm"]:
        extra["obs_normalizer"] = pfrl.nn.EmpiricalNormalization(V.OBS, clip_threshold=5)
    if name == "REINFORCE":
        extra["backward_separately"] = p["backsep"]
        cfg["batch"] = 3
    cfg["extra"] = extra
    if p.get("opt"):
        cfg["opt"] = p["opt"]
    return V.make(name, seed=None if p["prog"] is None else p["prog"] % 997, **cfg)


def rng_get():
    return random.getstate(), np.random.get_state(), torch.get_rng_state()


def rng_set(s):
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])


def bits(x):
    if isinstance(x, torch.Tensor):
        a = x.detach().numpy()
        return (str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return tuple((str(k), bits(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0])))
    if isinstance(x, (list, tuple)):
        return tuple(bits(v) for v in x)
    return repr(x)


MODULES = ("model", "target_model", "policy", "target_policy", "q_function", "target_q_function",
           "q_func1", "q_func2", "target_q_func1", "target_q_func2", "shared_model",
           "shared_average_model", "vf", "obs_normalizer")


def modules(h):
    out = [("given%d" % i, m) for i, m in enumerate(h.models)]
    for a in MODULES:
        m = getattr(h.agent, a, None)
        if isinstance(m, torch.nn.Module):
            out.append((a, m))
    return out


def optims(h):
    return [(k, v) for k, v in sorted(vars(h.agent).items()) if isinstance(v, torch.optim.Optimizer)]


def snapshot(h):
    s = {}
    for nm, m in modules(h):
        for k, v in m.state_dict().items():
            s["%s.%s" % (nm, k)] = bits(v)
        s[nm + " modes"] = tuple(x.training for x in m.modules())
        s[nm + " gradients"] = tuple(None if q.grad is None else bits(q.grad) for q in m.parameters())
    for nm, o in optims(h):
        s["optimizer " + nm] = bits(o.state_dict())
    s["statistics"] = repr(h.agent.get_statistics())
    s["training flag"] = h.agent.training
    if h.buf is not None:
        s["memory size"] = len(h.buf)
    return s


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def contents(h):
    st = rng_get()
    try:
        if hasattr(h.buf, "sample_episodes"):
            got = h.buf.sample_episodes(h.buf.n_episodes) if h.buf.n_episodes else []
        else:
            got = rb.sample_all(h.buf)
        key = ("state", "action", "reward", "next_state", "is_state_terminal")
        return sorted(repr([[(k, np.asarray(t[k]).tolist()) for k in key] for t in e]) for e in got)
    finally:
        rng_set(st)


class Oracle:
    """What an independent copy of the network would do in evaluation mode."""

    def __init__(self, h, p):
        self.h, self.p = h, p
        ag = h.agent
        self.norm = copy.deepcopy(getattr(ag, "obs_normalizer", None))
        m = ag.policy if h.name in ("DDPG", "TD3", "SAC", "TRPO") else ag.model
        self.m = copy.deepcopy(m)
        self.m.eval()

    def check(self, obs_list, acts, obs, taus):
        h, p = self.h, self.p
        if h.name == "IQN" and p["det"] and taus:
            t = taus[-1].double().numpy()
            want = np.linspace(0, 1, t.shape[-1])
            obs.require(t.shape[0] == len(acts) and np.allclose(t, want[None], atol=1e-5),
                        lambda: "IQN set to act deterministically uses the quantile thresholds %s" % t.tolist())
            obs.n("iqn_thresholds", t.size)
        if p["recurrent"] or (h.name in STOCH and not p["det"] and h.name != "IQN"):
            return
        x = torch.tensor(np.array(obs_list, dtype=np.float32))
        with torch.no_grad():
            if self.norm is not None:
                x = self.norm(x, update=False)
            out = self.m(x)
            if h.name == "IQN":
                if not taus:
                    return
                out = out(taus[-1])
                q = out.quantiles.double().mean(1).numpy()
            elif h.name in V.VALUE_AGENTS:
                q = out.q_values.double().numpy()
            elif h.name in ("DDPG", "TD3"):
                want = out.mean.numpy() if hasattr(out, "mean") else out.sample().numpy()
                obs.require(np.allclose(np.array(acts), want, atol=1e-5),
                            lambda: "%s in evaluation mode acts %s, its policy says %s" % (
                                h.name, np.array(acts).tolist(), want.tolist()))
                obs.n("greedy_checks", len(acts))
                return
            elif h.name == "SAC":
                base = out.base_dist
                base = getattr(base, "base_dist", base)
                want = np.tanh(base.loc.numpy())
                obs.require(np.allclose(np.array(acts), want, atol=1e-5),
                            lambda: "SAC in evaluation mode acts %s, mode is %s" % (
                                np.array(acts).tolist(), want.tolist()))
                obs.n("greedy_checks", len(acts))
                return
            else:
                d = out[0] if isinstance(out, tuple) else out
                if h.discrete:
                    q = d.probs.double().numpy()
                else:
                    want = d.mean.numpy()
                    obs.require(np.allclose(np.array(acts), want, atol=1e-5),
                                lambda: "%s set to act deterministically acts %s, mode is %s" % (
                                    h.name, np.array(acts).tolist(), want.tolist()))
                    obs.n("greedy_checks", len(acts))
                    return
        for i, a in enumerate(acts):
            obs.require(q[i][int(a)] >= q[i].max() - 1e-5,
                        lambda: "%s in evaluation mode chose action %d of %s" % (
                            h.name, int(a), q[i].tolist()))
            obs.n("greedy_checks")


class _Stop(Exception):
    pass


def evaluate(h, p, rng, obs, seen):
    before = snapshot(h)
    st = rng_get()
    orc = Oracle(h, p)
    taus = []
    hooks = []
    if h.name == "IQN":
        hooks.append(h.agent.model.phi.register_forward_pre_hook(lambda m, a: taus.append(a[0].detach().clone())))
    style = int(rng.randint(4))
    k = 1 if not h.batch else int(rng.choice([1, 2, 5]))
    if p["recurrent"] and h.batch:
        # one agent is evaluated on one set of environments
        k = [1, 2, 5][p["prog"] % 3]
    if p["name"] == "A2C" and rng.rand() < 0.5:
        k = p["envs"]
    n = int(rng.choice([1, 3, 9]))
    es = V.Stream(k, int(rng.randint(2**31)), 0.2, 0.2)

    def run():
        for j in range(n):
            given = [o.copy() for o in es.obs]
            if k == 1 and (style % 2 or not h.batch):
                acts = [h.agent.act(es.obs[0])]
            else:
                acts = h.agent.batch_act(es.obs)
            obs.require(len(acts) == k, "evaluation returned %d actions for %d observations" % (len(acts), k))
            orc.check(given, acts, obs, taus)
            o, r, d, e = es.step()
            e = [x or j == n - 1 for x in e]
            if k == 1 and (style % 2 or not h.batch):
                h.agent.observe(o[0], r[0], d[0], e[0])
            else:
                h.agent.batch_observe(o, r, d, e)
            es.begin(o, d, e)
            obs.n("evaluation_steps", k)

    if style == 0:
        with h.agent.eval_mode():
            with h.agent.eval_mode():
                run()
            obs.require(h.agent.training is False, "leaving a nested eval_mode switched to training mode")
    elif style == 1:
        try:
            with h.agent.eval_mode():
                run()
                raise _Stop()
        except _Stop:
            pass
    else:
        with h.agent.eval_mode():
            run()
    for x in hooks:
        x.remove()
    rng_set(st)
    d = diff(before, snapshot(h))
    obs.require(not d, lambda: "%s: evaluation changed %s" % (h.name, d[:4]))
    obs.n("evaluations")
    seen.add((style, k > 1))


def run(p, with_eval, obs, seen):
    h = build(p)
    random.seed(p["prog"])
    np.random.seed(p["prog"] % 2**32)
    torch.manual_seed(p["prog"])
    rng = np.random.RandomState(p["prog"] ^ 0x5A5A)
    E = p["envs"]
    s = V.Stream(E, p["prog"] + 1, 0.1, 0.0 if p["name"] == "A2C" else 0.07)
    trace = []
    for step in range(p["steps"]):
        if rng.rand() < p["p_eval"] and with_eval:
            evaluate(h, p, np.random.RandomState((p["prog"] + step) % 2**31), obs, seen)
        if h.batch:
            acts = h.agent.batch_act(s.obs)
        else:
            acts = [h.agent.act(s.obs[0])]
        trace.append(bits(np.array(acts)))
        # evaluation may also happen between acting and observing nowhere in pfrl
        o, r, d, e = s.step()
        if h.batch:
            h.agent.batch_observe(o, r, d, e)
        else:
            h.agent.observe(o[0], r[0], d[0], e[0])
        s.begin(o, d, e)
        if with_eval and step % 10 == 9:
            obs.n("training_steps", 10 * E)
    if with_eval and rng.rand() < 0.7:
        evaluate(h, p, np.random.RandomState((p["prog"] + 9999) % 2**31), obs, seen)
    return h, trace


def twin(p, obs):
    seen = set()
    ha, ta = run(p, False, obs, seen)
    hb, tb = run(p, True, obs, seen)
    for i, (a, b) in enumerate(zip(ta, tb)):
        obs.require(a == b, lambda: "%s: training action %d differs after evaluations" % (p["name"], i))
    d = diff(snapshot(ha), snapshot(hb))
    obs.require(not d, lambda: "%s: after training with evaluations %s differ" % (p["name"], d[:4]))
    if ha.buf is not None:
        obs.require(contents(ha) == contents(hb), "%s: evaluations changed the replay data" % p["name"])
    if seen:
        obs.sig(p["name"], p["recurrent"], p["envs"], p["probe"], sorted(seen))


def gen_s(rng, tier):
    p = gen(rng, tier)
    p["name"] = ["A2C", "PPO", "TRPO", "A3C", "ACER", "REINFORCE"][rng.randint(6)]
    p.update(recurrent=False, discrete=True, det=False, envs=1, norm=False)
    p["draws"] = 4000 if tier == "quick" else 20000
    return p


def sampled(p, obs):
    h = build(p)
    orc = Oracle(h, p)
    o = np.random.RandomState(p["prog"]).uniform(-2, 2, V.OBS).astype(np.float32)
    with torch.no_grad():
        out = orc.m(torch.tensor(o[None]))
        d = out[0] if isinstance(out, tuple) else out
        probs = d.probs[0].double().numpy()
    cnt = np.zeros(V.NACT)
    with h.agent.eval_mode():
        if h.batch:
            for _ in range(4):
                for a in h.agent.batch_act([o] * (p["draws"] // 4)):
                    cnt[int(a)] += 1
        else:
            for _ in range(p["draws"]):
                cnt[int(h.agent.act(o))] += 1
    stat, thr = chi2_fit(cnt, probs, cnt.sum())
    obs.require(stat <= thr, lambda: "%s in evaluation mode: action counts %s, policy %s" % (
        p["name"], cnt.tolist(), probs.tolist()))
    obs.n("evaluation_steps", int(cnt.sum()))
    obs.sig("sampled", p["name"], p["probe"])


KINDS = [Kind("twin", gen, twin, 260, 5000), Kind("sampled", gen_s, sampled, 24, 300)]
