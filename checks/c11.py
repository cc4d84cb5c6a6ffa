"""C11: off-policy actor-critic updates apply the documented gradients."""
import copy

import numpy as np
import torch
from torch import nn

from vlib.core import Kind, Violation
from vlib import agents as V
from vlib import stats

LEVEL = "exploration"
RULE = (
    "Each case trains DDPG, TD3 or soft actor-critic (deterministic, Gaussian or "
    "squashed policies whose noise is recorded; n-step memory; clipping; fixed or "
    "learned temperature) on scripted experience. Hooks on every optimizer record "
    "all parameters and gradients around each step; each is compared with a "
    "float64 reference of the documented loss of that component. "
    "distinct_nontrivial counts distinct (algorithm, policy, n, clipping, "
    "temperature, batch, terminal mix) among verified updates."
)
ASSUMPTIONS = ["relative tolerance 2e-3 on gradients (float32 code against float64 reference)"]


class RecDist(torch.distributions.Distribution):
    """Gaussian or squashed Gaussian whose noise is recorded."""

    arg_constraints = {}

    def __init__(self, mean, log_scale, squash, log):
        self.m, self.ls, self.squash, self.log = mean, log_scale, squash, log
        self.cache = {}
        super().__init__(mean.shape[:1], mean.shape[1:], validate_args=False)

    def rsample(self, sample_shape=torch.Size()):
        eps = torch.randn_like(self.m)
        self.log.append(("eps", torch.is_grad_enabled(), eps.detach().double().numpy().copy()))
        x = self.m + torch.exp(self.ls) * eps
        a = torch.tanh(x) if self.squash else x
        self.cache[id(a)] = (a, x)
        return a

    def sample(self, sample_shape=torch.Size()):
        with torch.no_grad():
            return self.rsample()

    def log_prob(self, a):
        if self.squash:
            x = self.cache[id(a)][1] if id(a) in self.cache else torch.atanh(a)
        else:
            x = a
        z = (x - self.m) / torch.exp(self.ls)
        lp = (-0.5 * z * z - self.ls - 0.5 * np.log(2 * np.pi)).sum(1)
        if self.squash:
            lp = lp - (2 * (np.log(2) - x - torch.nn.functional.softplus(-2 * x))).sum(1)
        return lp

    def entropy(self):
        if self.squash:
            raise NotImplementedError
        return (self.ls + 0.5 * (1 + np.log(2 * np.pi))).sum(1)


class RecHead(nn.Module):
    def __init__(self, squash, log):
        super().__init__()
        self.squash, self.log = squash, [log]

    def __deepcopy__(self, memo):
        return RecHead(self.squash, self.log[0])

    def forward(self, x):
        m, ls = torch.chunk(x, 2, dim=1)
        return RecDist(m, torch.clamp(ls, -3.0, 1.0), self.squash, self.log[0])


class Probe(nn.Module):
    """Identity that records the mode in which it is evaluated."""

    def __init__(self, log):
        super().__init__()
        self.log = [log]

    def __deepcopy__(self, memo):
        m = Probe(self.log[0])
        m.training = self.training
        return m

    def forward(self, x):
        self.log[0].append(("mode", id(self), self.training, torch.is_grad_enabled()))
        return x


def gen(rng, tier):
    name = ["DDPG", "TD3", "SAC"][rng.randint(3)]
    pol = str(rng.choice(["det", "gauss", "squash"])) if name != "SAC" else str(
        rng.choice(["gauss", "squash"]))
    return dict(
        name=name, pol=pol, n_step=int(rng.choice([1, 1, 2, 3, 5, 11])),
        gamma=float(rng.choice([0.0, 0.5, 0.9, 0.99, 1.0])),
        batch=int(rng.choice([1, 2, 5, 9])), envs=int(rng.choice([1, 2, 3, 6])),
        max_grad=[None, None, 0.05, 5.0][rng.randint(4)],
        tau=float(rng.choice([0.01, 0.3, 1.0])), delay=int(rng.choice([1, 2, 3])),
        smooth=str(rng.choice(["own", "own", "default"])),
        n_times=int(rng.choice([1, 1, 2])),
        temp=[None, -1.0, 0.7][rng.randint(3)], temp0=float(rng.choice([0.2, 1.0, 3.0])),
        temp_lr=[None, 0.05][rng.randint(2)],
        scale=float(rng.choice([0.3, 1.0, 3.0])),
        p_done=float(rng.choice([0.05, 0.3])), p_reset=float(rng.choice([0.0, 0.1])),
        phi=bool(rng.rand() < 0.3), updates=10 if tier == "quick" else 25,
        prog=int(rng.randint(2**31)))


class Tie(Exception):
    pass


def key(r):
    return tuple(np.round(np.asarray(r, dtype=np.float32), 5))


def check(p, obs, watch=None):
    from pfrl import replay_buffers as R

    name = p["name"]
    log, modes = [], []
    torch.manual_seed(p["prog"] % 1009)

    def pol():
        if p["pol"] == "det":
            import pfrl
            return nn.Sequential(V.mlp(V.OBS, V.ADIM), nn.Tanh(), Probe(modes),
                                 pfrl.policies.DeterministicHead())
        return nn.Sequential(V.mlp(V.OBS, 2 * V.ADIM), Probe(modes), RecHead(p["pol"] == "squash", log))

    def q():
        import pfrl
        return nn.Sequential(pfrl.nn.ConcatObsAndAction(), V.mlp(V.OBS + V.ADIM, 1), Probe(modes))

    nets = (pol(), q()) if name == "DDPG" else (pol(), q(), q())
    ups = []
    box = {}

    class Rec(R.ReplayBuffer):
        def sample(self, n):
            r = super().sample(n)
            if ups:
                ups[-1]["end"] = snap()
            ups.append(dict(exps=copy.deepcopy(r), start=snap(), steps=[], log=None))
            del log[:]
            return r

    sgn = -1.0 if p["phi"] else 1.0
    extra = dict(soft_update_tau=p["tau"], phi=(lambda x: -x) if p["phi"] else (lambda x: x))
    if name == "DDPG":
        extra.update(target_update_method="soft")
    else:
        extra["max_grad_norm"] = p["max_grad"]
    if name == "TD3":
        extra["policy_update_delay"] = p["delay"]
        if p["smooth"] == "own":
            def smooth(a):
                e = 0.3 * torch.randn_like(a)
                log.append(("smooth", torch.is_grad_enabled(), e.double().numpy().copy()))
                return torch.clamp(a + e, -0.9, 0.9)
            extra["target_policy_smoothing_func"] = smooth
    if name == "SAC":
        extra.update(act_deterministically=False, entropy_target=p["temp"], initial_temperature=p["temp0"],
                     temperature_optimizer_lr=p["temp_lr"])
    h = V.make(name, seed=p["prog"] % 1000, model=nets, buffer=Rec(300, num_steps=p["n_step"]),
               batch=p["batch"], replay_start=max(p["batch"], 6), update_interval=1, gamma=p["gamma"],
               target_interval=3, n_times=p["n_times"], opt="sgd", lr=p.get("lr", 0.03), extra=extra)
    ag = h.agent
    comp = dict(pi=nets[0], q1=nets[1])
    if name == "DDPG":
        comp.update(tpi=ag.target_model[0], tq1=ag.target_model[1])
        opts = dict(pi=ag.actor_optimizer, q1=ag.critic_optimizer)
    else:
        comp.update(q2=nets[2], tq1=ag.target_q_func1, tq2=ag.target_q_func2)
        opts = dict(pi=ag.policy_optimizer, q1=ag.q_func1_optimizer, q2=ag.q_func2_optimizer)
        if name == "TD3":
            comp["tpi"] = ag.target_policy
        elif ag.temperature_holder is not None:
            comp["temp"] = ag.temperature_holder
            opts["temp"] = ag.temperature_optimizer

    def snap():
        return {c: {k: v.detach().clone() for k, v in m.state_dict().items()} for c, m in comp.items()}

    def hook(c):
        def pre(o, a, k):
            if not ups:
                raise Violation("the optimizer stepped without a sampled batch")
            g = {n: None if x.grad is None else x.grad.detach().double().clone()
                 for n, x in comp[c].named_parameters()}
            ups[-1]["steps"].append(dict(c=c, before=snap(), grads=g, nlog=len(log)))

        def post(o, a, k):
            ups[-1]["steps"][-1]["after"] = snap()
            ups[-1]["log"] = list(log)

        opts[c].register_step_pre_hook(pre)
        opts[c].register_step_post_hook(post)

    for c in opts:
        hook(c)
    for c in comp:
        if c == "temp":
            continue

        def fw(m, a, c=c):
            x = a[0]
            if isinstance(x, (tuple, list)):
                log.append(("fw", c, torch.is_grad_enabled(), x[0].detach().double().numpy().copy(),
                            x[1].detach().double().numpy().copy()))
            else:
                log.append(("fw", c, torch.is_grad_enabled(), x.detach().double().numpy().copy(), None))

        comp[c].register_forward_pre_hook(fw)
    ref = {c: copy.deepcopy(m).double() for c, m in comp.items()}
    tprobes = {id(x) for c in comp if c.startswith("t") and c != "temp"
               for x in comp[c].modules() if isinstance(x, Probe)}
    oprobes = {id(x): c for c in ("pi", "q1", "q2") if c in comp
               for x in comp[c].modules() if isinstance(x, Probe)}
    s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"], scale=p["scale"])
    total = verified = 0
    for step in range(p.get("max_steps", 300)):
        ag.batch_act(s.obs)
        nobs, rew, done, reset = s.step()
        del ups[:], modes[:]
        ag.batch_observe(nobs, rew, done, reset)
        s.begin(nobs, done, reset)
        for _, i, tr, gr in modes:
            if i in tprobes:
                obs.require(not tr, "a target network is evaluated in training mode")
            elif gr and i in oprobes:
                obs.require(tr, "loss of {} computed in evaluation mode".format(oprobes[i]))
        if ups:
            ups[-1]["end"] = snap()
        stop = False
        facts = []
        for u in ups:
            total += 1
            if max(float(v.abs().max()) for m in u["end"].values() for v in m.values()) > 20:
                stop = True
                break
            try:
                facts.append(verify(p, obs, u, ref, sgn, total, comp))
                verified += 1
            except Tie:
                obs.n("ties_skipped")
                stop = watch is not None
        if watch is not None and not stop:
            watch(ag, facts)
        if stop or verified >= p["updates"]:
            break
    obs.n("updates_verified", verified)
    obs.sample = dict(updates=verified, algo=name, policy=p["pol"])


def act_ref(p, net, s, eps):
    """(action, log prob) in float64 for one state."""
    if p["pol"] == "det":
        return net[1](net[0](s)), None
    m, ls = torch.chunk(net[0](s), 2)
    ls = torch.clamp(ls, -3.0, 1.0)
    e = torch.as_tensor(eps)
    x = m + torch.exp(ls) * e
    lp = (-0.5 * e * e - ls - 0.5 * np.log(2 * np.pi)).sum()
    # density of x as a function of the parameters, with x reparameterised
    if p["pol"] == "squash":
        lp = lp - torch.log1p(-torch.tanh(x) ** 2 + 1e-300).sum()
        return torch.tanh(x), lp
    return x, lp


def q_ref(net, s, a):
    return net[1](torch.cat([s, a]))[0]


def noise_after(log, c, grad, nxt=("eps",)):
    """Rows -> recorded noise of the last forward of component c."""
    out = None
    for i, ev in enumerate(log):
        if ev[0] == "fw" and ev[1] == c and ev[2] == grad:
            for e2 in log[i + 1:]:
                if e2[0] in nxt:
                    d = {}
                    for r, e in zip(ev[3], e2[2]):
                        d.setdefault(key(r), []).append(e)
                    out = d
                    break
    return out


def verify(p, obs, u, ref, sgn, count, comp):
    name, g = p["name"], p["gamma"]
    T = torch.as_tensor
    B = []
    for e in u["exps"]:
        B.append(dict(
            s=sgn * T(np.asarray(e[0]["state"], dtype=np.float64)),
            a=T(np.asarray(e[0]["action"], dtype=np.float64)),
            s2=sgn * T(np.asarray(e[-1]["next_state"], dtype=np.float64)),
            R=sum(g ** i * t["reward"] for i, t in enumerate(e)), disc=g ** len(e),
            keep=0.0 if e[-1]["is_state_terminal"] else 1.0))

    def load(sn):
        for c in ref:
            ref[c].load_state_dict(sn[c])
            ref[c].zero_grad()

    # --- which components stepped, in isolation
    want = ["pi", "q1"] + (["q2"] if name != "DDPG" else []) + (["temp"] if "temp" in comp else [])
    if name == "TD3" and count % p["delay"] != 0:
        want.remove("pi")
    got = sorted(st["c"] for st in u["steps"])
    obs.require(got == sorted(want), lambda: "optimizer steps {} expected {}".format(got, want))
    cur = u["start"]
    eq = lambda a, b: all(torch.equal(a[k], b[k]) for k in a)
    for st in u["steps"]:
        for c in comp:
            obs.require(eq(cur[c], st["before"][c]),
                        lambda: "{} changed outside its optimizer step".format(c))
            if c != st["c"]:
                obs.require(eq(st["before"][c], st["after"][c]),
                            lambda: "the step of {} changed {}".format(st["c"], c))
        cur = st["after"]
    sync = name == "SAC" or (name == "TD3" and count % p["delay"] == 0)
    for c in comp:
        if c.startswith("t") and c != "temp":
            if name == "DDPG":
                continue  # synchronised on its own clock (C09)
            if sync:
                for k in cur[c]:
                    w = (1 - p["tau"]) * cur[c][k].double() + p["tau"] * cur[c[1:]][k].double()
                    obs.require(torch.allclose(u["end"][c][k].double(), w, atol=1e-5),
                                lambda: "{} not moved by the soft update".format(c))
                continue
        if name == "DDPG" and c.startswith("t"):
            continue
        obs.require(eq(cur[c], u["end"][c]), lambda: "{} changed outside its step".format(c))
    # --- critic targets, with parameters at the start of the update
    log = u["log"]
    load(u["start"])
    tpi = "pi" if name == "SAC" else "tpi"
    eps_n = noise_after(log, tpi, False) if p["pol"] != "det" else None
    sm = noise_after(log, tpi, False, ("smooth",)) if name == "TD3" and p["smooth"] == "own" else None
    rec = [ev for ev in log if ev[0] == "fw" and ev[1] == "tq1"]
    if not rec:
        raise Violation("the targets were computed without the target critic")
    fed = {}
    for r, a in zip(rec[-1][3], rec[-1][4]):
        fed.setdefault(key(r), []).append(a)
    if name != "DDPG":
        rec2 = [ev for ev in log if ev[0] == "fw" and ev[1] == "tq2"]
        obs.require(rec2 and np.array_equal(rec[-1][4], rec2[-1][4]),
                    "twin target critics were given different actions")
    temp = p["temp0"]
    if "temp" in comp:
        temp = float(torch.exp(list(u["start"]["temp"].values())[0].double()))
    targets = []
    with torch.no_grad():
        for b in B:
            k2 = key(b["s2"].numpy())
            if k2 not in fed:
                obs.require(False, "target critic not evaluated at the next state")
            a2, lp = act_ref(p, ref[tpi], b["s2"], eps_n[k2].pop(0) if eps_n else None)
            f = T(fed[k2].pop(0))
            if name == "TD3":
                if sm is not None:
                    a2 = torch.clamp(a2 + T(sm[k2].pop(0)), -0.9, 0.9)
                else:
                    d = (f - torch.clamp(a2, -1.5, 1.5)).abs().max()
                    obs.require(float(f.abs().max()) <= 1.0001 and (
                        float(a2.abs().max()) > 1 or float(d) <= 0.5001),
                        "target smoothing noise outside its documented clip")
                    a2 = f
            obs.require(torch.allclose(a2, f, atol=1e-4),
                        lambda: "target action {} differs from the target policy's {}".format(f, a2))
            v = q_ref(ref["tq1"], b["s2"], a2)
            if name != "DDPG":
                v = torch.minimum(v, q_ref(ref["tq2"], b["s2"], a2))
            if name == "SAC":
                v = v - temp * lp
            targets.append(b["R"] + b["disc"] * b["keep"] * v)
    logp = None
    fact = dict(temperature=temp)
    for st in sorted(u["steps"], key=lambda x: x["c"] == "temp"):
        c = st["c"]
        load(st["before"])
        if c in ("q1", "q2"):
            qs = [q_ref(ref[c], b["s"], b["a"]) for b in B]
            loss = sum((x - t) ** 2 for x, t in zip(qs, targets)) / len(B)
            fact[c] = [float(x.detach()) for x in qs]
            if name == "SAC":
                loss = 0.5 * loss
        elif c == "pi":
            eps_p = noise_after(log, "pi", True) if p["pol"] != "det" else None
            tot = 0.0
            lps, vs, ents = [], [], []
            for b in B:
                ks = key(b["s"].numpy())
                if eps_p is not None and not eps_p.get(ks):
                    obs.require(False, "policy loss not computed at the sampled state")
                a, lp = act_ref(p, ref["pi"], b["s"], eps_p[ks].pop(0) if eps_p else None)
                v = q_ref(ref["q1"], b["s"], a)
                vs.append(float(v.detach()))
                if name == "SAC":
                    v2 = q_ref(ref["q2"], b["s"], a)
                    if abs(float(v.detach() - v2.detach())) < 2e-5:
                        raise Tie
                    v = torch.minimum(v, v2) - temp * lp
                    lps.append(float(lp.detach()))
                    if p["pol"] == "squash":
                        ents.append(-lps[-1])
                    else:
                        ls = torch.clamp(torch.chunk(ref["pi"][0](b["s"]), 2)[1], -3.0, 1.0)
                        ents.append(float((ls.detach() + 0.5 * (1 + np.log(2 * np.pi))).sum()))
                tot = tot - v
            loss = tot / len(B)
            logp = lps
            fact.update(pi=vs, entropy=ents)
        else:
            lt = list(ref["temp"].parameters())[0]
            loss = -torch.mean(torch.exp(lt) * (T(np.array(logp)) + p["temp"]))
        fact[c + "_loss"] = float(loss.detach())
        ps = dict(ref[c].named_parameters())
        gr = torch.autograd.grad(loss, list(ps.values()), allow_unused=True)
        want_g = {n: (torch.zeros_like(x) if d is None else d) for (n, x), d in zip(ps.items(), gr)}
        raw = max(float(x.abs().max()) for x in want_g.values())
        if p["max_grad"] is not None and name != "DDPG":
            norm = float(torch.sqrt(sum((x ** 2).sum() for x in want_g.values())))
            f = min(1.0, p["max_grad"] / (norm + 1e-12))
            want_g = {n: x * f for n, x in want_g.items()}
            raw *= f
        for n, x in want_g.items():
            y = st["grads"][n]
            y = torch.zeros_like(x) if y is None else y
            d = float((x - y).abs().max())
            obs.require(d <= 2e-3 * raw + 5e-6, lambda: "{}: gradient of {}.{} off by {:.3g} (largest {:.3g})".format(
                name, c, n, d, raw))
    terms = [b["keep"] == 0 for b in B]
    obs.sig(name, p["pol"], p["n_step"], p["max_grad"], p["temp"], p["batch"], any(terms), all(terms),
            p["smooth"] if name == "TD3" else "")
    if "temp" in comp:
        fact["temperature"] = float(torch.exp(list(u["end"]["temp"].values())[0].double()))
    return fact


# ------------------------------------------------ default target smoothing
def gen_smooth(rng, tier):
    return dict(n=20000, prog=int(rng.randint(2**31)))


def check_smooth(p, obs):
    from pfrl.agents import td3

    torch.manual_seed(p["prog"] % 2**31)
    f = td3.default_target_policy_smoothing_func
    x = f(torch.zeros(p["n"], 3)).double().numpy().ravel()
    obs.require(np.abs(x).max() <= 0.5, "noise beyond the clip")
    n = len(x)
    for lo, pr in ((0.0, 0.5), (0.2, 0.158655), (-0.2, 0.841345), (0.4, 0.02275), (0.499, 0.0063)):
        k = int((x > lo).sum())
        obs.require(stats.binom_ok(k, n, pr),
                    lambda: "P(noise>{}) = {} expected {}".format(lo, k / n, pr))
    y = f(torch.full((1000, 2), 0.95))
    obs.require(float(y.max()) <= 1.0 and float(f(torch.full((1000, 2), -0.95)).min()) >= -1.0,
                "smoothed actions leave [-1, 1]")
    a = torch.linspace(-1, 1, 400)[:, None]
    b = a.clone()
    z = f(a)
    obs.require(torch.equal(a, b) and float((z - a).abs().max()) <= 0.5 + 1e-6, "noise not additive")
    obs.n("smoothing_samples", n)
    obs.sig("smooth", p["prog"])


KINDS = [Kind("update", gen, check, 500, 5000), Kind("smoothing", gen_smooth, check_smooth, 4, 20)]
