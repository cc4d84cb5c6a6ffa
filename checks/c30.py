"""C30: updates of ACER."""
import copy

import numpy as np
import torch
import torch.nn.functional as F
from torch import nn

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "train: ACER (discrete, recurrent discrete, continuous) is driven through random histories of steps, terminals and "
    "resets with random settings; every optimizer step is intercepted and its gradient compared with that of a reference "
    "implementation of the documented objective fed with the history the harness saw, the sampled sub-episodes and the "
    "parameters at that time; the average model is followed exactly. heads: the action heads against their formulas. "
    "distinct_nontrivial counts distinct (settings, kind of update, active truncation, active trust region) combinations."
)
OBS, NACT, ADIM = 4, 3, 2


class RecNormal(torch.distributions.Normal):
    """Normal distribution that keeps its samples."""

    def __init__(self, loc, scale):
        super().__init__(loc, scale)
        self.kept = []

    def sample(self, sample_shape=torch.Size()):
        x = super().sample(sample_shape)
        self.kept.append(x)
        return x

    def rsample(self, sample_shape=torch.Size()):
        x = super().rsample(sample_shape)
        self.kept.append(x.detach())
        return x


class ContModel(nn.Module):
    """Continuous ACER model with a deterministic action value."""

    def __init__(self, seen):
        super().__init__()
        self.mu = nn.Sequential(nn.Linear(OBS, 8), nn.Tanh(), nn.Linear(8, ADIM))
        self.ls = nn.Sequential(nn.Linear(OBS, ADIM), nn.Softplus())
        self.v = nn.Sequential(nn.Linear(OBS, 8), nn.Tanh(), nn.Linear(8, 1))
        self.a = nn.Sequential(nn.Linear(OBS + ADIM, 8), nn.Tanh(), nn.Linear(8, 1))
        self.seen = seen

    def __deepcopy__(self, memo):
        m = ContModel(self.seen)
        m.load_state_dict(self.state_dict())
        return m

    def forward(self, x):
        import pfrl

        d = RecNormal(self.mu(x), self.ls(x) + 0.2)
        if self.seen is not None and torch.is_grad_enabled():
            self.seen.append((x.detach().numpy().copy(), d))
        v = self.v(x)
        return torch.distributions.Independent(d, 1), pfrl.action_value.SingleActionValue(lambda a: v + self.a(torch.cat([x, a], 1))), v


def build_model(kind, seen):
    import pfrl

    if kind == "cont":
        return ContModel(seen)
    pi = lambda n: nn.Sequential(nn.Linear(n, NACT), pfrl.policies.SoftmaxCategoricalHead())
    q = lambda n: nn.Sequential(nn.Linear(n, NACT), pfrl.q_functions.DiscreteActionValueHead())
    head = pfrl.agents.acer.ACERDiscreteActionHead
    if kind == "rec":
        return pfrl.nn.RecurrentSequential(nn.Linear(OBS, 6), nn.GRU(6, 5), head(pi(5), q(5)))
    return nn.Sequential(nn.Linear(OBS, 8), nn.Tanh(), head(pi(8), q(8)))


def gen(rng, tier):
    return dict(
        kind=str(rng.choice(["disc", "disc", "rec", "cont"])), t_max=int(rng.choice([1, 2, 4, 7])), gamma=float(rng.choice([0.5, 0.9, 1.0])),
        beta=float(rng.choice([0, 0.03, 0.3])), pi_coef=float(rng.choice([1, 0.3])), q_coef=float(rng.choice([0.5, 2.0])), trust=bool(rng.rand() < 0.6),
        alpha=float(rng.choice([0.5, 0.9, 0.99])), delta=float(rng.choice([0.01, 0.3, 1])), trunc=[None, 0.6, 1.0, 1.2, 10.0][rng.randint(5)],
        online=bool(rng.rand() < 0.8), replay=int(rng.choice([0, 1, 3])), start=int(rng.choice([5, 20])), normalize=bool(rng.rand() < 0.5),
        clip=[None, None, 0.05][rng.randint(3)], opc=bool(rng.rand() < 0.3), buffer=bool(rng.rand() < 0.9), lr=float(rng.choice([0.02, 0.1])),
        p_done=float(rng.choice([0.03, 0.15])), p_reset=float(rng.choice([0, 0.1])), steps=int(rng.choice([40, 90])), scale=float(rng.choice([1, 8])),
        prog=int(rng.randint(2**31)))


def mean_scale(d):
    return d.base_dist.loc, d.base_dist.scale


def logp_cont(x, loc, scale):
    return (-((x - loc) ** 2) / (2 * scale ** 2) - scale.log() - 0.5 * np.log(2 * np.pi)).sum()


def reference(p, model, steps, R, state0, obs, draws, kls=None):
    """Gradient of ACER's objective. steps: list of dict(obs, a, r, mu, avg). Returns (gradients, facts)."""
    cont = p["kind"] == "cont"
    outs = []
    h = state0
    for s in steps:
        x = torch.as_tensor(s["obs"]).reshape(1, -1)
        if p["kind"] == "rec":
            y, h = one(model, x, h)
            outs.append(y)
        else:
            outs.append(model(x))
    facts = set()
    pi_loss, q_loss = 0.0, 0.0
    qret = qopc = float(R)
    for i in reversed(range(len(steps))):
        s = steps[i]
        dist, av, v = outs[i]
        a = torch.as_tensor(s["a"])
        vf = float(v.detach().reshape(-1)[0])
        if cont:
            loc, scale = mean_scale(dist)
            params = [loc, scale]
            mu = s["mu"]
            lp = lambda x, P: logp_cont(x, P[0][0], P[1][0])
            lpm = (lambda x: logp_cont(x, mu[0], mu[1])) if mu is not None else None
            Q = av.evaluate_actions(a.reshape(1, -1)).reshape(())
            entropy = (0.5 + 0.5 * np.log(2 * np.pi) + scale.log()).sum()
        else:
            logits = F.log_softmax(dist.logits, 1)
            params = [logits]
            mu = s["mu"]
            lp = lambda x, P: P[0][0, int(x)]
            lpm = (lambda x: mu[int(x)]) if mu is not None else None
            Q = av.q_values[0, int(a)]
            entropy = -(logits.exp() * logits).sum()
        rho = 1.0 if mu is None else float(torch.exp(lp(a, params).detach() - lpm(a)))
        qret = s["r"] + p["gamma"] * qret
        qopc = s["r"] + p["gamma"] * qopc
        adv = (qopc if p["opc"] else qret) - vf
        # policy gradient with respect to the statistics of the distribution
        leaf = [x.detach().clone().requires_grad_() for x in params]
        g = 0.0
        if mu is None:
            g = -lp(a, leaf) * adv
        else:
            w = rho if p["trunc"] is None else min(p["trunc"], rho)
            if w != rho:
                facts.add("truncated")
            g = -w * lp(a, leaf) * adv
            if p["trunc"] is not None:
                if cont:
                    cand = draws(s["obs"])
                    if cand is not None:
                        x = cand.reshape(-1)
                        inv = float(torch.exp(lpm(x) - lp(x, leaf).detach()))
                        cw = max(0.0, 1 - p["trunc"] * inv)
                        if abs(1 - p["trunc"] * inv) < 1e-4:
                            return None, facts
                        if cw > 0:
                            facts.add("corrected")
                            q = float(av.evaluate_actions(x.reshape(1, -1)).detach())
                            g = g - cw * lp(x, leaf) * (q - vf)
                else:
                    pr = leaf[0].detach().exp()[0]
                    cw = torch.clamp(1 - p["trunc"] * torch.exp(mu - leaf[0].detach()[0]), min=0)
                    if float(cw.max()) > 0:
                        facts.add("corrected")
                    g = g - (cw * pr * (av.q_values[0].detach() - vf) * leaf[0][0]).sum()
        G = torch.autograd.grad(g, leaf)
        if p["trust"]:
            if kls is not None and not cont:
                kls.append(float((s["avg"].exp() * (s["avg"] - logits[0])).sum()))
            if cont:
                am, asc = s["avg"]
                l2 = [x.detach().clone().requires_grad_() for x in params]
                kl = ((asc ** 2 + (am - l2[0][0]) ** 2) / (2 * l2[1][0] ** 2) + l2[1][0].log() - asc.log() - 0.5).sum()
                K = [-x for x in torch.autograd.grad(kl, l2)]
                if kls is not None:
                    kls.append(float(kl.detach()))
            else:
                K = [s["avg"].exp().reshape(1, -1)]
            kg = float(sum((x * y).sum() for x, y in zip(K, G)))
            kk = float(sum((x * x).sum() for x in K))
            f = max(0.0, (kg - p["delta"]) / kk) if kk > 0 else 0.0
            if f > 0:
                facts.add("trust")
            G = [x - f * y for x, y in zip(G, K)]
        pi_loss = pi_loss + sum((x * y.detach()).sum() for x, y in zip(params, G)) - p["beta"] * entropy
        q_loss = q_loss + (qret - Q) ** 2 / 2
        Qf = float(Q.detach())
        if cont:
            vt = min(1.0, rho) * (qret - Qf) + vf
            q_loss = q_loss + (vt - v.reshape(())) ** 2 / 2
        c = min(1.0, rho ** (1.0 / ADIM) if cont else rho)
        qret = c * (qret - Qf) + vf
        qopc = qopc - Qf + vf
    loss = p["pi_coef"] * pi_loss + p["q_coef"] * q_loss
    if p["normalize"]:
        loss = loss / len(steps)
    ps = list(model.parameters())
    gr = torch.autograd.grad(loss, ps, allow_unused=True)
    gr = [torch.zeros_like(x) if g is None else g for x, g in zip(ps, gr)]
    if p["clip"] is not None:
        n = float(torch.sqrt(sum((g ** 2).sum() for g in gr)))
        if n > p["clip"]:
            facts.add("clipped")
            gr = [g * (p["clip"] / (n + 1e-6)) for g in gr]
    return gr, facts


def one(model, x, h):
    import pfrl

    return pfrl.utils.recurrent.one_step_forward(model, x, h)


def det(h):
    if h is None:
        return None
    if isinstance(h, torch.Tensor):
        return h.detach().clone()
    return type(h)(det(x) for x in h) if isinstance(h, (tuple, list)) else h


def check_train(p, obs):
    try:
        run_train(p, obs)
    except Diverged:
        obs.n("diverged")


def run_train(p, obs, watch=None):
    import pfrl
    from vlib import agents as V

    rng = np.random.RandomState(p["prog"])
    torch.manual_seed(p["prog"] % 2**31)
    cont = p["kind"] == "cont"
    seen = [] if cont else None
    model = build_model(p["kind"], seen)
    for x in model.parameters():
        x.data.mul_(1.7)
    events = []

    class Opt(torch.optim.SGD):
        def step(self, closure=None):
            events.append(("step", [x.detach().clone() for x in model.parameters()], [None if x.grad is None else x.grad.detach().clone() for x in model.parameters()],
                           {k: v.detach().clone() for k, v in agent.shared_average_model.state_dict().items()}, len(seen or [])))
            return super().step(closure)

    class Buf(pfrl.replay_buffers.EpisodicReplayBuffer):
        def sample_episodes(self, n, max_len=None):
            e = super().sample_episodes(n, max_len)
            events.append(("sample", [[dict(t) for t in x] for x in e], n, max_len))
            return e

    buf = Buf(10**4) if p["buffer"] else None
    opt = Opt(model.parameters(), lr=p["lr"])
    agent = pfrl.agents.ACER(
        model, opt, p["t_max"], p["gamma"], buf, beta=p["beta"], pi_loss_coef=p["pi_coef"], Q_loss_coef=p["q_coef"], use_trust_region=p["trust"],
        trust_region_alpha=p["alpha"], trust_region_delta=p["delta"], truncation_threshold=p["trunc"], disable_online_update=not p["online"],
        n_times_replay=p["replay"], replay_start_size=p["start"], normalize_loss_by_steps=p["normalize"], max_grad_norm=p["clip"],
        recurrent=p["kind"] == "rec", use_Q_opc=p["opc"], **(p.get("decays") or {}))
    V.share(agent)
    ref, avg = copy.deepcopy(model), copy.deepcopy(model)
    if cont:
        ref.seen = avg.seen = None
    rollout, h, ha, h0 = [], None, None, None
    mus = {}
    eps = [[]]  # completed and current episodes of (obs, a, r, nobs, done)
    flat = []
    ob = rng.uniform(-1, 1, OBS).astype(np.float32)
    counts = {}
    worst = 0.0
    for t in range(p["steps"]):
        if not rollout:
            h0 = det(h)
        with torch.no_grad():
            x = torch.as_tensor(ob).reshape(1, -1)
            if p["kind"] == "rec":
                (d, _, val), h = one(ref, x, h)
                (da, _, _), ha = one(avg, x, ha)
            else:
                (d, _, val), da = ref(x), avg(x)[0]
            if cont:
                mu = [y[0].clone() for y in mean_scale(d)]
                av = [y[0].clone() for y in mean_scale(da)]
            else:
                mu, av = d.logits[0].clone(), da.logits[0].clone()
        a = agent.act(ob)
        a0 = np.array(a, copy=True)
        kls = [] if watch is not None else None
        if watch is not None:
            ent = float((0.5 + 0.5 * np.log(2 * np.pi) + mu[1].log()).sum()) if cont else float(-(mu.exp() * mu).sum())
            watch(agent, dict(value=float(val.reshape(-1)[0]), entropy=ent), kls)
        mus[ob.tobytes()] = mu
        r = float(np.round(rng.uniform(-1, 1), 3)) * p["scale"]
        nob = rng.uniform(-1, 1, OBS).astype(np.float32)
        done, reset = bool(rng.rand() < p["p_done"]), bool(rng.rand() < p["p_reset"])
        rollout.append(dict(obs=ob, a=a0, r=r, mu=None, avg=av))
        eps[-1].append(ob.tobytes())
        flat.append(ob.tobytes())
        mem = {}
        del events[:]
        n_before = len(seen or [])
        agent.observe(nob, r, done, reset)
        ended = done or reset
        due = len(rollout) == p["t_max"] or ended
        # what has to happen
        i = 0
        if not due:
            obs.require(not events, "an update happened in mid-rollout")
        else:
            if p["online"]:
                if done:
                    R = 0.0
                else:
                    with torch.no_grad():
                        y = torch.as_tensor(nob).reshape(1, -1)
                        R = float((one(ref, y, h)[0] if p["kind"] == "rec" else ref(y))[2])
                obs.require(len(events) > 0 and events[0][0] == "step", lambda: "no online update after %d steps (done %s, reset %s)" % (len(rollout), done, reset))
                compare(p, obs, ref, avg, events[0], rollout, R, h0, None, "online", counts, kls)
                advance(p, obs, ref, avg, events[0])
                i = 1
            n_mem = len(flat) if ended else len(flat) - len(eps[-1])
            if p["buffer"] and n_mem >= p["start"]:
                for k in range(p["replay"]):
                    obs.require(len(events) >= i + 2 and events[i][0] == "sample" and events[i + 1][0] == "step",
                                lambda: "%d events, expected %d replays of %d" % (len(events), p["replay"], k))
                    _, episodes, n, ml = events[i]
                    obs.require(n == 1 and ml == p["t_max"], lambda: "sampled %s episodes of length %s" % (n, ml))
                    steps = []
                    for tr in episodes[0]:
                        key = np.asarray(tr["state"]).tobytes()
                        m = mus[key]
                        with torch.no_grad():
                            st = tr["mu"]
                            got = [y[0] for y in mean_scale(st)] if cont else [st.logits[0]]
                            want = m if cont else [m]
                            obs.require(all(torch.allclose(u, w, atol=1e-5) for u, w in zip(got, want)), "the stored behaviour distribution is not the one acted with")
                        steps.append(dict(obs=np.asarray(tr["state"]), a=np.asarray(tr["action"]), r=tr["reward"], mu=m, avg=None))
                    fill_avg(p, avg, steps)
                    last = episodes[0][-1]
                    if last["is_state_terminal"]:
                        R = 0.0
                    else:
                        with torch.no_grad():
                            hh = None
                            if p["kind"] == "rec":
                                for s in steps:
                                    _, hh = one(ref, torch.as_tensor(s["obs"]).reshape(1, -1), hh)
                            y = torch.as_tensor(np.asarray(last["next_state"])).reshape(1, -1)
                            R = float((one(ref, y, hh)[0] if p["kind"] == "rec" else ref(y))[2])
                    draws = None
                    if cont:
                        # distributions evaluated for this update
                        got = seen[events[i - 1][4] if i > 0 and events[i - 1][0] == "step" else n_before:events[i + 1][4]]

                        def draws(o, got=got):
                            c = [y for xx, d in got if np.array_equal(xx.reshape(-1), o.reshape(-1)) for y in d.kept]
                            return c[-1] if c else None
                    compare(p, obs, ref, avg, events[i + 1], steps, R, None, draws, "replay", counts, kls)
                    advance(p, obs, ref, avg, events[i + 1])
                    i += 2
            obs.require(len(events) == i, lambda: "%d further updates or samples" % (len(events) - i))
            rollout = []
            h = det(h)
        for tgt, src, nm in ((agent.shared_model, ref, "shared model"), (agent.model, ref, "local model"), (agent.shared_average_model, avg, "average model")):
            for (kk, u), w in zip(tgt.state_dict().items(), src.state_dict().values()):
                obs.require(torch.allclose(u, w, rtol=1e-5, atol=1e-6), lambda: "%s differs in %s at step %d" % (nm, kk, t))
        if seen is not None:
            # distributions kept for the running rollout only
            del seen[:]
        if ended:
            h = ha = None
            eps.append([])
            ob = rng.uniform(-1, 1, OBS).astype(np.float32)
            if watch is not None:
                watch.rest(agent)
        else:
            ob = nob
    for k, v in counts.items():
        obs.n(k, v)
        obs.sig(p["kind"], k, p["trunc"], p["trust"], p["opc"], p["normalize"])
    obs.n("steps", p["steps"])


def fill_avg(p, avg, steps):
    ha = None
    with torch.no_grad():
        for s in steps:
            x = torch.as_tensor(s["obs"]).reshape(1, -1)
            if p["kind"] == "rec":
                (d, _, _), ha = one(avg, x, ha)
            else:
                d = avg(x)[0]
            s["avg"] = [y[0].clone() for y in mean_scale(d)] if p["kind"] == "cont" else d.logits[0].clone()


class Diverged(Exception):
    pass


def compare(p, obs, ref, avg, ev, steps, R, h0, draws, what, counts, kls=None):
    _, params, grads, avgs, _ = ev
    for u, w in zip(params, ref.parameters()):
        obs.require(torch.allclose(u, w, rtol=1e-5, atol=1e-6), "the parameters changed outside of updates")
    for (k, u), w in zip(avgs.items(), avg.state_dict().values()):
        obs.require(torch.allclose(u, w, rtol=1e-5, atol=1e-6), "the average model changed outside of updates")
    want, facts = reference(p, ref, steps, R, h0, obs, draws or (lambda o: None), kls)
    counts[what] = counts.get(what, 0) + 1
    for f in facts:
        counts[what + "_" + f] = counts.get(what + "_" + f, 0) + 1
    if want is None:
        return
    scale = max(float(g.abs().max()) for g in want)
    if not scale <= 1e5:
        # the importance weights exploded: nothing can be compared in single precision
        raise Diverged
    for k, (g, w) in enumerate(zip(grads, want)):
        g = torch.zeros_like(w) if g is None else g
        err = float((g - w).abs().max())
        obs.require(err <= 2e-3 * scale + 1e-5, lambda: "%s update: gradient of parameter %d is off by %g (largest %g); %s" % (what, k, err, scale, sorted(facts)))


def advance(p, obs, ref, avg, ev):
    """Take the intercepted gradient step in the reference and move the average."""
    with torch.no_grad():
        for u, b, g in zip(ref.parameters(), ev[1], ev[2]):
            u.copy_(b if g is None else b - p["lr"] * g)
        for (k, u), b, w in zip(avg.state_dict().items(), ev[3].values(), ref.state_dict().values()):
            u.copy_(p["alpha"] * b + (1 - p["alpha"]) * w)


def gen_heads(rng, tier):
    return dict(n=int(rng.choice([1, 2, 5, 9])), batch=int(rng.choice([1, 3])), prog=int(rng.randint(2**31)))


def check_heads(p, obs):
    import pfrl

    torch.manual_seed(p["prog"] % 2**31)
    B = p["batch"]
    x = torch.randn(B, OBS)
    pi, q = nn.Linear(OBS, NACT), nn.Linear(OBS, NACT)
    head = pfrl.agents.acer.ACERDiscreteActionHead(nn.Sequential(pi, pfrl.policies.SoftmaxCategoricalHead()), nn.Sequential(q, pfrl.q_functions.DiscreteActionValueHead()))
    d, av, v = head(x)
    pr = torch.softmax(pi(x), 1)
    obs.require(torch.allclose(d.probs, pr, atol=1e-6) and torch.allclose(av.q_values, q(x), atol=1e-6), "discrete head: other policy or values")
    obs.require(torch.allclose(v.reshape(-1), (pr * q(x)).sum(1), atol=1e-5), lambda: "discrete head: state value %s" % v)
    kept = []

    class Pi(nn.Module):
        def forward(self, o):
            d = RecNormal(o[:, :ADIM], o[:, :ADIM].abs() + 0.3)
            kept.append(d)
            return torch.distributions.Independent(d, 1)

    vf = nn.Linear(OBS, 1)
    w = nn.Linear(OBS + ADIM, 1)

    def adv(oa):
        return w(torch.cat(oa, 1)) ** 3

    head = pfrl.agents.acer.ACERContinuousActionHead(Pi(), vf, adv, n=p["n"])
    d, av, v = head(x)
    a = torch.randn(B, ADIM)
    for _ in range(2):
        del kept[0].kept[:]
        got = av.evaluate_actions(a)
        s = kept[0].kept
        obs.require(len(s) >= 1, "no action was sampled for the baseline")
        ss = torch.cat([y.reshape(-1, B, ADIM) for y in s])
        obs.require(len(ss) == p["n"], lambda: "%d samples instead of %d" % (len(ss), p["n"]))
        want = vf(x) + adv((x, a)) - sum(adv((x, y)) for y in ss) / p["n"]
        obs.require(got.shape == want.shape and torch.allclose(got, want, rtol=1e-4, atol=1e-4), lambda: "continuous head: %s instead of %s" % (got, want))
    obs.require(torch.equal(v, vf(x)), "continuous head: state value")
    obs.sig("heads", p["n"], B)


KINDS = [
    Kind("train", gen, check_train, 160, 2500),
    Kind("heads", gen_heads, check_heads, 20, 100),
]
