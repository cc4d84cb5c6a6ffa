"""C10: value-based updates apply the gradient of the documented objective."""
import copy

import numpy as np
import torch
from torch import nn

from vlib.core import Kind, Violation
from vlib import agents as V
from vlib import stats

LEVEL = "exploration"
RULE = (
    "Each case trains one value-based agent (12 variants; feed-forward or "
    "recurrent; plain / n-step / prioritized / episodic memory; Huber or squared "
    "loss; mean or sum; gradient clipping) on scripted experience and, for each "
    "update, recomputes in float64, sample by sample and with independently "
    "written targets, the gradient the optimizer should receive and the errors "
    "the memory should receive. distinct_nontrivial counts distinct (variant, "
    "memory, loss setting, n, terminal/non-terminal mix) among verified updates."
)
ASSUMPTIONS = ["relative tolerance 1e-3 on gradients (float32 code against float64 reference)"]


def gen(rng, tier):
    name = V.VALUE_AGENTS[rng.randint(len(V.VALUE_AGENTS))]
    rec = bool(rng.rand() < 0.3)
    prio = bool(not rec and rng.rand() < 0.35)
    return dict(
        name=name, recurrent=rec, prioritized=prio,
        rnn=str(rng.choice(["lstm", "gru"])),
        batch=int(rng.choice([1, 2, 4, 7])),
        n_step=int(rng.choice([1, 1, 2, 3, 5, 11])),
        gamma=float(rng.choice([0.0, 0.5, 0.9, 0.99, 1.0])),
        clip_delta=bool(rng.rand() < 0.5),
        acc=str(rng.choice(["mean", "sum"])),
        max_grad=[None, None, 0.05, 5.0][rng.randint(4)],
        alpha=float(rng.choice([0.0, 0.5, 0.9])),
        eta=float(rng.choice([0.3, 1.0, 4.0])),
        target_interval=int(rng.choice([3, 7, 10**6])),
        method=str(rng.choice(["hard", "soft"])),
        scale=float(rng.choice([0.3, 1.0, 4.0])),
        envs=int(rng.choice([1, 2, 3, 6])),
        ep_len=[None, 1, 3, 6][rng.randint(4)],
        p_done=float(rng.choice([0.05, 0.2, 0.5])),
        p_reset=float(rng.choice([0.0, 0.1])),
        norm=[False, True, "memory"][rng.randint(3)],
        updates=12 if tier == "quick" else 25,
        prog=int(rng.randint(2**31)),
    )


# ------------------------------------------------------------- reference nets
class RecPhi(nn.Module):
    """Quantile embedding that records the thresholds it is given."""

    def __init__(self, log):
        super().__init__()
        from pfrl.agents import iqn

        self.inner = iqn.CosineBasisLinear(5, 6)
        self.log = [log]

    def __deepcopy__(self, memo):
        m = RecPhi(self.log[0])
        m.load_state_dict(self.state_dict())
        return m

    def forward(self, taus):
        self.log[0].append((id(self), torch.is_grad_enabled(), taus.detach().double().numpy().copy()))
        return torch.tanh(self.inner(taus))


def leaves(m):
    return [x for x in m.modules() if not list(x.children())]


class RefNet:
    """Plain float64 evaluation of the networks built in vlib.agents."""

    def __init__(self, model, name):
        self.iqn = "IQN" in name
        self.cat = "Categorical" in name
        self.m = model
        if self.iqn:
            self.layers = [x for x in leaves(model.psi)]
        else:
            self.layers = [x for x in leaves(model)
                           if isinstance(x, (nn.Linear, nn.Tanh, nn.LSTM, nn.GRU))]
            self.z = [x for x in leaves(model) if isinstance(x, V.DistHead)]

    def seq(self, xs, state):
        """Hidden outputs for one sequence of inputs, one step at a time."""
        outs = []
        for x in xs:
            h = torch.as_tensor(np.asarray(x), dtype=torch.float64).reshape(1, -1)
            for l in self.layers:
                if isinstance(l, (nn.LSTM, nn.GRU)):
                    o, state = l(h[None], state)
                    h = o[0]
                else:
                    h = l(h)
            outs.append(h[0])
        return outs

    def quant(self, h, taus):
        """(n_taus, n_actions) quantiles for one hidden vector."""
        i = torch.arange(1, 6, dtype=torch.float64)
        lin = self.m.phi.inner.linear
        out = []
        for tau in taus:
            e = torch.tanh(lin(torch.cos(float(tau) * i * np.pi)))
            out.append(self.m.f(h * e))
        return torch.stack(out)

    def dist(self, h, n_atoms=7):
        return torch.softmax(h.reshape(V.NACT, n_atoms), dim=1)


def _st(s):
    """Stored recurrent state (numpy) -> float64 tensors with batch axis 1."""
    if s is None:
        return None
    if isinstance(s, (tuple, list)):
        if len(s) == 1 and isinstance(s[0], (tuple, list, type(None))):
            return _st(s[0])
        if len(s) == 1:
            return _st(s[0])
        return tuple(_st(x) for x in s)
    a = torch.as_tensor(np.asarray(s), dtype=torch.float64)
    return a.reshape(1, 1, -1)


def huber(d):
    a = torch.abs(d)
    return torch.where(a < 1, 0.5 * d * d, a - 0.5)


def project(vals, probs, z):
    """Distribution of clipped values on the support z (triangular kernel)."""
    dz = z[1] - z[0]
    out = torch.zeros(len(z), dtype=torch.float64)
    for v, pr in zip(vals, probs):
        v = min(max(float(v), float(z[0])), float(z[-1]))
        w = torch.clamp(1 - torch.abs(z - v) / dz, min=0.0)
        out = out + pr * w
    return out


class Tie(Exception):
    """Greedy action not determined at float32 precision."""


def greedy(q):
    t = torch.topk(q.detach(), 2).values
    if float(t[0] - t[1]) < 2e-5 * (1 + abs(float(t[0]))):
        raise Tie
    return int(torch.argmax(q))


def reference(p, on, tg, samples, weights, taus):
    """Loss of the batch and per-experience errors. samples: list of sequences of
    (transition-like dict with s, a, R, disc, term, s2) plus initial states."""
    name, alpha, eta = p["name"], p["alpha"], p["eta"]
    losses, errors, qs = [], [], []
    for smp in samples:
        steps = smp["steps"]
        ho = on.seq([x["s"] for x in steps], smp["h0"])
        ht = tg.seq([x["s2"] for x in steps], smp["h1"])
        need_double = name in ("DoubleDQN", "DoublePAL", "CategoricalDoubleDQN")
        ho2 = on.seq([x["s2"] for x in steps], smp["h1"]) if need_double else None
        ht1 = tg.seq([x["s"] for x in steps], smp["h0"]) if name in (
            "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy") else None
        for k, x in enumerate(steps):
            a, R, disc, term = int(x["a"]), x["R"], x["disc"], x["term"]
            keep = 0.0 if term else 1.0
            if "IQN" in name:
                key = tuple(np.round(x["s"], 6))
                key2 = tuple(np.round(x["s2"], 6))
                t1 = taus["on"][key].pop(0)
                tk, tn = taus["tk"][key2].pop(0), taus["tn"][key2].pop(0)
                y = on.quant(ho[k], t1)
                qs.extend(y.detach().mean(0).tolist())
                y = y[:, a]
                qk = tg.quant(ht[k], tk).mean(0)
                astar = greedy(qk)
                tt = (R + disc * keep * tg.quant(ht[k], tn)[:, astar]).detach()
                d = tt[None, :] - y[:, None]
                tau_c = torch.as_tensor(t1)[:, None]
                el = torch.abs(tau_c - (d.detach() < 0).double()) * huber(d)
                losses.append(el.mean(1).sum())
                errors.append(float(el.detach().mean()))
                continue
            if "Categorical" in name:
                z = torch.linspace(-3.0, 4.0, 7, dtype=torch.float64)
                y = on.dist(ho[k])[a]
                qs.append(float((y.detach() * z).sum()))
                pt = tg.dist(ht[k])
                sel = on.dist(ho2[k]) if need_double else pt
                astar = greedy((sel * z).sum(1))
                tt = project(R + disc * keep * z, pt[astar], z).detach()
                l = -(tt * torch.log(torch.clamp(y, 1e-10, 1.0))).sum()
                losses.append(l)
                errors.append(float(l.detach()))
                continue
            y = ho[k][a]
            qs.append(float(y.detach()))
            q2 = ht[k].detach()
            if name in ("DoubleDQN", "DoublePAL"):
                v2 = q2[greedy(ho2[k])]
            else:
                v2 = q2.max()
            if name in ("DQN", "DoubleDQN"):
                t = R + disc * keep * v2
            elif name in ("AL", "PAL", "DoublePAL"):
                q1 = ht1[k].detach()
                adv = q1[a] - q1.max()
                if name != "AL":
                    adv = torch.maximum(adv, keep * (q2[a] - q2.max()))
                t = R + disc * keep * v2 + alpha * adv
            else:
                q1 = ht1[k].detach()
                if name == "DPP":
                    L = lambda q: (torch.softmax(eta * q, 0) * q).sum()
                elif name == "DPPL":
                    L = lambda q: torch.logsumexp(eta * q, 0) / eta
                else:
                    L = lambda q: q.max()
                t = q1[a] + R + disc * keep * L(q2) - L(q1)
            d = t.detach() - y
            losses.append(huber(d) if p["clip_delta"] else 0.5 * d * d)
            errors.append(float(torch.abs(d.detach())))
    w = torch.ones(len(losses), dtype=torch.float64) if weights is None else torch.as_tensor(
        np.asarray(weights, dtype=np.float64))
    tot = (torch.stack([x.reshape(()) for x in losses]) * w).sum()
    if p["acc"] == "mean":
        tot = tot / len(losses)
    return tot, errors, qs


def check(p, obs, watch=None):
    """watch(agent, transitions, updates): told of each step with (loss, q values)
    of each update (None: not comparable from here on)."""
    from pfrl import replay_buffers as R

    name = p["name"]
    ups = []
    taulog = []

    def factory():
        if "IQN" in name:
            return V.iqn_q(p["recurrent"], phi=RecPhi(taulog))
        if "Categorical" in name:
            return V.categorical_q(p["recurrent"])
        return V.discrete_q(p["recurrent"], rnn=p["rnn"])

    torch.manual_seed(p["prog"] % 997)
    model = factory()
    if p["recurrent"]:
        base, kw = R.EpisodicReplayBuffer, dict(capacity=None)
    elif p["prioritized"]:
        base, kw = R.PrioritizedReplayBuffer, dict(
            capacity=200, num_steps=p["n_step"], betasteps=30, normalize_by_max=p["norm"])
    else:
        base, kw = R.ReplayBuffer, dict(capacity=200, num_steps=p["n_step"])
    box = {}

    def snap(r, kind):
        ups.append(dict(kind=kind, exps=copy.deepcopy(r), fw=[], taus=[],
                        on=copy.deepcopy(box["ag"].model.state_dict()),
                        tg=copy.deepcopy(box["ag"].target_model.state_dict())))
        del taulog[:]
        del fwlog[:]

    fwlog = []

    class Rec(base):
        def sample(self, n):
            r = super().sample(n)
            snap(r, "flat")
            return r

        def sample_episodes(self, n, max_len=None):
            r = super().sample_episodes(n, max_len)
            snap(r, "epi")
            return r

        if p["prioritized"]:

            def update_errors(self, e):
                ups[-1]["errors"] = [float(x) for x in e]
                return super().update_errors(e)

    extra = dict(clip_delta=p["clip_delta"], batch_accumulator=p["acc"], max_grad_norm=p["max_grad"],
                 target_update_method=p["method"], soft_update_tau=0.4)
    if p["recurrent"]:
        extra["episodic_update_len"] = p["ep_len"]
    if name in ("AL", "PAL", "DoublePAL"):
        extra["alpha"] = p["alpha"]
    if name in ("DPP", "DPPL"):
        extra["eta"] = p["eta"]
    h = V.make(name, seed=p["prog"] % 1000, model=model, buffer=Rec(**kw), recurrent=p["recurrent"],
               batch=p["batch"], replay_start=max(8, p["batch"]), update_interval=1, gamma=p["gamma"],
               target_interval=p["target_interval"], opt="sgd", lr=p.get("lr", 0.05), extra=extra)
    ag = h.agent
    box["ag"] = ag

    def rows(x):
        if isinstance(x, nn.utils.rnn.PackedSequence):
            x = x.data
        return x.detach().double().numpy().copy()

    model.register_forward_pre_hook(lambda m, a: fwlog.append(("on", torch.is_grad_enabled(), rows(a[0]))))
    ag.target_model.register_forward_pre_hook(lambda m, a: fwlog.append(("tg", torch.is_grad_enabled(), rows(a[0]))))
    names = [n for n, _ in model.named_parameters()]

    def pre_step(opt, a, k):
        u = ups[-1]
        u["grads"] = {n: None if q.grad is None else q.grad.detach().double().clone()
                      for n, q in model.named_parameters()}
        u["fw"] = list(fwlog)
        u["taus"] = list(taulog)
        u["tg_after"] = copy.deepcopy(ag.target_model.state_dict())

    ag.optimizer.register_step_pre_hook(pre_step)
    s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"], scale=p["scale"])
    alltaus = []
    verified = 0
    diverged = False
    on_ref, tg_ref = factory().double(), factory().double()
    for step in range(p.get("max_steps", 400)):
        ag.batch_act(s.obs)
        nobs, rew, done, reset = s.step()
        del ups[:]
        facts = []
        ag.batch_observe(nobs, rew, done, reset)
        s.begin(nobs, done, reset)
        for u in ups:
            if "grads" not in u:
                raise Violation("no optimizer step followed the sampling of a batch")
            if max(float(v.abs().max()) for v in list(u["on"].values()) + list(u["tg"].values())) > 20:
                diverged = True  # training diverged: float32 no longer comparable
                break
            vals = verify(p, obs, u, on_ref, tg_ref, model, alltaus)
            verified += 1
            facts.append(vals)
        if watch is not None and not diverged:
            if None in facts:
                break
            watch(ag, p["envs"] * (step + 1), facts)
        if diverged or verified >= p["updates"]:
            break
    obs.n("updates_verified", verified)
    if verified == 0:
        obs.n("cases_without_update")
    if len(alltaus) >= 200:
        a = np.array(alltaus)
        obs.require(a.min() >= 0 and a.max() <= 1, "quantile thresholds outside [0, 1]")
        c = np.bincount(np.minimum((a * 10).astype(int), 9), minlength=10)
        st = ((c - len(a) / 10.0) ** 2 / (len(a) / 10.0)).sum()
        obs.require(st < stats.chi2_threshold(9), lambda: "quantile thresholds are not uniform: {}".format(c))
    obs.sample = dict(updates=verified, name=name)


def verify(p, obs, u, on_ref, tg_ref, model, alltaus):
    name = p["name"]
    on_ref.load_state_dict(u["on"])
    tg_ref.load_state_dict(u["tg"])
    on_ref.double(), tg_ref.double()
    on, tg = RefNet(on_ref, name), RefNet(tg_ref, name)
    g = p["gamma"]
    samples, weights = [], None
    if u["kind"] == "flat":
        for e in u["exps"]:
            R = sum(g ** i * tr["reward"] for i, tr in enumerate(e))
            samples.append(dict(h0=None, h1=None, steps=[dict(
                s=e[0]["state"], a=e[0]["action"], R=R, disc=g ** len(e), s2=e[-1]["next_state"],
                term=bool(e[-1]["is_state_terminal"]))]))
        if p["prioritized"]:
            weights = [e[0]["weight"] for e in u["exps"]]
    else:
        for ep in u["exps"]:
            samples.append(dict(
                h0=_st(ep[0]["recurrent_state"]), h1=_st(ep[0]["next_recurrent_state"]),
                steps=[dict(s=tr["state"], a=tr["action"], R=tr["reward"], disc=g,
                            s2=tr["next_state"], term=bool(tr["is_state_terminal"])) for tr in ep]))
    taus = None
    if "IQN" in name:
        order_on = [r for w, gr, r in u["fw"] if w == "on" and gr][-1]
        order_tg = [r for w, gr, r in u["fw"] if w == "tg"][-1]
        t_on = [t for i, gr, t in u["taus"] if gr and t.shape[1] == 5][-1]
        t_k = [t for i, gr, t in u["taus"] if not gr and t.shape[1] == 6][-1]
        t_n = [t for i, gr, t in u["taus"] if not gr and t.shape[1] == 4][-1]
        k = lambda r: tuple(np.round(r, 6))
        taus = dict(on={}, tk={}, tn={})
        # trailing n-step windows share their last state: keep lists, in batch order
        for nm, order, ts in (("on", order_on, t_on), ("tk", order_tg, t_k), ("tn", order_tg, t_n)):
            for r, t in zip(order.astype(np.float32), ts):
                taus[nm].setdefault(k(r), []).append(t)
        for t in (t_on, t_k, t_n):
            alltaus.extend(t.ravel().tolist())
    try:
        loss, errors, qs = reference(p, on, tg, samples, weights, taus)
    except Tie:
        obs.n("updates_with_tied_greedy_actions_skipped")
        return
    on_ref.zero_grad()
    loss.backward()
    ref = {n: (torch.zeros_like(q) if q.grad is None else q.grad) for n, q in on_ref.named_parameters()}
    if p["max_grad"] is not None:
        norm = float(torch.sqrt(sum((x ** 2).sum() for x in ref.values())))
        f = min(1.0, p["max_grad"] / (norm + 1e-12))
        ref = {n: x * f for n, x in ref.items()}
    scale = max(float(x.abs().max()) for x in ref.values())
    worst, wn = 0.0, None
    for n, x in ref.items():
        got = u["grads"][n]
        got = torch.zeros_like(x) if got is None else got
        d = float((got - x).abs().max())
        if not d <= worst:
            worst, wn = d, n
    obs.require(
        worst <= 1e-3 * scale + 2e-6,
        lambda: "gradient of {} off by {:.3g} (largest reference gradient {:.3g})".format(wn, worst, scale))
    if p["prioritized"]:
        e = np.array(u.get("errors", []))
        w = np.array(errors)
        obs.require(len(e) == len(w) and np.allclose(e, w, rtol=1e-3, atol=1e-4),
                    lambda: "errors written back {} expected {}".format(e, w))
    same = all(torch.equal(u["tg"][k], u["tg_after"][k]) for k in u["tg"])
    obs.require(same, "the update changed the target network before the optimizer step")
    terms = [x["term"] for sm in samples for x in sm["steps"]]
    obs.sig(name, p["recurrent"], p["prioritized"], p["clip_delta"], p["acc"], p["n_step"],
            p["max_grad"], any(terms), all(terms))
    return float(loss.detach()), qs


KINDS = [Kind("gradient", gen, check, 900, 6000)]
