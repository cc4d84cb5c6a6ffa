"""Recorder and float64 reference for on-policy agents (used by C12, C13)."""
import copy

import numpy as np
import torch
from torch import nn

from vlib import agents as V
from vlib.core import Violation

T = torch.as_tensor
LOG2PI = float(np.log(2 * np.pi))


class Tie(Exception):
    """A non-smooth point of the objective was hit within float precision."""


class Net:
    """Stepwise float64 evaluation of a (recurrent) policy or value module."""

    def __init__(self, module):
        self.src = module
        self.ref = copy.deepcopy(module).double()
        leaves = [x for x in self.ref.modules() if not list(x.children())]
        self.layers = [x for x in leaves if isinstance(x, (nn.Linear, nn.Tanh, nn.LSTM, nn.GRU))]
        self.var = [x for n, x in self.ref.named_parameters() if n.endswith("var_param")]
        self.recurrent = any(isinstance(x, (nn.LSTM, nn.GRU)) for x in self.layers)

    def load(self, sd):
        self.ref.load_state_dict(sd)

    def params(self):
        return list(self.ref.parameters())

    def names(self):
        return [n for n, _ in self.ref.named_parameters()]

    def step(self, x, h):
        """x: float64 vector; returns (output vector, next hidden state)."""
        y = x.reshape(1, -1)
        for l in self.layers:
            if isinstance(l, (nn.LSTM, nn.GRU)):
                o, h = l(y[None], h)
                y = o[0]
            else:
                y = l(y)
        return y[0], h

    def logp_ent(self, out, a):
        if self.var:
            s2 = torch.exp(2 * self.var[0])
            lp = (-0.5 * (T(np.asarray(a, dtype=np.float64)) - out) ** 2 / s2
                  - 0.5 * torch.log(s2) - 0.5 * LOG2PI).sum()
            return lp, (0.5 * torch.log(s2) + 0.5 * (1 + LOG2PI)).sum() * torch.ones(())
        ls = torch.log_softmax(out, 0)
        return ls[int(a)], -(torch.exp(ls) * ls).sum()

    def entropy(self, out):
        if self.var:
            return self.var[0].sum() + 0.5 * (1 + LOG2PI) * len(self.var[0])
        ls = torch.log_softmax(out, 0)
        return -(torch.exp(ls) * ls).sum()

    def kl(self, old, new, old_var=None):
        """KL(old | new) of two output vectors (old_var: old variance)."""
        if self.var:
            s2 = torch.exp(2 * self.var[0])
            return (0.5 * torch.log(s2 / old_var) + 0.5 * (old_var + (old - new) ** 2) / s2 - 0.5).sum()
        lo, ln = torch.log_softmax(old, 0), torch.log_softmax(new, 0)
        return (torch.exp(lo) * (lo - ln)).sum()


def det(h):
    if h is None:
        return None
    if isinstance(h, tuple):
        return tuple(x.detach() for x in h)
    return h.detach()


class Prep:
    """What phi / batch_states / the observation normaliser do to observations."""

    def __init__(self, p):
        self.p = p
        self.seen = []
        self.mean, self.inv = None, None
        from pfrl.utils import batch_states as bs

        bs = getattr(bs, "batch_states", bs)
        self.kw = {}
        self.scale, self.shift = 1.0, 0.0
        if p["phi"]:
            self.kw["phi"] = lambda x: np.asarray(x, dtype=np.float32) * np.float32(0.5)
            self.scale = 0.5
        if p["own_batch"]:
            def own(states, device, phi):
                return bs(states, device, phi) + 0.25
            self.kw["batch_states"] = own
            self.shift = 0.25

    def __call__(self, o):
        """(unnormalised input, normalised input) as float64 vectors."""
        x = np.asarray(o, dtype=np.float64) * self.scale + self.shift
        return x

    def norm(self, x):
        if self.mean is None:
            if not self.p.get("normalize"):
                return T(x)
            m, i = 0.0, (1.0 + 0.01) ** -0.5
        else:
            m, i = self.mean, self.inv
        y = (x - m) * i
        if self.p.get("norm_clip") is not None:
            y = np.clip(y, -self.p["norm_clip"], self.p["norm_clip"])
        return T(y)

    def experience(self, xs):
        if not self.p.get("normalize"):
            return
        self.seen.extend(xs)
        a = np.array(self.seen)
        self.mean, self.inv = a.mean(0), (a.var(0) + 0.01) ** -0.5


def close(obs, want, got, scale, what, rtol=2e-3, atol=1e-5):
    for n in want:
        g = got.get(n)
        g = torch.zeros_like(want[n]) if g is None else g
        d = float((want[n] - g).abs().max())
        obs.require(d <= rtol * scale + atol, lambda: "{}: gradient of {} off by {:.3g} (largest {:.3g})".format(
            what, n, d, scale))


def grads_of(loss, nets, max_norm):
    """Reference gradients {name: grad} of loss for named nets, clipped jointly."""
    names, ps = [], []
    for pre, net in nets:
        for n, x in net.ref.named_parameters():
            names.append(pre + n)
            ps.append(x)
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    out = {n: (torch.zeros_like(x) if g is None else g) for n, x, g in zip(names, ps, gs)}
    if max_norm is not None:
        norm = float(torch.sqrt(sum((g ** 2).sum() for g in out.values())))
        f = min(1.0, max_norm / (norm + 1e-12))
        out = {n: g * f for n, g in out.items()}
    return out, max(float(g.abs().max()) for g in out.values())


def grad_snapshot(named):
    return {n: None if x.grad is None else x.grad.detach().double().clone() for n, x in named}


def gae(frag, gamma, lam):
    """Generalised advantages of a fragment by the explicit double sum."""
    n = len(frag)
    deltas = [t["r"] + gamma * (0.0 if t["done"] else 1.0) * t["v2"] - t["v"] for t in frag]
    return [sum((gamma * lam) ** (j - k) * deltas[j] for j in range(k, n)) for k in range(n)]


def sequences(x):
    """Rows of each sequence of a forward input (tensor or PackedSequence)."""
    if isinstance(x, nn.utils.rnn.PackedSequence):
        data = x.data.detach().double().numpy()
        bs = x.batch_sizes.tolist()
        offs = np.concatenate([[0], np.cumsum(bs)])
        return [[data[offs[t] + j] for t in range(len(bs)) if bs[t] > j] for j in range(bs[0])]
    return [[r] for r in x.detach().double().numpy()]


class Finder:
    """Maps network input rows to recorded transitions (inputs are distinct)."""

    def __init__(self, xs):
        self.a = np.array([np.asarray(x, dtype=np.float64) for x in xs])
        d = np.abs(self.a[:, None] - self.a[None]).max(axis=2) + np.eye(len(self.a))
        self.ambiguous = bool(d.min() < 3e-4)

    def __call__(self, row):
        d = np.abs(self.a - row).max(axis=1)
        i = int(np.argmin(d))
        return i if d[i] < 1e-4 else None


class BatchRun:
    """Drives a batch agent (PPO, TRPO) and records transitions and updates."""

    def __init__(self, p, obs):
        self.p, self.obs = p, obs
        self.prep = Prep(p)
        import pfrl

        extra = dict(self.prep.kw)
        extra.update(standardize_advantages=p["standardize"], lambd=p["lambd"],
                     max_grad_norm=p["max_grad"])
        if p["recurrent"]:
            extra["max_recurrent_sequence_len"] = p["max_seq"]
        if p["normalize"]:
            self.normalizer = pfrl.nn.EmpiricalNormalization(
                V.OBS, clip_threshold=p["norm_clip"])
            extra["obs_normalizer"] = self.normalizer
        if p["name"] == "PPO":
            extra.update(clip_eps=p["clip_eps"], clip_eps_vf=p["clip_vf"], entropy_coef=p["ent"],
                         value_func_coef=p["vcoef"])
        else:
            extra.update(max_kl=p["max_kl"], entropy_coef=p["ent"],
                         line_search_max_backtrack=p["backtrack"],
                         conjugate_gradient_max_iter=p["cg_iter"],
                         conjugate_gradient_damping=p["damping"])
        extra.update(p.get("windows") or {})
        h = V.make(p["name"], seed=p["prog"] % 1000, recurrent=p["recurrent"], discrete=p["discrete"],
                   opt="sgd", lr=p["lr"], gamma=p["gamma"], update_interval=p["interval"],
                   batch=p["batch"], epochs=p["epochs"], extra=extra)
        self.h, self.ag = h, h.agent
        if p["name"] == "PPO":
            self.pi, self.vf = h.parts
            self.opt = self.ag.optimizer
        else:
            self.pi, self.vf = h.models
            self.opt = self.ag.vf_optimizer
        self.rpi, self.rvf = Net(self.pi), Net(self.vf)
        self.events = []
        self.calls = {"pi": None, "vf": None}
        self.pi_grad_calls = []

        def fw(which):
            def hook(m, a):
                if torch.is_grad_enabled():
                    self.calls[which] = a[0]
                    if which == "pi":
                        self.pi_grad_calls.append(sequences(a[0]))
            return hook

        self.pi.register_forward_pre_hook(fw("pi"))
        self.vf.register_forward_pre_hook(fw("vf"))

        def pre(o, a, k):
            c = self.calls["vf"]
            if c is None:
                raise Violation("the optimizer stepped without a forward pass of the value function")
            self.events.append(dict(seqs=sequences(c), params=self.snap(),
                                    grads={**{"pi." + n: g for n, g in grad_snapshot(self.pi.named_parameters()).items()},
                                           **{"vf." + n: g for n, g in grad_snapshot(self.vf.named_parameters()).items()}}))

        self.opt.register_step_pre_hook(pre)
        self.s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"], scale=p["scale"])
        self.hid = [(None, None)] * p["envs"]
        self.ep = [0] * p["envs"]
        self.data = []      # transitions since the last update
        self.n_updates = 0
        self.cur = self.snap()

    def snap(self):
        c = lambda m: {k: v.detach().clone() for k, v in m.state_dict().items()}
        return dict(pi=c(self.pi), vf=c(self.vf))

    def load(self, sn):
        self.rpi.load(sn["pi"])
        self.rvf.load(sn["vf"])

    def step(self):
        """One step of all environments. Returns True if an update happened."""
        p, s = self.p, self.s
        self.load(self.cur)
        xs = [self.prep(o) for o in s.obs]
        hs, self.acted = [], []
        with torch.no_grad():
            for i in range(p["envs"]):
                out, hp = self.rpi.step(self.prep.norm(xs[i]), self.hid[i][0])
                v, hv = self.rvf.step(self.prep.norm(xs[i]), self.hid[i][1])
                self.acted.append((float(v[0]), float(self.rpi.entropy(out))))
                hs.append((hp, hv) if p["recurrent"] else (None, None))
        acts = self.ag.batch_act(s.obs)
        acts = [np.array(a) for a in acts]
        nobs, rew, done, reset = s.step()
        for i in range(p["envs"]):
            self.data.append(dict(x=xs[i], a=acts[i], r=float(rew[i]), x2=self.prep(nobs[i]),
                                  done=done[i], env=i, ep=self.ep[i], h=self.hid[i], h2=hs[i]))
            if done[i] or reset[i]:
                self.hid[i] = (None, None)
                self.ep[i] += 1
            else:
                self.hid[i] = hs[i]
        del self.events[:]
        del self.pi_grad_calls[:]
        self.before = self.cur
        self.ag.batch_observe(nobs, rew, done, reset)
        s.begin(nobs, done, reset)
        self.cur = self.snap()
        return len(self.data) >= p["interval"]

    def dataset(self):
        """Values, old log-probabilities and advantages of the collected data."""
        p, D = self.p, self.data
        self.load(self.before)
        with torch.no_grad():
            for t in D:
                x, x2 = self.prep.norm(t["x"]), self.prep.norm(t["x2"])
                out, _ = self.rpi.step(x, t["h"][0])
                t["lp"], _ = self.rpi.logp_ent(out, t["a"])
                t["v"] = float(self.rvf.step(x, t["h"][1])[0])
                t["v2"] = float(self.rvf.step(x2, t["h2"][1])[0])
        frags = {}
        for t in D:
            frags.setdefault((t["env"], t["ep"]), []).append(t)
        for f in frags.values():
            for t, a in zip(f, gae(f, p["gamma"], p["lambd"])):
                t["adv"] = a
                t["vt"] = a + t["v"]
        for f in frags.values():
            for k, t in enumerate(f):
                t["pos"] = k
        self.prep.experience([t["x"] for t in D])
        for t in D:
            t["xn"] = self.prep.norm(t["x"])
        adv = np.array([t["adv"] for t in D])
        self.std = adv.std()
        for t in D:
            t["sadv"] = (t["adv"] - adv.mean()) / (adv.std() + 1e-8) if p["standardize"] else t["adv"]
        return D

    def end_update(self):
        self.n_updates += 1
        self.data = []

    def forward(self, net, which, seq):
        """Outputs along one sequence of transitions, from the recorded state."""
        h = seq[0]["h"][which]
        outs = []
        for t in seq:
            o, h = net.step(t["xn"], h)
            outs.append(o)
        return outs
