"""Small instances of every pfrl agent, built through the public constructors."""
import numpy as np
import torch
from torch import nn

OBS = 4
NACT = 3
ADIM = 2

VALUE_AGENTS = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy",
                "CategoricalDQN", "CategoricalDoubleDQN", "IQN"]
AC_AGENTS = ["DDPG", "TD3", "SAC"]
ONPOLICY_BATCH = ["A2C", "PPO", "TRPO"]
ASYNC = ["A3C", "ACER", "ACERcont"]
SINGLE = ["REINFORCE"]
RECURRENT_OK = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN",
                "CategoricalDoubleDQN", "IQN", "PPO", "TRPO", "A3C", "ACER",
                "REINFORCE"]
ALL = VALUE_AGENTS + AC_AGENTS + ONPOLICY_BATCH + ASYNC + SINGLE


def act_fn():
    return nn.Tanh()


def mk_opt(kind, params, lr):
    import pfrl

    params = list(params)
    if kind == "sgd":
        return torch.optim.SGD(params, lr=lr)
    if kind == "momentum":
        return torch.optim.SGD(params, lr=lr, momentum=0.9)
    if kind == "adam":
        return torch.optim.Adam(params, lr=lr)
    if kind == "rmsprop":
        return torch.optim.RMSprop(params, lr=lr)
    if kind == "pfrl_rmsprop":
        return pfrl.optimizers.RMSpropEpsInsideSqrt(params, lr=lr)
    raise ValueError(kind)


PROBE = [False]


class Probe(nn.Module):
    """Behaves differently in training: keeps running statistics and perturbs its input."""

    def __init__(self):
        super().__init__()
        self.register_buffer("running", torch.zeros(()))
        self.register_buffer("calls", torch.zeros(()))

    def forward(self, x):
        if not self.training:
            return x + 0.01 * self.running
        with torch.no_grad():
            self.running.mul_(0.9).add_(0.1 * x.detach().mean().to(self.running))
            self.calls.add_(1)
        return x * (1 + 0.2 * torch.sin(self.calls))


def act_mods():
    return [Probe(), act_fn()] if PROBE[0] else [act_fn()]


def mlp(i, o, h=8):
    return nn.Sequential(nn.Linear(i, h), *act_mods(), nn.Linear(h, o))


def discrete_q(recurrent=False, n_actions=NACT, rnn="lstm"):
    import pfrl

    if recurrent:
        cell = nn.LSTM(8, 6) if rnn == "lstm" else nn.GRU(8, 6)
        return pfrl.nn.RecurrentSequential(
            nn.Linear(OBS, 8), *act_mods(), cell, nn.Linear(6, n_actions),
            pfrl.q_functions.DiscreteActionValueHead())
    return nn.Sequential(mlp(OBS, n_actions), pfrl.q_functions.DiscreteActionValueHead())


class DistHead(nn.Module):
    """Categorical (C51) head."""

    def __init__(self, n_actions, n_atoms, v_min, v_max):
        super().__init__()
        self.n_actions, self.n_atoms = n_actions, n_atoms
        self.register_buffer("z", torch.linspace(v_min, v_max, n_atoms))

    def forward(self, h):
        import pfrl

        q = torch.softmax(h.reshape(-1, self.n_actions, self.n_atoms), dim=2)
        return pfrl.action_value.DistributionalDiscreteActionValue(q, self.z)


def categorical_q(recurrent=False, n_atoms=7, v_min=-3.0, v_max=4.0):
    import pfrl

    if recurrent:
        return pfrl.nn.RecurrentSequential(
            nn.Linear(OBS, 8), *act_mods(), nn.LSTM(8, 6), nn.Linear(6, NACT * n_atoms),
            DistHead(NACT, n_atoms, v_min, v_max))
    return nn.Sequential(mlp(OBS, NACT * n_atoms), DistHead(NACT, n_atoms, v_min, v_max))


def iqn_q(recurrent=False, phi=None):
    import pfrl
    from pfrl.agents import iqn

    phi = phi or nn.Sequential(iqn.CosineBasisLinear(5, 6), act_fn())
    if recurrent:
        psi = pfrl.nn.RecurrentSequential(nn.Linear(OBS, 6), *act_mods(), nn.LSTM(6, 6))
        return iqn.RecurrentImplicitQuantileQFunction(psi=psi, phi=phi, f=nn.Linear(6, NACT))
    return iqn.ImplicitQuantileQFunction(
        psi=nn.Sequential(nn.Linear(OBS, 6), *act_mods()), phi=phi, f=nn.Linear(6, NACT))


def det_policy():
    import pfrl

    return nn.Sequential(mlp(OBS, ADIM), nn.Tanh(), pfrl.policies.DeterministicHead())


class SquashedHead(nn.Module):
    def forward(self, x):
        mean, log_scale = torch.chunk(x, 2, dim=1)
        log_scale = torch.clamp(log_scale, -3.0, 2.0)
        base = torch.distributions.Independent(
            torch.distributions.Normal(loc=mean, scale=torch.exp(log_scale)), 1)
        return torch.distributions.transformed_distribution.TransformedDistribution(
            base, [torch.distributions.transforms.TanhTransform(cache_size=1)])


def gauss_policy(out=ADIM):
    import pfrl

    return nn.Sequential(
        mlp(OBS, out),
        pfrl.policies.GaussianHeadWithStateIndependentCovariance(
            action_size=out, var_type="diagonal", var_func=lambda x: torch.exp(2 * x),
            var_param_init=-0.5))


def sa_q():
    import pfrl

    return nn.Sequential(pfrl.nn.ConcatObsAndAction(), mlp(OBS + ADIM, 1))


def pv_model(discrete=True, recurrent=False):
    import pfrl

    if recurrent:
        if discrete:
            pi = pfrl.nn.RecurrentSequential(
                nn.Linear(OBS, 8), *act_mods(), nn.LSTM(8, 6), nn.Linear(6, NACT),
                pfrl.policies.SoftmaxCategoricalHead())
        else:
            pi = pfrl.nn.RecurrentSequential(
                nn.Linear(OBS, 8), *act_mods(), nn.GRU(8, 6), nn.Linear(6, ADIM),
                pfrl.policies.GaussianHeadWithStateIndependentCovariance(
                    action_size=ADIM, var_type="diagonal",
                    var_func=lambda x: torch.exp(2 * x), var_param_init=-0.5))
        vf = pfrl.nn.RecurrentSequential(
            nn.Linear(OBS, 8), *act_mods(), nn.GRU(8, 5), nn.Linear(5, 1))
        return pi, vf
    if discrete:
        pi = nn.Sequential(mlp(OBS, NACT), pfrl.policies.SoftmaxCategoricalHead())
    else:
        pi = gauss_policy()
    return pi, mlp(OBS, 1)


def share(agent):
    """What asynchronous training does with shared attributes."""
    for attr in agent.shared_attributes:
        v = getattr(agent, attr)
        if isinstance(v, nn.Module):
            for x in v.state_dict().values():
                x.share_memory_()
        elif isinstance(v, torch.optim.Optimizer):
            for st in v.state_dict()["state"].values():
                for x in st.values():
                    if isinstance(x, torch.Tensor):
                        x.share_memory_()


class Handle:
    pass


def _explorer(cfg, discrete):
    from pfrl import explorers

    e = cfg.get("explorer", "eps")
    if e == "greedy":
        return explorers.Greedy()
    if discrete:
        if e == "decay":
            return explorers.LinearDecayEpsilonGreedy(
                1.0, 0.1, 50, lambda: np.random.randint(NACT))
        return explorers.ConstantEpsilonGreedy(0.3, lambda: np.random.randint(NACT))
    if e == "ou":
        return explorers.AdditiveOU(sigma=0.3)
    if e == "wide":
        return explorers.AdditiveGaussian(scale=3.0)
    return explorers.AdditiveGaussian(scale=0.3, low=-1.0, high=1.0)


def make(name, seed=0, **cfg):
    """Build agent `name`. Returns a Handle (agent, buf, discrete, batch, recurrent)."""
    import pfrl
    from pfrl import agents as A
    from pfrl import replay_buffers as R

    if seed is not None:
        torch.manual_seed(seed)
    g = cfg.get
    PROBE[0] = bool(g("probe", False))
    h = Handle()
    h.name = name
    h.recurrent = bool(g("recurrent", False))
    h.discrete = True
    h.batch = True
    h.buf = None
    opt, lr = g("opt", "adam"), g("lr", 1e-2)
    gamma = g("gamma", 0.9)

    def buffer():
        if g("buffer") is not None:
            return g("buffer")
        if h.recurrent:
            return R.EpisodicReplayBuffer(g("capacity", 10**4))
        if g("prioritized"):
            return R.PrioritizedReplayBuffer(g("capacity", 10**4), num_steps=g("n_step", 1),
                                             betasteps=g("betasteps", 100))
        return R.ReplayBuffer(g("capacity", 10**4), num_steps=g("n_step", 1))

    extra = dict(g("extra", {}))
    if name in VALUE_AGENTS:
        if "Categorical" in name:
            q = g("model") or categorical_q(h.recurrent)
        elif "IQN" in name:
            q = g("model") or iqn_q(h.recurrent)
        else:
            q = g("model") or discrete_q(h.recurrent)
        h.buf = buffer()
        kw = dict(
            gpu=None, replay_start_size=g("replay_start", 20), minibatch_size=g("batch", 6),
            update_interval=g("update_interval", 1),
            target_update_interval=g("target_interval", 10), n_times_update=g("n_times", 1))
        if h.recurrent:
            kw["recurrent"] = True
            kw["episodic_update_len"] = g("episodic_update_len", 4)
        if "IQN" in name:
            kw.update(quantile_thresholds_N=5, quantile_thresholds_N_prime=4,
                      quantile_thresholds_K=6)
        kw.update(extra)
        h.opt = mk_opt(opt, q.parameters(), lr)
        cls = {"DPPL": "DPPL", "DPPGreedy": "DPPGreedy"}.get(name, name)
        cls = getattr(A, cls, None) or getattr(__import__("pfrl.agents.dpp", fromlist=["x"]), cls)
        h.agent = cls(q, h.opt, h.buf, gamma, g("explorer_obj") or _explorer(cfg, True), **kw)
        h.models = [q]
    elif name in AC_AGENTS:
        h.discrete = False
        h.buf = buffer()
        kw = dict(gpu=None, replay_start_size=g("replay_start", 20), minibatch_size=g("batch", 6),
                  update_interval=g("update_interval", 1))
        if name == "DDPG":
            pi, q = g("model") or (det_policy(), sa_q())
            kw.update(target_update_interval=g("target_interval", 10),
                      n_times_update=g("n_times", 1))
            kw.update(extra)
            h.agent = A.DDPG(pi, q, mk_opt(opt, pi.parameters(), lr), mk_opt(opt, q.parameters(), lr),
                             h.buf, gamma, _explorer(cfg, False), **kw)
            h.models = [pi, q]
        elif name == "TD3":
            pi, q1, q2 = g("model") or (det_policy(), sa_q(), sa_q())
            kw.update(n_times_update=g("n_times", 1))
            kw.update(extra)
            h.agent = A.TD3(pi, q1, q2, mk_opt(opt, pi.parameters(), lr),
                            mk_opt(opt, q1.parameters(), lr), mk_opt(opt, q2.parameters(), lr),
                            h.buf, gamma, _explorer(cfg, False), **kw)
            h.models = [pi, q1, q2]
        else:
            pi = nn.Sequential(mlp(OBS, 2 * ADIM), SquashedHead())
            pi, q1, q2 = g("model") or (pi, sa_q(), sa_q())
            kw.update(dict(entropy_target=-1.0, temperature_optimizer_lr=1e-2))
            kw.update(extra)
            h.agent = A.SoftActorCritic(
                pi, q1, q2, mk_opt(opt, pi.parameters(), lr), mk_opt(opt, q1.parameters(), lr),
                mk_opt(opt, q2.parameters(), lr), h.buf, gamma, **kw)
            h.models = [pi, q1, q2]
    elif name == "A2C":
        h.discrete = g("discrete", True)
        pi, vf = pv_model(h.discrete, False)
        m = pfrl.nn.Branched(pi, vf)
        h.parts = [pi, vf]
        kw = dict(num_processes=g("num_envs", 1), update_steps=g("update_steps", 4))
        kw.update(extra)
        h.agent = A.A2C(m, mk_opt(opt, m.parameters(), lr), gamma, **kw)
        h.models = [m]
    elif name == "A3C":
        h.batch = False
        h.discrete = g("discrete", True)
        pi, vf = pv_model(h.discrete, h.recurrent)
        m = pfrl.nn.RecurrentBranched(pi, vf) if h.recurrent else pfrl.nn.Branched(pi, vf)
        h.parts = [pi, vf]
        o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=lr)
        kw = dict(t_max=g("t_max", 4), gamma=gamma, recurrent=h.recurrent)
        kw.update(extra)
        h.agent = A.A3C(m, o, **kw)
        share(h.agent)
        h.models = [m]
    elif name == "PPO":
        h.discrete = g("discrete", True)
        pi, vf = pv_model(h.discrete, h.recurrent)
        m = pfrl.nn.RecurrentBranched(pi, vf) if h.recurrent else pfrl.nn.Branched(pi, vf)
        h.parts = [pi, vf]
        kw = dict(update_interval=g("update_interval", 24), minibatch_size=g("batch", 8),
                  epochs=g("epochs", 2), gamma=gamma, recurrent=h.recurrent)
        kw.update(extra)
        h.agent = A.PPO(m, mk_opt(opt, m.parameters(), lr), **kw)
        h.models = [m]
    elif name == "TRPO":
        h.discrete = g("discrete", True)
        pi, vf = pv_model(h.discrete, h.recurrent)
        kw = dict(update_interval=g("update_interval", 24), vf_batch_size=g("batch", 8),
                  vf_epochs=g("epochs", 2), gamma=gamma, recurrent=h.recurrent)
        kw.update(extra)
        h.agent = A.TRPO(pi, vf, mk_opt(opt, vf.parameters(), lr), **kw)
        h.models = [pi, vf]
    elif name == "REINFORCE":
        h.batch = False
        h.discrete = g("discrete", True)
        pi, _ = pv_model(h.discrete, h.recurrent)
        kw = dict(beta=0.01, batchsize=g("batch", 2), recurrent=h.recurrent)
        kw.update(extra)
        h.agent = A.REINFORCE(pi, mk_opt(opt, pi.parameters(), lr), **kw)
        h.models = [pi]
    elif name in ("ACER", "ACERcont"):
        h.batch = False
        h.discrete = name == "ACER"
        if name == "ACER":
            if h.recurrent:
                m = pfrl.nn.RecurrentSequential(
                    nn.Linear(OBS, 8), nn.LSTM(8, 6),
                    A.acer.ACERDiscreteActionHead(
                        nn.Sequential(nn.Linear(6, NACT), pfrl.policies.SoftmaxCategoricalHead()),
                        nn.Sequential(nn.Linear(6, NACT), pfrl.q_functions.DiscreteActionValueHead())))
            else:
                m = A.acer.ACERDiscreteActionHead(
                    nn.Sequential(mlp(OBS, NACT), pfrl.policies.SoftmaxCategoricalHead()),
                    discrete_q())
        else:
            m = A.acer.ACERContinuousActionHead(pi=gauss_policy(), v=mlp(OBS, 1), adv=sa_q(), n=2)
        o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=lr)
        h.buf = R.EpisodicReplayBuffer(10**4)
        kw = dict(t_max=g("t_max", 4), gamma=gamma, replay_buffer=h.buf, n_times_replay=2,
                  replay_start_size=g("replay_start", 20), recurrent=h.recurrent)
        kw.update(extra)
        h.agent = A.ACER(m, o, **kw)
        share(h.agent)
        h.models = [m]
    else:
        raise ValueError(name)
    return h


class Stream:
    """Unique observations, scripted terminals and resets for a batch of environments."""

    def __init__(self, n, seed, p_done=0.1, p_reset=0.1, scale=1.0):
        self.n = n
        self.rng = np.random.RandomState(seed)
        self.p_done, self.p_reset = p_done, p_reset
        self.obs = [self.new_obs() for _ in range(n)]
        self.scale = scale

    def new_obs(self):
        return self.rng.uniform(-1, 1, size=OBS).astype(np.float32)

    def step(self):
        """Next observations, rewards, dones, resets; call begin() afterwards."""
        r = self.rng
        nobs = [self.new_obs() for _ in range(self.n)]
        rew = [float(np.round(r.uniform(-1, 1), 4)) * self.scale for _ in range(self.n)]
        done = [bool(r.rand() < self.p_done) for _ in range(self.n)]
        reset = [bool(r.rand() < self.p_reset) for _ in range(self.n)]
        return nobs, rew, done, reset

    def begin(self, nobs, done, reset):
        self.obs = [self.new_obs() if (d or e) else o for o, d, e in zip(nobs, done, reset)]
