"""Instrumented actor-learner training of DQN."""
import os
import threading
import time
import warnings

import numpy as np
import torch
from torch import nn

import pfrl
from pfrl import replay_buffers as R
from vlib import asyncrun as A

N_ACTIONS = 3


class ScalarQ(nn.Module):
    """Q-values determined by one number: q(s, a) = v * (1 + a / 8)."""

    def __init__(self):
        super().__init__()
        self.v = nn.Parameter(torch.tensor([1.0], dtype=torch.float32))
        self.register_buffer("coef", 1 + torch.arange(N_ACTIONS, dtype=torch.float32) / 8)

    def forward(self, x):
        q = self.v * self.coef
        return pfrl.action_value.DiscreteActionValue(q.expand(x.shape[0], N_ACTIONS))


class CountRNN(nn.Module, pfrl.nn.Recurrent):
    """Recurrent Q-function whose state counts the steps since its beginning."""

    def __init__(self):
        super().__init__()
        self.q = ScalarQ()

    def forward(self, seq, h):
        x, lengths = nn.utils.rnn.pad_packed_sequence(seq, batch_first=True)
        B = x.shape[0]
        if h is None:
            h = torch.zeros(B, 1)
        h = h + torch.as_tensor(lengths, dtype=torch.float32).reshape(B, 1)
        return self.q(seq.data), h


class NoteExplorer(pfrl.explorer.Explorer):
    """Random actions; logs the time step and the value of the model acted with."""

    def __init__(self, d, seed):
        self.d, self.seed = d, seed
        self.pid = None

    def select_action(self, t, greedy_action_func, action_value=None):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.log = A.ELog(self.d, "pid%d" % self.pid)
            self.r = np.random.RandomState((self.seed + self.pid) % 2**31)
        self.log.add("x", t=int(t), v=float(action_value.q_values[0, 0]))
        return int(self.r.randint(N_ACTIONS))

    def __repr__(self):
        return "NoteExplorer()"


class Trace:
    def __init__(self):
        self.ev = []
        self.lock = threading.Lock()
        self.counts = {}

    def add(self, *x):
        self.ev.append(x)


def plain(x):
    if x is None:
        return None
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy().reshape(-1).tolist()
    return np.asarray(x).reshape(-1).tolist()


def watch(base, trace, p):
    """A replay buffer class that records what is done to it, with delays and faults."""
    delay = {}

    def wait():
        k = threading.get_ident()
        if k not in delay:
            delay[k] = A.Delay((p["prog"] + 13 * len(delay)) % 2**31, p["delay"])
        delay[k]()

    def fault(op):
        trace.counts[op] = trace.counts.get(op, 0) + 1
        f = p.get("fault")
        if f is not None and f["who"] == op and trace.counts[op] == f["at"]:
            trace.add("fault", op)
            raise A.boom(f)

    class Watched(base):
        def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            fault("append")
            wait()
            trace.add("append", env_id, plain(state), int(action), float(reward), plain(next_state), bool(is_state_terminal),
                      {k: plain(v) for k, v in kw.items()})
            out = super().append(state, action, reward, next_state, next_action, is_state_terminal, env_id=env_id, **kw)
            wait()
            return out

        def stop_current_episode(self, env_id=0):
            wait()
            trace.add("stop", env_id)
            return super().stop_current_episode(env_id=env_id)

        def sample(self, n):
            fault("sample")
            out = super().sample(n)
            trace.add("sample", [(tuple(plain(t[0]["state"])), tuple(plain(t[-1]["next_state"])), t[0].get("weight"), len(t)) for t in out])
            wait()
            return out

        def sample_episodes(self, *a, **k):
            fault("sample")
            out = super().sample_episodes(*a, **k)
            trace.add("sample", [])
            wait()
            return out

    if base is R.PrioritizedReplayBuffer:
        class Watched2(Watched):
            def update_errors(self, errors):
                wait()
                trace.add("errors", [float(e) for e in errors])
                return super().update_errors(errors)
        return Watched2
    return Watched


def value(model):
    return float((model.q if isinstance(model, CountRNN) else model).v.detach()[0])


def run(p, d, outdir):
    import multiprocessing as mp

    torch.set_num_threads(1)
    if p.get("jitter"):
        A.jitter_values(p["jitter"], p["prog"])
    tr = Trace()
    P = p["actors"]
    if p["recurrent"]:
        model = CountRNN()
        buf = watch(R.EpisodicReplayBuffer, tr, p)(p["capacity"])
    else:
        model = ScalarQ()
        if p["prioritized"]:
            buf = watch(R.PrioritizedReplayBuffer, tr, p)(p["capacity"], alpha=0.6, beta0=0.7, betasteps=None, num_steps=p["n_step"], error_max=p["error_max"])
        else:
            buf = watch(R.ReplayBuffer, tr, p)(p["capacity"], num_steps=p["n_step"])
    cls = {"DQN": pfrl.agents.DQN, "DoubleDQN": pfrl.agents.DoubleDQN}[p["agent"]]
    opt = torch.optim.SGD(model.parameters(), lr=0.01)
    agent = cls(model, opt, buf, 0.9, NoteExplorer(d, p["prog"]), replay_start_size=p["start"], minibatch_size=p["batch"], update_interval=p["update_interval"],
                target_update_interval=p["target_interval"], recurrent=p["recurrent"], episodic_update_len=4, phi=lambda x: np.asarray(x, np.float32))
    vals = [value(model)]
    targets = [value(agent.target_model)]
    hooks, steph = [], []
    udelay = A.Delay(p["prog"] % 2**31, p["delay"])

    def opt_hook(env, ag, t):
        hooks.append((env is None, ag is agent, int(t)))
        vals.append(value(ag.model))
        targets.append(value(ag.target_model))
        f = p.get("fault")
        if f is not None and f["who"] == "learner" and len(hooks) == f["at"]:
            tr.add("fault", "learner")
            raise A.boom(f)
        udelay()

    def step_hook(env, ag, t):
        steph.append((env is None, ag is agent, int(t)))

    counter = mp.Value("L", 0)
    kw = dict(update_counter=counter) if p["own_counter"] else {}
    make_actor, learner, poller, exc = agent.setup_actor_learner_training(
        P, n_updates=p["n_updates"], actor_update_interval=p["publish"], step_hooks=[step_hook], optimizer_step_hooks=[opt_hook], **kw)
    sync = mp.Barrier(P)

    def make_env(process_idx, test):
        f = p.get("fault")
        fault = dict(f, idx=f["idx"], test=False) if f is not None and f["who"] == "actor" else None
        e = A.Env(d, process_idx, test, seed=(p["prog"] + 1009 * process_idx + 5 * test) % 2**31, p_done=p["p_done"], p_reset=p["p_reset"],
                  delay=p["delay"] * p["slow"][process_idx % 3], fault=fault, sync=None if test else sync)
        e.log.add("pid", pid=os.getpid(), test=test)
        return e

    poller.start()
    learner.start()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        pfrl.experiments.train_agent_async(
            outdir, P, make_env, make_agent=make_actor, steps=p["steps"], eval_interval=p["interval"], eval_n_episodes=1, eval_n_steps=None,
            max_episode_len=p["max_len"], stop_event=learner.stop_event, exception_event=exc, random_seeds=list(range(P)))
    want = sum(1 for i in range(P) for e in A.read_log(d, str(i)) if e["e"] == "step" and not e["test"])
    end = time.monotonic() + 30
    while time.monotonic() < end and sum(e[0] == "append" for e in list(tr.ev)) < want:
        time.sleep(0.01)
    time.sleep(0.05)
    n_app = sum(e[0] == "append" for e in list(tr.ev))
    t_learn = time.monotonic() + p.get("learn_on", 0)
    while time.monotonic() < t_learn and learner.is_alive():
        time.sleep(0.01)
    learner.stop()
    learner.join(30)
    # an actor of the caller talks to the running poller
    a0 = make_actor(0)
    stats = dict(a0.get_statistics())
    a0.save(os.path.join(outdir, "explicit"))
    v_end = value(agent.model)
    poller.stop()
    poller.join(30)
    pub = value(a0.model)
    return dict(ev=tr.ev, vals=vals, targets=targets, hooks=hooks, steph=steph, want=want, n_app=n_app, optim_t=agent.optim_t, stats=stats, v_end=v_end,
                published=pub, counter=counter.value if p["own_counter"] else agent.update_counter.value, cumulative=agent.cumulative_steps, exc=exc.is_set(),
                saved=float(list(torch.load(os.path.join(outdir, "explicit", "model.pt")).values())[0].reshape(-1)[0]),
                alive=[t.name for t in (learner, poller) if t.is_alive()], t=agent.t,
                warnings=[str(w.message) for w in ws if issubclass(w.category, pfrl.utils.async_.AbnormalExitWarning)])
