"""Instrumented runs of train_agent_async: per-process event logs and containment of failures."""
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import torch
from torch import nn

import pfrl


def boom(f):
    """The exception to inject: failures come in all types."""
    return {"runtime": RuntimeError, "value": ValueError, "key": KeyError, "os": OSError, "type": TypeError}.get(f.get("exc"), Boom)("injected")


class Boom(Exception):
    """Injected fault."""


def in_session(fn, timeout):
    """Run fn() in a process that leads its own session.

    Returns (status, value, left): status is "ok", "error", "exit N", "signal N" or "timeout";
    left is the number of processes of the session that were still alive afterwards.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setsid()
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
            try:
                out = ("ok", fn())
            except SystemExit:
                raise
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    os.set_blocking(r, False)
    buf = b""
    end = time.monotonic() + timeout
    status = None
    while True:
        try:
            while True:
                x = os.read(r, 1 << 16)
                if not x:
                    break
                buf += x
        except BlockingIOError:
            pass
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() > end:
            status = "timeout"
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(0.005)
    try:
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
    except BlockingIOError:
        pass
    os.close(r)
    left = session_alive(pid)
    t_end = time.monotonic() + (20 if status != "timeout" else 0)
    while left and time.monotonic() < t_end:
        time.sleep(0.02)
        left = session_alive(pid)
    if left:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    val = None
    if status is None:
        if buf:
            status, val = pickle.loads(buf)
        elif os.WIFSIGNALED(st):
            status = "signal %d" % os.WTERMSIG(st)
        else:
            status = "exit %d" % os.WEXITSTATUS(st)
    return status, val, left


def session_alive(sid):
    n = 0
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % d) as f:
                x = f.read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if int(x[3]) == sid and x[0] not in "ZX":
            n += 1
    return n


class ELog:
    """Append-only event log of one process."""

    def __init__(self, d, name):
        self.path = os.path.join(d, "log.%s" % name)
        self.fd = None
        self.pid = None
        self.n = 0

    def add(self, e, **kw):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        kw["e"] = e
        kw["ns"] = time.monotonic_ns()
        os.write(self.fd, (json.dumps(kw) + "\n").encode())


def read_log(d, name):
    p = os.path.join(d, "log.%s" % name)
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(x) for x in f]


class Delay:
    """Random delays of one process, by operation."""

    def __init__(self, seed, scale):
        self.r = np.random.RandomState(seed)
        self.s = scale
        self.burst = 0

    def __call__(self):
        if self.s <= 0:
            return
        if self.burst > 0:
            self.burst -= 1
            return
        u = self.r.rand()
        if u < 0.1:
            self.burst = int(self.r.randint(5, 40))
        elif u < 0.5:
            time.sleep(self.s * float(self.r.rand()))
        elif u < 0.55:
            time.sleep(8 * self.s * float(self.r.rand()))


class Env(pfrl.env.Env):
    """Scripted environment writing everything to the log of its process."""

    action_space = observation_space = None

    def __init__(self, d, idx, test, seed, p_done=0.1, p_reset=0.05, delay=0.0, fault=None, sync=None, scores=None, min_len=1):
        self.log = ELog(d, "%d" % idx)
        self.idx, self.test = idx, test
        self.r = np.random.RandomState(seed)
        self.p_done, self.p_reset, self.min_len = p_done, p_reset, min_len
        self.delay = Delay(seed ^ 77, delay)
        self.fault = fault
        self.ep, self.k, self.n = 0, 0, 0
        self.sync = sync
        self.scores = scores

    def _obs(self):
        return np.array([self.idx, int(self.test), self.ep, self.k], dtype=np.float32)

    def reset(self):
        if self.sync is not None and self.ep == 0:
            self.sync.wait()
        self.delay()
        self.ep += 1
        self.k = 0
        self.log.add("reset", test=self.test, obs=self._obs().tolist())
        return self._obs()

    def step(self, a):
        self.delay()
        self.n += 1
        f = self.fault
        if f is not None and f["test"] == self.test and f["idx"] == self.idx and self.n == f["at"]:
            self.log.add("fault", how=f["how"], test=self.test)
            if f["how"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if f["how"] == "interrupt":
                raise KeyboardInterrupt()
            raise boom(f)
        self.k += 1
        done = bool(self.k >= self.min_len and self.r.rand() < self.p_done)
        needs = bool(self.k >= self.min_len and self.r.rand() < self.p_reset)
        rew = float(self.r.randint(-8, 9)) / 8 if self.scores is None else float(self.scores[self.ep % len(self.scores)]) * (self.k == 1)
        info = {"needs_reset": True} if needs else {}
        self.log.add("step", test=self.test, a=int(np.sum(a)), obs=self._obs().tolist(), r=rew, done=done, needs=needs)
        return self._obs(), rew, done, info

    def close(self):
        self.log.add("close", test=self.test)


class SlotModel(nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(n, dtype=torch.float64))
        self.register_buffer("c", torch.zeros(n, dtype=torch.float64))


class SlotOpt(torch.optim.Optimizer):
    """Keeps one tensor of state from the start, as SharedRMSprop does."""

    def __init__(self, params):
        super().__init__(list(params), {})
        for g in self.param_groups:
            for p in g["params"]:
                self.state[p]["acc"] = torch.zeros_like(p.data)

    def slots(self):
        return self.state[self.param_groups[0]["params"][0]]["acc"]


class Agent(pfrl.agent.AsyncAgent):
    """Recording agent whose worker i counts its observations in slot i of shared tensors."""

    shared_attributes = ("model", "optimizer")
    process_idx = None

    def __init__(self, d, n, made_for=None, delay=0.0, seed=0):
        self.d, self.delay_scale, self.seed = d, delay, seed
        self.model = SlotModel(n)
        self.optimizer = SlotOpt(self.model.parameters())
        self.made_for = made_for
        self._training = True
        self.count = 0
        self.delays = None
        self.nsave = 0
        self.act_n = 0

    @property
    def training(self):
        return self._training

    @training.setter
    def training(self, v):
        self._training = v

    def _log(self):
        if self.delays is None:
            self.delays = Delay(self.seed * 31 + self.process_idx, self.delay_scale)
            self.log = ELog(self.d, "%d" % self.process_idx)
        return self.log

    def act(self, obs):
        self._log()
        self.delays()
        self.act_n += 1
        self.log.add("act", obs=np.asarray(obs).tolist(), training=bool(self.training), a=self.act_n)
        return self.act_n

    def observe(self, obs, reward, done, reset):
        self._log()
        self.delays()
        i = self.process_idx
        if self.training:
            self.count += 1
            self.model.w.data[i] += 1
            self.model.c[i] += 2
            self.optimizer.slots()[i] += 3
        self.log.add("observe", obs=np.asarray(obs).tolist(), r=float(reward), done=bool(done), reset=bool(reset), training=bool(self.training))

    def save(self, dirname):
        self._log()
        self.delays()
        self.nsave += 1
        os.makedirs(dirname, exist_ok=True)
        # workers that succeed at the same time save into the same directory: the last one counts
        path = os.path.join(dirname, "who.json")
        with open("%s.%d" % (path, os.getpid()), "w") as f:
            json.dump(dict(idx=self.process_idx, nsave=self.nsave, count=self.count), f)
        os.replace("%s.%d" % (path, os.getpid()), path)
        self.log.add("save", dir=os.path.basename(dirname), nsave=self.nsave, count=self.count)

    def load(self, dirname):
        pass

    def get_statistics(self):
        return [("count", self.count)]


class EvalHook(pfrl.experiments.evaluation_hooks.EvaluationHook):
    support_train_agent_async = True

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        agent._log().add("evalhook", step=int(step), mean=float(eval_stats["mean"]), idx=env.idx, test=env.test, made=agent.process_idx,
                         max=float(evaluator.max_score))


class StepHook:
    def __init__(self, which, delay=0.0, action=None):
        self.which, self.action = which, action

    def __call__(self, env, agent, t):
        agent._log().add("hook", which=self.which, t=int(t), idx=env.idx, test=env.test, made=agent.process_idx)
        if self.action is not None:
            self.action(t)


def jitter_values(scale, seed):
    """Delay the process between accesses of shared counters (multiprocessing.Value)."""
    from multiprocessing import sharedctypes as sc

    old = sc.Synchronized.value
    state = {}

    def wait():
        if state.get("pid") != os.getpid():
            state["pid"] = os.getpid()
            state["r"] = np.random.RandomState((seed + os.getpid()) % 2**31)
        if state["r"].rand() < 0.4:
            time.sleep(scale * float(state["r"].rand()))

    def get(self):
        v = old.fget(self)
        wait()
        return v

    def put(self, v):
        wait()
        old.fset(self, v)

    sc.Synchronized.value = property(get, put)


def run(p, d, outdir):
    """train_agent_async with recording agents; returns what the parent saw."""
    import torch.multiprocessing as mp

    P = p["procs"]
    if p.get("jitter"):
        jitter_values(p["jitter"], p["prog"])
    sync = mp.Barrier(P) if p.get("sync", True) else None
    stop_event = mp.Event() if p.get("stop_at") is not None or p.get("own_stop") else None
    exc = mp.Event() if p.get("except_at") is not None else None

    def action(t):
        if p.get("stop_at") is not None and t == p["stop_at"]:
            stop_event.set()
        if exc is not None and t == p["except_at"]:
            exc.set()

    def make_env(process_idx, test):
        ELog(d, "%d" % process_idx).add("make", test=test)
        return Env(d, process_idx, test, seed=(p["prog"] + 1009 * process_idx + (500009 if test else 0)) % 2**31,
                   p_done=p["p_done"], p_reset=p["p_reset"], delay=p["delay"] * p["slow"][process_idx % len(p["slow"])],
                   fault=p.get("fault"), sync=None if test else sync, scores=p.get("scores") if test else None)

    def make_agent(i):
        return Agent(d, P, i, delay=p["delay"], seed=p["prog"] % 10007)

    kw = {}
    if p["make_agent"]:
        kw["make_agent"] = make_agent
    else:
        kw["agent"] = make_agent(0)
    if p.get("seeds"):
        kw["random_seeds"] = p["seeds"][:P]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        ret = pfrl.experiments.train_agent_async(
            outdir, P, make_env, steps=p["steps"], eval_interval=p["interval"], eval_n_steps=None, eval_n_episodes=p["n_eval"],
            max_episode_len=p["max_len"], step_offset=p["offset"], successful_score=p.get("success"),
            global_step_hooks=[StepHook(0, action=action), StepHook(1)], evaluation_hooks=(EvalHook(),),
            save_best_so_far_agent=p["save_best"], stop_event=stop_event, exception_event=exc, use_shared_memory=p["shared"], **kw)
    out = dict(warnings=[str(w.message) for w in ws if issubclass(w.category, pfrl.utils.async_.AbnormalExitWarning)],
               stopped=stop_event.is_set() if stop_event is not None else None)
    if ret is not None:
        out.update(w=ret.model.w.data.tolist(), c=ret.model.c.tolist(), acc=ret.optimizer.slots().tolist())
    return out
