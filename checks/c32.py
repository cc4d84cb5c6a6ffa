"""C32: environment modifiers, reward filters, batching, mode switching and small utilities."""
import math
import os
import subprocess
import sys
import threading

import numpy as np
import torch
from torch import nn

from vlib.core import Kind

LEVEL = "exploration"
RULE = (
    "modifiers: two scripted environments are each modified by a random stack of the modifiers and driven through random "
    "histories of resets and steps; every return value and every call that reached the environment is compared with a "
    "reference composition. filters: reward filters over random reward streams of all magnitudes against double precision averages. "
    "batch: random feature structures. modes: evaluating() over random module trees in mixed modes, nested, with exceptions. "
    "misc: yes/no questions, return codes, stoppable threads, the pruning hook with a stand-in optimisation library. "
    "distinct_nontrivial counts distinct (modifier stack, structure, options)."
)


# ---------------------------------------------------------------- environment modifiers
class Script:
    """Environment with a scripted reward and end sequence that logs its calls."""

    def __init__(self, seed, p_done):
        self.rng = np.random.RandomState(seed)
        self.p_done = p_done
        self.log = []
        self.t = 0

    def reset(self):
        self.t = 0
        self.log.append(("reset",))
        return ("obs", float(self.rng.rand()))

    def step(self, action):
        self.t += 1
        self.log.append(("step", action))
        r = float(np.round(self.rng.normal() * 3, 2))
        return ("obs", float(self.rng.rand())), r, bool(self.rng.rand() < self.p_done), {"t": self.t}

    def render(self, *args, **kwargs):
        self.log.append(("render", args, tuple(sorted(kwargs.items()))))
        return "img"

    def close(self):
        self.log.append(("close",))

    extra = "kept"


class Ref:
    """Reference composition of modifiers around a Script."""

    def __init__(self, env):
        self.env = env
        self.step, self.reset, self.close = env.step, env.reset, env.close

    def add(self, m):
        st, rs, cl, env = self.step, self.reset, self.close, self.env
        k = m["k"]
        if k == "render":
            def step(a):
                out = st(a)
                env.render(*m["args"], **m["kw"])
                return out

            def close():
                env.render(*m["args"], close=True, **m["kw"])
                cl()
            self.step, self.close = step, close
        elif k == "limit":
            n = [0]

            def step(a):
                o, r, d, i = st(a)
                n[0] += 1
                return o, r, bool(d or n[0] >= m["n"]), i

            def reset():
                n[0] = 0
                return rs()
            self.step, self.reset = step, reset
        elif k == "action":
            self.step = lambda a: st(m["f"](a))
        elif k == "reward":
            def step(a):
                o, r, d, i = st(a)
                return o, m["f"](r), d, i
            self.step = step
        elif k == "clip":
            def step(a):
                o, r, d, i = st(a)
                return o, min(max(r, m["lo"]), m["hi"]), d, i
            self.step = step
        else:
            def step(a):
                tot = 0
                for _ in range(m["n"]):
                    o, r, d, i = st(a)
                    tot += r
                    if d:
                        break
                return o, tot, d, i
            self.step = step


def mods(rng):
    out = []
    for _ in range(rng.randint(0, 5)):
        k = ["render", "limit", "action", "reward", "clip", "repeat"][rng.randint(6)]
        m = dict(k=k)
        if k == "render":
            m.update(args=[1] if rng.rand() < 0.3 else [], kw={"mode": "x"} if rng.rand() < 0.5 else {})
        elif k in ("limit", "repeat"):
            m.update(n=int(rng.choice([1, 2, 3, 7])))
        elif k in ("action", "reward"):
            m.update(mul=float(rng.choice([-1, 0.5, 2])), add=float(rng.choice([0, 1])))
        elif k == "clip":
            lo = float(rng.choice([-1, 0, -3]))
            m.update(lo=lo, hi=lo + float(rng.choice([0, 1, 4])))
        out.append(m)
    return out


def gen_mods(rng, tier):
    return dict(envs=[dict(mods=mods(rng), p_done=float(rng.choice([0.0, 0.1, 0.4]))) for _ in range(2)], steps=int(rng.choice([20, 60, 200])), prog=int(rng.randint(2**31)))


def check_mods(p, obs):
    from pfrl.utils import env_modifiers as M

    rng = np.random.RandomState(p["prog"])
    pairs = []
    for j, e in enumerate(p["envs"]):
        a, b = (Script(p["prog"] % 1000 + j, e["p_done"]) for _ in range(2))
        r = Ref(b)
        calls = ([], [])
        for m in e["mods"]:
            k = m["k"]

            def filt(log, m=m):
                def f(x):
                    log.append(x)
                    return x * m["mul"] + m["add"]
                return f

            if k == "render":
                out = M.make_rendered(a, *m["args"], **m["kw"])
            elif k == "limit":
                out = M.make_timestep_limited(a, m["n"])
            elif k == "action":
                out = M.make_action_filtered(a, filt(calls[0]))
            elif k == "reward":
                out = M.make_reward_filtered(a, filt(calls[0]))
            elif k == "clip":
                out = M.make_reward_clipped(a, m["lo"], m["hi"])
            else:
                out = M.make_action_repeated(a, m["n"])
            obs.require(out is None or out is a, "a modifier returned another object")
            r.add(dict(m, f=filt(calls[1]) if k in ("action", "reward") else None))
        pairs.append((a, b, r, calls, [m["k"] for m in e["mods"]]))
    ended = [True, True]
    for t in range(p["steps"]):
        j = rng.randint(2)
        a, b, r, calls, names = pairs[j]
        if ended[j] or rng.rand() < 0.05:
            got, want = a.reset(), r.reset()
            obs.require(got == want, "reset returned %s instead of %s" % (got, want))
            ended[j] = False
        else:
            act = float(np.round(rng.normal(), 2))
            got, want = a.step(act), r.step(act)
            obs.require(got[0] == want[0], lambda: "%s: observation %s instead of %s" % (names, got[0], want[0]))
            obs.require(abs(got[1] - want[1]) < 1e-9, lambda: "%s: reward %s instead of %s" % (names, got[1], want[1]))
            obs.require(bool(got[2]) == bool(want[2]), lambda: "%s: done %s instead of %s at step %d of the episode" % (names, got[2], want[2], a.t))
            obs.require(got[3] == want[3], lambda: "%s: info %s instead of %s" % (names, got[3], want[3]))
            ended[j] = bool(want[2])
            obs.n("env_steps")
        for x, y, _, c, nm in pairs:
            obs.require(x.log == y.log, lambda: "%s: the environment received %s instead of %s" % (nm, x.log[-4:], y.log[-4:]))
            obs.require(c[0] == c[1], lambda: "%s: the filter received %s instead of %s" % (nm, c[0][-3:], c[1][-3:]))
    for a, b, r, calls, names in pairs:
        a.close()
        r.close()
        obs.require(a.log == b.log, lambda: "%s: closing reached the environment as %s instead of %s" % (names, a.log[-4:], b.log[-4:]))
        obs.require(a.extra == "kept", "attributes are lost")
        obs.sig(names)


# ---------------------------------------------------------------- reward filters
def gen_filters(rng, tier):
    return dict(norm=bool(rng.randint(2)), default=bool(rng.rand() < 0.3), tau=float(rng.choice([1e-3, 0.05, 0.5, 1.0])), scale=float(rng.choice([1.0, 0.1, 5.0])),
                eps=float(rng.choice([1e-1, 1e-3, 2.0])), stream=["zero", "const", "normal", "big", "sparse", "ints", "small"][rng.randint(7)], n=int(rng.choice([1, 20, 300])),
                prog=int(rng.randint(2**31)))


def check_filters(p, obs):
    from pfrl.utils import reward_filter as R

    rng = np.random.RandomState(p["prog"])
    s = p["stream"]
    n = p["n"]
    rs = {"zero": np.zeros(n), "const": np.full(n, 2.5), "normal": rng.normal(size=n), "big": rng.normal(size=n) * 1e3,
          "sparse": (rng.rand(n) < 0.1) * 1.0, "ints": rng.randint(-3, 4, n), "small": rng.normal(size=n) * 1e-4}[s]
    tau, scale, eps = (1e-3, 1.0, 1e-1) if p["default"] else (p["tau"], p["scale"], p["eps"])
    if p["norm"]:
        f, g = (R.NormalizedRewardFilter() if p["default"] else R.NormalizedRewardFilter(tau=tau, scale=scale, eps=eps) for _ in range(2))
    else:
        f, g = (R.AverageRewardFilter() if p["default"] else R.AverageRewardFilter(tau=tau) for _ in range(2))
    avg = sq = 0.0
    for r in rs:
        r = int(r) if s == "ints" else float(r)
        if rng.rand() < 0.3:
            g(100.0)  # another filter has its own averages
        got = f(r)
        avg = (1 - tau) * avg + tau * r
        sq = (1 - tau) * sq + tau * r * r
        var = sq - avg * avg
        if p["norm"]:
            want = scale * (r - avg) / math.sqrt(max(var, eps))
            tol = 1e-6 * (1 + abs(want)) + 1e-7 * scale * (1 + abs(r)) * (1 + sq) / eps
        else:
            want, tol = r - avg, 1e-8 * (1 + abs(r))
        obs.require(abs(got - want) <= tol, lambda: "filtered reward %r instead of %r (reward %r, average %r, variance %r)" % (got, want, r, avg, var))
    obs.n("rewards", n)
    obs.sig("filter", p["norm"], s, tau, eps)


# ---------------------------------------------------------------- batches of states
def gen_batch(rng, tier):
    return dict(n=int(rng.choice([1, 2, 5, 17])), form=["array", "tuple", "list", "scalar", "int", "npscalar", "tensor", "single"][rng.randint(8)],
                parts=[dict(shape=[int(x) for x in rng.randint(1, 4, rng.randint(0, 4))], dtype=str(rng.choice(["float32", "float64", "uint8", "int64"]))) for _ in range(rng.randint(1, 4))],
                prog=int(rng.randint(2**31)))


def check_batch(p, obs):
    import pfrl

    rng = np.random.RandomState(p["prog"])

    def part(q):
        return np.asarray(rng.uniform(0, 100, q["shape"])).astype(q["dtype"])

    f, n = p["form"], p["n"]
    feats = []
    for _ in range(n):
        if f in ("array", "tensor"):
            feats.append(part(p["parts"][0]))
        elif f in ("tuple", "list", "single"):
            ps = p["parts"][:1] if f == "single" else p["parts"]
            x = [part(q) for q in ps]
            feats.append(x if f == "list" else tuple(x))
        elif f == "int":
            feats.append(int(rng.randint(100)))
        elif f == "npscalar":
            feats.append(np.float32(rng.rand()))
        else:
            feats.append(float(rng.rand()))
    states = [("s", i) for i in range(n)]
    calls = []

    def phi(s):
        calls.append(s)
        y = feats[s[1]]
        return torch.as_tensor(y) if f == "tensor" else y

    keep = [repr(x) for x in feats]
    out = pfrl.utils.batch_states(states, torch.device("cpu"), phi)
    obs.require(sorted(calls) == states, lambda: "the feature extractor was called with %s" % calls)
    obs.require([repr(x) for x in feats] == keep, "the features were modified")

    def eq(t, rows, what):
        obs.require(isinstance(t, torch.Tensor) and t.device.type == "cpu", "%s is a %s" % (what, type(t)))
        rows = np.stack([np.asarray(r) for r in rows])
        obs.require(tuple(t.shape) == rows.shape, lambda: "%s has shape %s instead of %s" % (what, tuple(t.shape), rows.shape))
        obs.require(np.array_equal(t.numpy(), rows), lambda: "%s holds other values" % what)
        if f != "scalar" and f != "int":
            obs.require(str(t.numpy().dtype) == str(rows.dtype), lambda: "%s has dtype %s instead of %s" % (what, t.dtype, rows.dtype))

    if f in ("tuple", "list", "single"):
        obs.require(isinstance(out, list if f == "list" else tuple), lambda: "a batch of %ss is a %s" % (f, type(out)))
        obs.require(len(out) == len(feats[0]), lambda: "a batch has %d parts" % len(out))
        for k, t in enumerate(out):
            eq(t, [x[k] for x in feats], "part %d" % k)
    else:
        eq(out, feats, "the batch")
    obs.sig("batch", f, n, len(p["parts"]))


# ---------------------------------------------------------------- evaluation mode
def gen_modes(rng, tier):
    return dict(tree=int(rng.randint(4)), frozen=[bool(rng.rand() < 0.3) for _ in range(12)], raise_=bool(rng.rand() < 0.4), nested=bool(rng.randint(2)), root=bool(rng.rand() < 0.8))


def check_modes(p, obs):
    import pfrl

    t = p["tree"]
    if t == 0:
        net = nn.Linear(2, 2)
    elif t == 1:
        net = nn.Sequential(nn.Linear(2, 3), nn.BatchNorm1d(3), nn.Dropout(0.5), nn.Sequential(nn.Linear(3, 2), nn.BatchNorm1d(2)))
    elif t == 2:
        net = pfrl.nn.Branched(nn.Sequential(nn.Linear(2, 2), nn.Dropout()), pfrl.nn.MLPBN(2, 2, [3]))
    else:
        net = pfrl.nn.RecurrentSequential(nn.Linear(2, 2), nn.LSTM(2, 2), nn.Dropout())
    for m, f in zip(net.modules(), p["frozen"] * 3):
        m.training = not f
    net.training = p["root"]
    before = {n: m.training for n, m in net.named_modules()}
    other = nn.Linear(1, 1)

    class E(Exception):
        pass

    try:
        with pfrl.utils.evaluating(net) as got:
            obs.require(got is net, "evaluating gives another object")
            obs.require(not any(m.training for m in net.modules()), "a module is not in evaluation mode within evaluating")
            obs.require(other.training, "another network was switched to evaluation mode")
            if p["nested"]:
                sub = list(net.modules())[-1]
                with pfrl.utils.evaluating(sub), pfrl.utils.evaluating(other):
                    obs.require(not other.training and not any(m.training for m in net.modules()), "nested evaluating")
                obs.require(other.training and not any(m.training for m in net.modules()), "leaving a nested evaluating changed a mode")
            if p["raise_"]:
                raise E
        obs.require(not p["raise_"], "evaluating swallowed an exception")
    except E:
        obs.require(p["raise_"], "an exception appeared")
    after = {n: m.training for n, m in net.named_modules()}
    obs.require(after == before, lambda: "modes after evaluating: %s instead of %s" % (after, before))
    obs.sig("modes", t, p["frozen"], p["root"], p["raise_"])


# ---------------------------------------------------------------- small utilities
PRUNE = r"""
import sys, types, json
m = types.ModuleType("optuna")
class TrialPruned(Exception):
    pass
m.TrialPruned = TrialPruned
m.exceptions = types.SimpleNamespace(TrialPruned=TrialPruned)
m.Trial = m.trial = object
sys.modules["optuna"] = m
spec = json.loads(sys.argv[1])
from pfrl.experiments.evaluation_hooks import OptunaPrunerHook
class Trial:
    def __init__(self):
        self.got = []
    def report(self, value, step):
        self.got.append((value, step))
    def should_prune(self):
        return len(self.got) in spec["prune"]
t = Trial()
h = OptunaPrunerHook(t)
out = []
for i, (mean, step) in enumerate(spec["evals"]):
    stats = {"mean": mean, "median": mean + 1, "max": mean + 2, "min": mean - 2, "episodes": 3, "stdev": 0.5, "length_mean": 7.0}
    try:
        h(None, None, None, step, stats, [], [])
        out.append(False)
    except TrialPruned:
        out.append(True)
print("RESULT " + json.dumps(dict(got=t.got, out=out, sup=[h.support_train_agent, h.support_train_agent_batch, h.support_train_agent_async])))
"""


def gen_misc(rng, tier):
    k = ["ask", "ask", "code", "code", "thread", "prune", "noopt"][rng.randint(7)]
    d = dict(kind=k)
    if k == "ask":
        bad = ["", "x", "yess", "nope", "1", "true", "maybe", "yn"]
        good = ["y", "Y", "ye", "yes", "YES", "Ye", "n", "N", "no", "NO", "No"]
        d["answers"] = [str(rng.choice(bad)) for _ in range(rng.randint(4))] + [str(rng.choice(good))]
    elif k == "code":
        d["cmd"] = ["exit", "signal", "missing", "noexec", "loud"][rng.randint(5)]
        d["code"] = int(rng.choice([0, 0, 1, 2, 77, 255]))
    elif k == "prune":
        d["evals"] = [[float(np.round(rng.normal(), 3)), int(x)] for x in np.cumsum(rng.randint(1, 50, rng.randint(1, 6)))]
        d["prune"] = [int(x) for x in rng.randint(1, 6, 2)]
    return d


def check_misc(p, obs):
    import pfrl

    k = p["kind"]
    if k == "ask":
        import builtins

        from pfrl.utils.ask_yes_no import ask_yes_no

        left, asked = list(p["answers"]), []

        def inp(prompt=""):
            asked.append(prompt)
            return left.pop(0)

        old = builtins.input
        builtins.input = inp
        try:
            got = ask_yes_no("Really?")
        finally:
            builtins.input = old
        obs.require(not left and len(asked) == len(p["answers"]), lambda: "answers left: %s" % left)
        obs.require(all("Really?" in a for a in asked), lambda: "asked %s" % asked)
        obs.require(got is p["answers"][-1].lower().startswith("y"), lambda: "%r was understood as %s" % (p["answers"][-1], got))
    elif k == "code":
        d = obs.tmpdir()
        cmd = {"exit": ["/bin/sh", "-c", "exit %d" % p["code"]], "signal": ["/bin/sh", "-c", "kill -TERM $$"], "missing": [d + "/no-such-command", "x"],
               "noexec": [d + "/plain"], "loud": ["/bin/sh", "-c", "echo out; echo err >&2; exit %d" % p["code"]]}[p["cmd"]]
        open(d + "/plain", "w").close()
        fd = [os.dup(1), os.dup(2)]
        with open(d + "/cap", "wb") as f:
            sys.stdout.flush()
            sys.stderr.flush()
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            try:
                got = pfrl.utils.is_return_code_zero(cmd)
            finally:
                os.dup2(fd[0], 1)
                os.dup2(fd[1], 2)
                for x in fd:
                    os.close(x)
        want = p["cmd"] in ("exit", "loud") and p["code"] == 0
        obs.require(got is want, lambda: "is_return_code_zero(%s) is %r" % (cmd, got))
        obs.require(os.path.getsize(d + "/cap") == 0, "the command's output was not suppressed")
    elif k == "thread":
        ev = threading.Event()
        seen = []

        def work(a, b=0):
            while not th.is_stopped():
                ev.wait(0.005)
            seen.append((a, b))

        th = pfrl.utils.StoppableThread(ev, target=work, args=(1,), kwargs=dict(b=2), name="tt", daemon=True)
        obs.require(th.name == "tt" and th.daemon and not th.is_stopped(), "arguments of the thread")
        th.start()
        th.join(0.02)
        obs.require(th.is_alive() and not seen, "the thread stopped by itself")
        th.stop()
        th.join(60)
        obs.require(not th.is_alive() and th.is_stopped() and ev.is_set() and seen == [(1, 2)], "the thread did not stop")
    else:
        import json

        env = dict(os.environ)
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(pfrl.__file__)))
        if k == "noopt":
            code = "import sys\nsys.modules['optuna'] = None\nfrom pfrl.experiments.evaluation_hooks import OptunaPrunerHook\ntry:\n    OptunaPrunerHook(None)\n    print('RESULT made')\nexcept RuntimeError:\n    print('RESULT refused')\n"
            r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=120)
            obs.require("RESULT refused" in r.stdout, lambda: "without the library: %s %s" % (r.stdout[-300:], r.stderr[-300:]))
        else:
            r = subprocess.run([sys.executable, "-c", PRUNE, json.dumps(p)], env=env, capture_output=True, text=True, timeout=120)
            line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
            obs.require(bool(line), lambda: "the pruning hook failed: %s" % r.stderr[-500:])
            d = json.loads(line[0][7:])
            obs.require(d["got"] == p["evals"], lambda: "reported %s instead of %s" % (d["got"], p["evals"]))
            obs.require(d["out"] == [i + 1 in p["prune"] for i in range(len(p["evals"]))], lambda: "pruned %s" % d["out"])
            obs.require(d["sup"] == [True, True, False], lambda: "supported training loops %s" % d["sup"])
    obs.sig("misc", sorted(p.items(), key=str))


KINDS = [
    Kind("modifiers", gen_mods, check_mods, 600, 8000),
    Kind("filters", gen_filters, check_filters, 400, 5000),
    Kind("batch", gen_batch, check_batch, 400, 5000),
    Kind("modes", gen_modes, check_modes, 200, 2000),
    Kind("misc", gen_misc, check_misc, 50, 300),
]
