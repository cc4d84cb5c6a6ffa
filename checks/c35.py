"""C35: agents depend on the values they are given, not on how these are represented."""
import collections
import warnings

import numpy as np
import torch

from vlib.core import Kind
from vlib import agents as V

LEVEL = "exploration"
RULE = (
    "Each case trains one agent (all agents; feed-forward and recurrent, all memories) twice with "
    "the same seed on the same stream. The first run gets plain float32 arrays, floats and bools "
    "in lists. The second gets the same values in another form: observations as raw objects "
    "(bytes image, dict, tuple, lazily stacked frames, list) turned into the same array by the "
    "agent's feature extractor, read-only, strided, array views or tensors, rewards as numpy "
    "scalars or integers, flags as numpy booleans, batches as tuples or arrays, or single-"
    "environment calls instead of batches of one. All actions (training and evaluation), "
    "statistics, stored values, parameters and optimizer states must be identical (with numpy "
    "rewards, which take part in arithmetic with other rounding: parameters equal within rounding "
    "until actions differ), and nothing that was handed over may have changed. distinct_nontrivial counts distinct (agent, recurrent, "
    "environments, observation form, reward form, flag form, container)."
)

FORMS = ["bytes", "dict", "tuple", "lazy", "list", "readonly", "strided", "sub", "tensor", "raw"]
OBS_PHI = {"bytes", "dict", "tuple", "lazy", "list", "raw"}


def gen(rng, tier):
    from checks import c14

    p = c14.gen(rng, "quick")
    p.update(steps=int(rng.choice([25, 45])), seed=int(rng.randint(2**31)),
             form=str(rng.choice(FORMS)),
             reward=str(rng.choice(["float", "np64", "int", "zerod"])),
             flags=str(rng.choice(["bool", "npbool"])),
             box=str(rng.choice(["list", "tuple", "array"])),
             single=bool(rng.rand() < 0.5))
    if p["name"] == "TRPO":  # its line search may turn rounding into another step
        p["reward"] = str(rng.choice(["float", "int"]))
        p["box"] = str(rng.choice(["list", "tuple"]))
    if loose(p):
        p["opt"] = "sgd"
    return p


def loose(p):
    """Rewards are numpy scalars: same values, but arithmetic may round differently."""
    return p["reward"] in ("np64", "zerod") or p["box"] == "array"


class Sub(np.ndarray):
    pass


def plain(k):
    """Observation k of a run as the array the model gets: multiples of 1/64."""
    r = np.random.RandomState(k)
    return ((r.randint(0, 256, size=V.OBS) - 128) / 64.0).astype(np.float32)


def phi_of(form):
    if form == "bytes":
        return lambda x: ((np.asarray(x).astype(np.float32) - 128) / 64).ravel()
    if form == "dict":
        return lambda x: np.concatenate([x["b"], x["a"]]).astype(np.float32)
    if form == "tuple":
        return lambda x: np.concatenate([np.atleast_1d(y) for y in x]).astype(np.float32)
    if form in ("lazy", "list"):
        return lambda x: np.asarray(x, dtype=np.float32)
    return lambda x: x


def wrap(x, form):
    """The same observation in another form, and a function giving its present value."""
    if form == "bytes":
        y = np.round(x * 64 + 128).astype(np.uint8).reshape(2, 2)
    elif form == "dict":
        y = collections.OrderedDict(a=x[2:].astype(np.float64), b=x[:2].copy())
    elif form == "tuple":
        y = (x[:1].copy(), x[1:3].astype(np.float64), float(x[3]))
    elif form == "lazy":
        from pfrl.wrappers.atari_wrappers import LazyFrames

        y = LazyFrames([x[:2].copy(), x[2:].copy()], stack_axis=0)
    elif form == "list":
        y = [float(v) for v in x]
    elif form == "readonly":
        y = x.copy()
        y.setflags(write=False)
    elif form == "strided":
        y = np.repeat(x, 3)[::3]
    elif form == "sub":
        y = x.copy().view(Sub)
    elif form == "tensor":
        y = torch.from_numpy(x.copy())
    else:
        y = x.copy()
    return y


def freeze(y):
    if isinstance(y, dict):
        return tuple((k, freeze(v)) for k, v in y.items())
    if isinstance(y, (list, tuple)):
        return (type(y).__name__,) + tuple(freeze(v) for v in y)
    if isinstance(y, torch.Tensor):
        return ("tensor", str(y.dtype), y.numpy().tobytes())
    if isinstance(y, (float, int)):
        return y
    a = np.asarray(y)
    return (type(y).__name__, str(a.dtype), a.shape, a.tobytes())


def rewards(r, kind):
    if kind == "np64":
        return [np.float64(x) for x in r]
    if kind == "zerod":
        return [np.asarray(x, dtype=np.float64)[()] for x in r]
    return [float(x) for x in r]


def box(x, kind):
    if kind == "tuple":
        return tuple(x)
    if kind == "array":
        return np.asarray(x)
    return list(x)


def run(p, plain_run, obs):
    import pfrl
    from checks import c14

    form = "raw" if plain_run else p["form"]
    E = p["envs"]
    pfrl.utils.set_random_seed(p["seed"])
    q = dict(p, prog=None)
    phi = phi_of(form)
    if not plain_run and form in OBS_PHI:
        q["extra"] = dict(phi=phi)
    h = c14.build(q)
    rng = np.random.RandomState(p["prog"])
    key = [0]
    given = []
    boxes = []
    acts = []
    stats = []
    trace = []

    def new():
        key[0] += 1
        y = wrap(plain(p["prog"] % 99991 + 7919 * key[0]), form)
        given.append((y, freeze(y)))
        return y

    def hand(*xs):
        """Remember the containers given to the agent and what they held."""
        for x in xs:
            boxes.append((x, x.copy() if isinstance(x, np.ndarray) else tuple(x)))
        return xs if len(xs) > 1 else xs[0]

    def act(o):
        if not h.batch or (E == 1 and p["single"] and not plain_run):
            return [h.agent.act(o[0])]
        return h.agent.batch_act(hand(o if plain_run or p["box"] == "list" else tuple(o)))

    def observe(o, r, d, e):
        if plain_run:
            r, d, e = [float(x) for x in r], [bool(x) for x in d], [bool(x) for x in e]
        else:
            if p["reward"] == "int":
                r = [int(x) for x in r]
            else:
                r = rewards(r, p["reward"])
            if p["flags"] == "npbool":
                d, e = [np.bool_(x) for x in d], [np.bool_(x) for x in e]
            else:
                d, e = [bool(x) for x in d], [bool(x) for x in e]
        if not h.batch or (E == 1 and p["single"] and not plain_run):
            h.agent.observe(o[0], r[0], d[0], e[0])
        elif plain_run:
            h.agent.batch_observe(*hand(o, r, d, e))
        else:
            h.agent.batch_observe(*hand(o if p["box"] == "list" else tuple(o), box(r, p["box"]), box(d, p["box"]), box(e, p["box"])))

    cur = [new() for _ in range(E)]
    for j in range(p["steps"]):
        a = act(cur)
        obs.require(len(a) == E, "number of actions differs from number of observations")
        acts.append([np.asarray(x).tolist() for x in a])
        o = [new() for _ in range(E)]
        r = rng.randint(-2, 3, size=E) if p["reward"] == "int" else rng.randint(-16, 17, size=E) / 8.0
        d, e = rng.rand(E) < 0.12, rng.rand(E) < 0.12
        observe(o, r, d, e)
        cur = [new() if (d[i] or e[i]) else o[i] for i in range(E)]
        if j == p["steps"] // 2:
            with h.agent.eval_mode():
                for k in range(3):
                    a = act([new() for _ in range(E)])
                    acts.append([np.asarray(x).tolist() for x in a])
                    observe([new() for _ in range(E)], np.zeros(E), [k == 2] * E, [k == 2] * E)
        if loose(p):
            trace.append((len(acts), np.concatenate([q.detach().numpy().ravel() for m in h.models for q in m.parameters()])))
        if j % 8 == 7:
            stats.append(repr([(k, float(v)) for k, v in h.agent.get_statistics()]))
    stored = None
    if h.buf is not None:
        stored = sorted(repr([(np.round(np.asarray(phi(t["state"]), np.float64), 6).tolist(), np.asarray(t["action"]).tolist(), float(t["reward"]),
                               np.round(np.asarray(phi(t["next_state"]), np.float64), 6).tolist(), bool(t["is_state_terminal"])) for t in e])
                        for e in experiences(h))
    for x, was in boxes:
        ok = np.array_equal(x, was) if isinstance(x, np.ndarray) else len(x) == len(was) and all(i is j for i, j in zip(x, was))
        obs.require(ok, lambda: "%s changed a batch it was given: it now holds %s" % (p["name"], str(x)[:150]))
        obs.n("batches_intact")
    for y, f in given:
        obs.require(freeze(y) == f, lambda: "%s changed an observation it was given (%s)" % (p["name"], form))
    snap = c14.snapshot(h)
    snap.pop("statistics", None)
    return dict(actions=acts, statistics=stats, stored=stored, state=snap, trace=trace)


def experiences(h):
    if hasattr(h.buf, "sample_episodes"):
        n = h.buf.n_episodes
        return [list(e) for e in h.buf.sample_episodes(n)] if n else []
    from vlib import rb

    return rb.sample_all(h.buf)


def check(p, obs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = run(p, True, obs)
        b = run(p, False, obs)
    if loose(p):
        return check_loose(p, obs, a, b)
    for k in ("actions", "stored", "statistics", "state"):
        if a[k] != b[k]:
            if k == "state":
                w = sorted(x for x in a[k] if a[k].get(x) != b[k].get(x))
            else:
                i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), None)
                w = "lengths" if i is None else (i, str(a[k][i])[:150], str(b[k][i])[:150])
            obs.require(False, lambda: "%s: %s differ when the same values come as %s: %s" % (
                p["name"], k, [p["form"], p["reward"], p["flags"], p["box"], p["single"]], w))
    done(p, obs, a, len(a["actions"]))


def check_loose(p, obs, a, b):
    n = 0
    for x, y in zip(a["actions"], b["actions"]):
        if not np.allclose(np.asarray(x, float), np.asarray(y, float), atol=1e-3):
            break
        n += 1
    for (k, x), (_, y) in zip(a["trace"], b["trace"]):
        if k > n:
            break
        obs.n("parameter_comparisons")
        if not np.allclose(x, y, rtol=1e-2, atol=1e-3):
            obs.require(False, lambda: "%s: parameters differ by %.3g after %d actions when the same values come as %s" % (
                p["name"], float(np.abs(x - y).max()), k, [p["form"], p["reward"], p["flags"], p["box"], p["single"]]))
    if n < len(a["actions"]):
        obs.n("runs_parted_by_rounding")
    done(p, obs, a, n)


def done(p, obs, a, n):
    obs.n("runs", 2)
    obs.n("actions_compared", n * p["envs"])
    obs.n("stored_experiences_compared", len(a["stored"] or ()))
    obs.sig(p["name"], p["recurrent"], p["envs"], p["form"], p["reward"], p["flags"], p["box"])
    obs.sample = dict(name=p["name"], form=p["form"])


KINDS = [Kind("forms", gen, check, 320, 4000)]
