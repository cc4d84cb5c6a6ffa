"""C01: n-step replay storage."""
import numpy as np

from vlib.core import Kind, Violation
from vlib import rb

LEVEL = "exploration"
RULE = (
    "Random histories of append / end-of-episode / sample over 1-5 interleaved "
    "environments, n in 1..6, capacities from 1 to unbounded, episode ends by "
    "terminal, by interruption or both; a case is non-trivial when its history "
    "stored at least one multi-step or truncated window or caused an eviction. "
    "distinct_nontrivial counts distinct (buffer type, n, capacity, end-type, "
    "window-length, evicted) observations."
)
ASSUMPTIONS = [
    "contents are read through sample(len(buffer)), i.e. uniform sampling "
    "without replacement returns every element (decided separately by C03)",
]


def gen(rng, tier):
    big = rng.rand() < 0.15
    return dict(
        buf=str(rng.choice(["plain", "prioritized", "persistent"], p=[0.5, 0.35, 0.15])),
        n=int(rng.choice([1, 1, 2, 3, 4, 6, 10, 25])),
        capacity=[None, 1, 2, 3, 5, 8, 13, 40, 100][rng.randint(9)],
        envs=int(rng.randint(1, 6)),
        steps=int(rng.randint(300, 900) if big else rng.randint(5, 120)),
        p_term=float(rng.choice([0.02, 0.1, 0.3, 0.6])),
        p_stop=float(rng.choice([0.0, 0.05, 0.2, 0.5])),
        env_ids=str(rng.choice(["int", "str", "tuple"])),
        prog=int(rng.randint(2**31)),
    )


def gen_long(rng, tier):
    """Histories of thousands of steps that evict many times the capacity."""
    p = gen(rng, tier)
    p.update(
        steps=int(rng.randint(2500, 6000)),
        capacity=[7, 64, 100, 1000, 1500, None][rng.randint(6)],
        p_term=float(rng.choice([0.002, 0.02, 0.1])),
        p_stop=float(rng.choice([0.0, 0.002, 0.05])),
        sparse=True,
    )
    return p


def _ctor(p, obs, tmp):
    from pfrl import replay_buffers as R

    if p["buf"] == "plain":
        return R.ReplayBuffer(p["capacity"], num_steps=p["n"])
    if p["buf"] == "prioritized":
        return R.PrioritizedReplayBuffer(p["capacity"], num_steps=p["n"])
    return R.PersistentReplayBuffer(tmp, p["capacity"])


def check(p, obs):
    tmp = obs.tmpdir()
    n = p["n"] if p["buf"] != "persistent" else 1
    p = dict(p, n=n)
    buf = _ctor(p, obs, tmp)
    model = rb.NStepModel(n, p["capacity"])
    rng = np.random.RandomState(p["prog"])
    ep = [0] * p["envs"]
    t = [0] * p["envs"]
    name = {
        "int": lambda e: e,
        "str": lambda e: "env%d" % e,
        "tuple": lambda e: ("e", e),
    }[p["env_ids"]]

    def compare(where):
        want = model.contents()
        obs.require(
            len(buf) == len(want),
            lambda: "{}: buffer reports {} experiences, {} expected".format(
                where, len(buf), len(want)
            ),
        )
        got = rb.sample_all(buf)
        rb.same_multiset(
            [rb.canon_exp(x) for x in got], [rb.canon_exp(x) for x in want], where
        )
        obs.n("content_comparisons")
        obs.n("experiences_compared", len(want))

    for step in range(p["steps"]):
        e = int(rng.randint(p["envs"]))
        term = bool(rng.rand() < p["p_term"])
        tr = rb.mk_transition(e, ep[e], t[e], term, extra=rng.rand() < 0.3)
        kw = {k: v for k, v in tr.items()}
        if p["envs"] == 1 and rng.rand() < 0.5 and p["env_ids"] == "int":
            buf.append(**kw)  # default env_id is the same env
        else:
            buf.append(env_id=name(e), **kw)
        model.append(e, tr)
        t[e] += 1
        obs.n("appends")
        ended = False
        if term:
            ended = True
            if rng.rand() < 0.5:
                # agents notify the end of an episode again after a terminal
                buf.stop_current_episode(env_id=name(e))
                model.end(e)
        elif rng.rand() < p["p_stop"]:
            buf.stop_current_episode(env_id=name(e))
            model.end(e)
            ended = True
            obs.n("interruptions")
        if ended:
            ep[e] += 1
            t[e] = 0
        if not p.get("sparse") or step % 17 == 0:
            obs.require(
                len(buf) == len(model.contents()),
                lambda: "after step {}: buffer reports {} experiences, {} expected".format(
                    step, len(buf), len(model.contents())
                ),
            )
        if p["capacity"] is not None:
            obs.require(
                len(buf) <= p["capacity"],
                lambda: "capacity {} exceeded: {}".format(p["capacity"], len(buf)),
            )
        often = 0.004 if p.get("sparse") else 0.05
        if rng.rand() < often:
            compare("after step %d" % step)
        if len(buf) and rng.rand() < often:
            k = int(rng.randint(1, len(buf) + 1))
            s = buf.sample(k)
            if hasattr(buf, "update_errors"):
                buf.update_errors(list(rng.rand(k)))
            held = set(rb.canon_exp(x) for x in model.contents())
            for x in s:
                obs.require(
                    rb.canon_exp(x) in held, "sampled an experience that is not stored"
                )
    compare("at end")
    for e in range(p["envs"]):
        buf.stop_current_episode(env_id=name(e))
        model.end(e)
    compare("after ending all episodes")
    # every transition starts exactly one experience (conservation)
    obs.require(
        len(model.log) == p["steps"], "model bug: conservation", key=None
    )
    evicted = p["capacity"] is not None and len(model.log) > p["capacity"]
    for x in model.contents():
        if len(x) > 1 or evicted or len(x) < n:
            obs.sig(p["buf"], n, p["capacity"], x[-1]["is_state_terminal"], len(x), evicted)
    obs.sample = dict(stored=len(model.log), held=len(buf), evicted=evicted)


KINDS = [
    Kind("history", gen, check, 400, 6000),
    Kind("long", gen_long, check, 16, 300),
]
