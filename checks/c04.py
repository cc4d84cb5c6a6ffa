"""C04: prioritized sampling."""
import itertools
import math

import numpy as np

from vlib.core import Kind, Violation
from vlib import rb, stats

LEVEL = "exploration"
RULE = (
    "Random histories of append / evict / sample / priority update on the "
    "prioritized buffers run against a flat list of priorities; every sampling "
    "probability, importance weight, annealed exponent and minimum is compared "
    "with the value computed from that list, and the frequencies of ordered "
    "draws are tested against the sequential without-replacement law. "
    "distinct_nontrivial counts distinct (parameters, size class, sample size "
    "class) of samplings whose priorities were not all equal."
)
ASSUMPTIONS = [
    "errors are finite and non-negative; priorities span at most ~10 decades",
]


def close(a, b, rtol=1e-6, atol=1e-12):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


# ---------------------------------------------------------------- low level
def gen_core(rng, tier):
    return dict(
        capacity=[None, 1, 2, 3, 5, 8, 17, 64][rng.randint(8)],
        wait=bool(rng.rand() < 0.6),
        uniform=float(rng.choice([0.0, 0.0, 0.25, 1.0])),
        ops=int(rng.randint(10, 250)),
        scale=float(rng.choice([1.0, 1e-4, 1e3])),
        p_app=float(rng.choice([0.4, 0.7, 0.9])),
        init_max=float(rng.choice([1.0, 1.0, 3.0])),
        prog=int(rng.randint(2**31)),
    )


def check_core(p, obs):
    from pfrl.collections.prioritized import PrioritizedBuffer

    rng = np.random.RandomState(p["prog"])
    cap, u = p["capacity"], p["uniform"]
    b = PrioritizedBuffer(cap, wait_priority_after_sampling=p["wait"],
                          initial_max_priority=p["init_max"])
    data, pri, maxp = [], [], p["init_max"]
    ctr = 0
    pending = None
    for step in range(p["ops"]):
        if rng.rand() < p["p_app"] or not data:
            if pending is not None:
                continue
            given = None if rng.rand() < 0.7 else float(rng.rand() * p["scale"] + 1e-9)
            b.append(ctr, given) if given is not None else b.append(ctr)
            if cap is not None and len(data) == cap:
                data.pop(0)
                pri.pop(0)
            data.append(ctr)
            pri.append(maxp if given is None else given)
            ctr += 1
        elif rng.rand() < 0.15:
            x = b.popleft()
            obs.require(x == data[0], "popleft did not return the oldest element")
            data.pop(0)
            pri.pop(0)
        else:
            n = int(rng.randint(1, len(data) + 1))
            total, mn = sum(pri), min(pri)
            s, probs, min_prob = (
                b.sample(n, uniform_ratio=u) if u else b.sample(n)
            )
            obs.n("samplings")
            obs.require(len(s) == n and len(probs) == n, "wrong sample size")
            obs.require(len(set(s)) == n, lambda: "element sampled twice: %r" % (sorted(s),))
            obs.require(set(s) <= set(data), "sampled an element that is not held")
            where = {x: i for i, x in enumerate(data)}
            for x, pr in zip(s, probs):
                want = u / len(data) + (1 - u) * pri[where[x]] / total
                obs.require(
                    close(pr, want),
                    lambda: "probability of element {} reported as {!r}, priorities give {!r}".format(
                        x, pr, want),
                )
            want_min = mn / total
            if u:
                want_min = u / len(data) + (1 - u) * want_min
            obs.require(
                close(min_prob, want_min),
                lambda: "minimum probability {!r}, expected {!r}".format(min_prob, want_min),
            )
            if p["wait"] or rng.rand() < 0.6:
                newp = [float(x) for x in rng.rand(n) ** 4 * p["scale"] + 1e-9]
                b.set_last_priority(newp)
                for x, q in zip(s, newp):
                    pri[where[x]] = q
                    maxp = max(maxp, q)
            if len(set(pri)) > 1:
                obs.sig("core", cap, p["wait"], u, min(len(data), 9), min(n, 5))
        obs.require(len(b) == len(data), "length differs")
    obs.sample = dict(final=len(data))


# --------------------------------------------------------------- statistics
def gen_dist(rng, tier):
    return dict(
        n=int(rng.randint(2, 6)),
        k=int(rng.randint(1, 4)),
        evict=int(rng.randint(0, 9)),
        prog=int(rng.randint(2**31)),
        N=4000,
    )


def check_dist(p, obs):
    from pfrl.collections.prioritized import PrioritizedBuffer

    rng = np.random.RandomState(p["prog"])
    n = p["n"]
    k = min(p["k"], n)
    b = PrioritizedBuffer(capacity=n)
    pri = [float(x) for x in rng.choice([0.05, 0.2, 0.7, 1.0, 2.5, 6.0], n)]
    for i in range(p["evict"]):
        b.append(-1 - i)
    for i in range(n):
        b.append(i, pri[i])
    while len(b) > n:
        b.popleft()
    # all elements now 0..n-1
    tup = {}
    for _ in range(p["N"]):
        s, probs, _ = b.sample(k)
        b.set_last_priority([pri[x] for x in s])
        tup[tuple(s)] = tup.get(tuple(s), 0) + 1
        obs.n("draws")
    keys, want = [], []
    for t in itertools.permutations(range(n), k):
        rest, pr = sum(pri), 1.0
        for x in t:
            pr *= pri[x] / rest
            rest -= pri[x]
        keys.append(t)
        want.append(pr)
    obs.require(set(tup) <= set(keys), "impossible sample drawn")
    st, th = stats.chi2_fit([tup.get(t, 0) for t in keys], want, p["N"])
    obs.require(
        st <= th,
        lambda: "draw frequencies do not follow the priorities {}: chi2 {:.1f} > {:.1f}".format(
            pri, st, th),
    )
    if len(set(pri)) > 1:
        obs.sig("dist", n, k, tuple(sorted(pri)))
    obs.sample = dict(priorities=pri, chi2=st, threshold=th)


# ------------------------------------------------------------- replay level
def gen_replay(rng, tier):
    lo = [0, None, 0.1][rng.randint(3)]
    return dict(
        episodic=bool(rng.rand() < 0.35),
        capacity=[None, 4, 9, 30, 100][rng.randint(5)],
        alpha=float(rng.choice([0.0, 0.4, 0.6, 1.0])),
        beta0=float(rng.choice([0.0, 0.4, 0.9, 1.0])),
        betasteps=[None, 3, 10, 200][rng.randint(4)],
        eps=float(rng.choice([0.01, 1e-8, 0.5])),
        norm=[True, False, "batch", "memory"][rng.randint(4)],
        error_min=lo,
        error_max=[1, None, 2.5][rng.randint(3)],
        num_steps=int(rng.choice([1, 1, 3])),
        uniform=float(rng.choice([0.0, 0.3])),
        prio_func=bool(rng.rand() < 0.4),
        steps=int(rng.randint(20, 160)),
        prog=int(rng.randint(2**31)),
    )


def check_replay(p, obs):
    from pfrl import replay_buffers as R

    rng = np.random.RandomState(p["prog"])
    kw = dict(
        alpha=p["alpha"], beta0=p["beta0"], betasteps=p["betasteps"], eps=p["eps"],
        normalize_by_max=p["norm"], error_min=p["error_min"], error_max=p["error_max"],
    )
    epi = p["episodic"]
    cap = p["capacity"]
    if epi:
        func = (lambda ep: 0.1 + len(ep) * 0.37) if p["prio_func"] else None
        buf = R.PrioritizedEpisodicReplayBuffer(
            cap, uniform_ratio=p["uniform"], default_priority_func=func, **kw)
        u = p["uniform"]
    else:
        buf = R.PrioritizedReplayBuffer(cap, num_steps=p["num_steps"], **kw)
        u = 0.0
        model = rb.NStepModel(p["num_steps"], cap)
    items, pri, size = [], [], []  # oldest first
    maxp = 1.0
    beta = p["beta0"]
    badd = 0 if p["betasteps"] is None else (1.0 - p["beta0"]) / p["betasteps"]
    t = 0
    cur = []
    for step in range(p["steps"]):
        term = bool(rng.rand() < 0.25)
        tr = dict(state=step, action=0, reward=0.0, next_state=step + 1,
                  next_action=None, is_state_terminal=term)
        buf.append(**tr)
        if epi:
            cur.append(step)
            if term:
                items.append(cur[0])
                size.append(len(cur))
                pri.append(func([0] * len(cur)) if func else maxp)
                cur = []
                while cap is not None and sum(size) > cap:
                    items.pop(0), pri.pop(0), size.pop(0)
        else:
            before = len(model.log)
            model.append(0, tr)
            for x in model.log[before:]:
                items.append(x[0]["state"])
                pri.append(maxp)
                if cap is not None and len(items) > cap:
                    items.pop(0), pri.pop(0)
        t += 1
        if items and rng.rand() < 0.3:
            n = int(rng.randint(1, len(items) + 1))
            if epi:
                eps_, w = buf.sample_episodes(n)
                got = [e[0]["state"] for e in eps_]
            else:
                exps = buf.sample(n)
                got = [e[0]["state"] for e in exps]
                w = [e[0]["weight"] for e in exps]
            obs.n("samplings")
            obs.require(len(got) == n and len(w) == n, "wrong sample size")
            obs.require(len(set(got)) == n, "an element was sampled twice")
            where = {x: i for i, x in enumerate(items)}
            obs.require(set(got) <= set(items), "sampled an element that is not held")
            total = sum(pri)
            N = len(items)

            def prob(q):
                return u / N + (1 - u) * q / total

            probs = [prob(pri[where[x]]) for x in got]
            if p["norm"] in (True, "batch"):
                mx = min(probs)
                want = [(q / mx) ** -beta for q in probs]
            elif p["norm"] == "memory":
                mx = prob(min(pri))
                want = [(q / mx) ** -beta for q in probs]
            elif epi:
                # the unit of the count (transitions or episodes) is a constant
                # factor: only the ratios matter
                ref = [(N * q) ** -beta for q in probs]
                want = [r * float(w[0]) / ref[0] for r in ref]
                obs.require(float(w[0]) > 0, "weights must be positive")
            else:
                want = [(N * q) ** -beta for q in probs]
            for x, a, c in zip(got, w, want):
                obs.require(
                    close(float(a), c, rtol=1e-5),
                    lambda: "importance weight of element {} is {!r}, expected {!r} "
                    "(beta {:.4f})".format(x, a, c, beta),
                )
            beta = min(1.0, beta + badd)
            errs = [float(e) for e in rng.rand(n) ** 3 * 3]
            buf.update_errors(errs)
            for x, e in zip(got, errs):
                if p["error_min"] is not None:
                    e = max(e, p["error_min"])
                if p["error_max"] is not None:
                    e = min(e, p["error_max"])
                q = (e + p["eps"]) ** p["alpha"]
                pri[where[x]] = q
                maxp = max(maxp, q)
            if len(set(pri)) > 1:
                obs.sig("replay", epi, p["alpha"], p["beta0"], p["norm"], cap,
                        min(N, 6), min(n, 4), beta >= 1)
    if p["betasteps"] is not None:
        obs.n("annealing_steps_seen")
    obs.sample = dict(held=len(items), beta=beta)


# the DQN update feeds the errors of the sampled transitions back to them
def gen_agent(rng, tier):
    return dict(
        algo=str(rng.choice(["DQN", "DoubleDQN", "CategoricalDQN"])),
        capacity=int(rng.choice([20, 40])),
        steps=int(rng.randint(30, 70)),
        mb=int(rng.choice([2, 5])),
        seed=int(rng.randint(2**31)),
        num_steps=int(rng.choice([1, 3])),
    )


def check_agent(p, obs):
    """Priorities follow the transitions through the agent's own update."""
    import torch
    import pfrl
    from pfrl import agents, replay_buffers as R

    rng = np.random.RandomState(p["seed"])
    torch.manual_seed(p["seed"])
    nA = 3

    class Rec(R.PrioritizedReplayBuffer):
        log = []

        def sample(self, n):
            s = super().sample(n)
            self.last = [e[0]["state"][0] for e in s]
            return s

        def update_errors(self, errors):
            super().update_errors(errors)
            Rec.log.append((list(self.last), [float(np.asarray(e).reshape(())) for e in errors]))

    Rec.log = []
    buf = Rec(p["capacity"], num_steps=p["num_steps"], error_max=None, normalize_by_max=False,
              beta0=1.0, betasteps=None)
    if p["algo"] == "CategoricalDQN":
        q = pfrl.q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
            2, nA, 5, -3, 3, 6, 1)
    else:
        q = pfrl.q_functions.FCStateQFunctionWithDiscreteAction(2, nA, 6, 1)
    opt = torch.optim.SGD(q.parameters(), lr=0.0)  # weights constant: errors are a
    # function of the transition alone
    ag = getattr(agents, p["algo"])(
        q, opt, buf, 0.9, pfrl.explorers.ConstantEpsilonGreedy(1.0, lambda: int(rng.randint(nA))),
        replay_start_size=p["mb"], minibatch_size=p["mb"], update_interval=1,
        target_update_interval=1000, phi=lambda x: np.asarray(x, dtype=np.float32))
    err_of = {}
    s = np.array([0.0, 0.3])
    for i in range(p["steps"]):
        ag.act(s)
        nxt = np.array([float(i + 1), 0.3])
        done = bool(rng.rand() < 0.1)
        ag.observe(nxt * 1.0, float(rng.randn()), done, False)
        s = np.array([i + 1.0, 0.3])
    for ids, errs in Rec.log:
        obs.require(len(ids) == len(errs) == p["mb"], "one error per sampled transition")
        for x, e in zip(ids, errs):
            obs.require(e >= -1e-6 and math.isfinite(e), "errors must be non-negative")
            if x in err_of:
                obs.require(
                    abs(err_of[x] - e) <= 1e-4 + 1e-4 * abs(e),
                    lambda: "error fed back for transition {} changed from {} to {} although "
                    "the network is frozen: errors are attached to the wrong transitions".format(
                        x, err_of[x], e),
                )
            err_of[x] = e
            obs.n("errors_fed_back")
    # the priorities now in force are those of the errors
    n = len(buf)
    exps = buf.sample(n)
    w = {e[0]["state"][0]: e[0]["weight"] for e in exps}
    buf.update_errors([err_of.get(e[0]["state"][0], 0.5) for e in exps])
    known = [x for x in w if x in err_of]
    # w = 1/(N p)  =>  w * priority is constant over transitions
    if len(known) >= 2:
        c = [w[x] * (err_of[x] + 0.01) ** 0.6 for x in known]
        obs.require(
            max(c) - min(c) <= 1e-3 * max(c),
            lambda: "importance weights are not inverse to the priorities given by the "
            "errors: {}".format(c[:6]),
        )
        obs.sig("agent", p["algo"], p["capacity"], p["mb"], p["num_steps"])
    obs.sample = dict(updates=len(Rec.log))


KINDS = [
    Kind("core", gen_core, check_core, 500, 8000),
    Kind("dist", gen_dist, check_dist, 80, 800),
    Kind("replay", gen_replay, check_replay, 500, 6000),
    Kind("agent", gen_agent, check_agent, 32, 400),
]
