"""C03: uniform sampling without replacement."""
import itertools

import numpy as np

from vlib.core import Kind, Violation
from vlib import rb, stats

LEVEL = "exploration"
RULE = (
    "Queues and buffers are driven to random states (appends, evictions, pops, "
    "reloads) and then sampled thousands of times; each draw is checked for "
    "size, distinctness and membership, and the observed frequencies of single "
    "elements and of whole subsets are tested against the uniform law at a "
    "false-alarm level below 1e-12. Starts of sub-episodes and pairs of consecutive draws are "
    "tested likewise; batches built from samples are recomputed from the samples. distinct_nontrivial counts distinct "
    "(source, population, sample size) triples with 0 < k < n."
)
ASSUMPTIONS = ["numpy's global generator is uniform"]


def _inclusion(counts, n, k, N, obs, what):
    if k == n or n < 2:
        return
    e = N * k / n
    stat = sum((c - e) ** 2 for c in counts) / (e * (1 - k / n)) * (n - 1) / n
    th = stats.chi2_threshold(n - 1)
    obs.n("frequency_tests")
    obs.require(
        stat <= th,
        lambda: "{}: inclusion frequencies not uniform (n={} k={} draws={} chi2={:.1f} "
        "> {:.1f}; min {} max {} expected {:.1f})".format(
            what, n, k, N, stat, th, min(counts), max(counts), e
        ),
    )


def _subsets(draws, n, k, obs, what):
    subs = {frozenset(c): 0 for c in itertools.combinations(range(n), k)}
    for d in draws:
        subs[frozenset(d)] += 1
    s, th = stats.chi2_fit(list(subs.values()), [1 / len(subs)] * len(subs), len(draws))
    obs.n("subset_tests")
    obs.require(
        s <= th,
        lambda: "{}: subsets not equally likely (n={} k={} chi2={:.1f} > {:.1f})".format(
            what, n, k, s, th
        ),
    )


def _run(sampler, n, k, N, obs, what):
    """sampler() -> list of k element indices."""
    counts = [0] * n
    draws = []
    for _ in range(N):
        d = sampler()
        obs.n("draws")
        obs.require(
            len(d) == k, lambda: "{}: asked {} got {} elements".format(what, k, len(d))
        )
        obs.require(
            len(set(d)) == k, lambda: "{}: duplicates in one sample: {}".format(what, sorted(d)[:20])
        )
        for x in d:
            obs.require(
                isinstance(x, (int, np.integer)) and 0 <= x < n,
                lambda: "{}: sampled element {!r} outside population of {}".format(what, x, n),
            )
            counts[x] += 1
        if n <= 7:
            draws.append(d)
    if k:
        _inclusion(counts, n, k, N, obs, what)
        if n <= 7 and 0 < k < n:
            _subsets(draws, n, k, obs, what)
    if 0 < k < n:
        obs.sig(what, n, k)
    obs.sample = dict(n=n, k=k, draws=N, min=min(counts), max=max(counts))


def gen_raw(rng, tier):
    mode = rng.randint(5)
    if mode == 0:
        n = int(rng.randint(2, 8))
        k = int(rng.randint(0, n + 1))
    elif mode == 1:  # dense: whole population or nearly
        n = int(rng.randint(2, 60))
        k = int(rng.randint(max(0, n - 2), n + 1))
    elif mode == 2:  # around the switch between algorithms
        k = int(rng.randint(1, 15))
        n = 3 * k + int(rng.randint(-1, 3))
        n = max(n, k)
    elif mode == 3:  # sparse
        k = int(rng.randint(1, 12))
        n = int(rng.randint(3 * k + 1, 120))
    else:
        k = int(rng.randint(20, 60))
        n = int(3 * k + rng.randint(1, 60))
    return dict(n=n, k=k, N=int(4000 if n <= 20 else 2500))


def gen_rare(rng, tier):
    """Drawing 2 of 7: the densest case of the sparse algorithm, whose redraws are the most frequent."""
    return dict(n=7, k=2, N=6000000 if tier == "thorough" else 300000)


def check_rare(p, obs):
    from pfrl.utils.random import sample_n_k

    n, k, N = p["n"], p["k"], p["N"]
    first = np.zeros((n, n), np.int64)
    for _ in range(N):
        a, b = sample_n_k(n, k)
        first[a, b] += 1
    obs.require(not np.diag(first).any(), "an element was drawn twice")
    prob = 1.0 / (n * (n - 1))
    tot = np.array([first[i].sum() + first[:, i].sum() for i in range(n)])
    zi = np.abs(tot - N * k / n).max() / np.sqrt(N * (k / n) * (1 - k / n))
    # unordered pairs; the order of a pair carries no promise
    pair = first + first.T
    zp = np.abs(pair - 2 * N * prob)[~np.eye(n, dtype=bool)].max() / np.sqrt(N * 2 * prob * (1 - 2 * prob))
    obs.require(max(zi, zp) < 7.6, lambda: "drawing %d of %d %d times: elements %s, pairs off by %.1f deviations" % (k, n, N, tot.tolist(), zp))
    obs.n("draws", N)
    obs.sig("rare", n, k, int(zp * 4))


def check_raw(p, obs):
    from pfrl.utils.random import sample_n_k

    _run(lambda: [int(x) for x in sample_n_k(p["n"], p["k"])], p["n"], p["k"], p["N"],
         obs, "index sampler")
    for bad in (p["n"] + 1, -1):
        try:
            sample_n_k(p["n"], bad)
        except ValueError:
            obs.n("rejections")
        else:
            raise Violation("sampling {} of {} was accepted".format(bad, p["n"]))


def gen_buf(rng, tier):
    n_app = int(rng.randint(3, 80))
    return dict(
        src=str(rng.choice(["queue", "persistent_queue", "replay", "episodic",
                            "episodes", "persistent_replay"])),
        appended=n_app,
        maxlen=None if rng.rand() < 0.4 else int(rng.randint(2, 60)),
        pops=int(rng.randint(0, 8)),
        frac=float(rng.choice([0.0, 0.1, 0.3, 0.6, 1.0])),
        N=1500,
    )


def check_buf(p, obs):
    from pfrl import replay_buffers as R
    from pfrl.collections.persistent_collections import PersistentRandomAccessQueue
    from pfrl.collections.random_access_queue import RandomAccessQueue

    ml, A = p["maxlen"], p["appended"]
    src = p["src"]
    if src in ("queue", "persistent_queue"):
        q = (
            RandomAccessQueue(maxlen=ml)
            if src == "queue"
            else PersistentRandomAccessQueue(obs.tmpdir(), ml)
        )
        content = []
        pops = p["pops"]
        for i in range(A):
            q.append(i)
            content.append(i)
            if ml is not None:
                content = content[-ml:]
            if pops and i % 5 == 4 and len(content) > 2:
                q.popleft()
                content.pop(0)
                pops -= 1
        sample = q.sample
        dec = lambda x: x  # noqa
    elif src in ("replay", "persistent_replay"):
        b = (
            R.ReplayBuffer(ml)
            if src == "replay"
            else R.PersistentReplayBuffer(obs.tmpdir(), ml)
        )
        for i in range(A):
            b.append(state=i, action=0, reward=0, next_state=i + 1,
                     is_state_terminal=i % 7 == 6)
        content = list(range(A))[-ml:] if ml else list(range(A))
        sample = b.sample
        dec = lambda x: x[0]["state"]  # noqa
    else:
        b = R.EpisodicReplayBuffer(ml)
        eps, cur = [], []
        for i in range(A):
            end = i % 3 == 2 or i == A - 1
            b.append(state=i, action=0, reward=0, next_state=i + 1, is_state_terminal=end)
            cur.append(i)
            if end:
                eps.append(cur)
                cur = []
                while ml is not None and sum(map(len, eps)) > ml:
                    eps.pop(0)
        if src == "episodic":
            content = [x for e in eps for x in e]
            sample = b.sample
            dec = lambda x: x[0]["state"]  # noqa
        else:
            content = [e[0] for e in eps]
            sample = b.sample_episodes
            dec = lambda x: x[0]["state"]  # noqa
    if not content:
        obs.n("empty")
        obs.require(True, "")
        return
    n = len(content)
    k = max(1, int(round(p["frac"] * n)))
    pos = {x: i for i, x in enumerate(content)}
    _run(
        lambda: [pos.get(dec(x), -1) for x in sample(k)],
        n, k, p["N"], obs, src,
    )


def gen_sub(rng, tier):
    L = int(rng.randint(1, 14))
    return dict(src=str(rng.choice(["episodic", "prioritized", "persistent"])), L=L,
                lens=[int(x) for x in rng.randint(1, 9, size=rng.randint(0, 4))],
                max_len=int(rng.randint(1, L + 2)), N=3000)


def check_sub(p, obs):
    """Every window of the requested length of a sampled episode is equally likely."""
    from pfrl import replay_buffers as R

    b = {"episodic": lambda: R.EpisodicReplayBuffer(10**4),
         "prioritized": lambda: R.PrioritizedEpisodicReplayBuffer(10**4),
         "persistent": lambda: R.PersistentEpisodicReplayBuffer(obs.tmpdir(), 10**4)}[p["src"]]()
    for e, n in enumerate(p["lens"] + [p["L"]]):
        for t in range(n):
            b.append(state=(e, t), action=0, reward=0, next_state=(e, t + 1), is_state_terminal=t == n - 1)
    lens = p["lens"] + [p["L"]]
    starts = {e: {} for e in range(len(lens))}
    for _ in range(p["N"]):
        eps = b.sample_episodes(len(lens), p["max_len"])
        if p["src"] == "prioritized":
            eps = eps[0]
        obs.n("draws")
        for ep in eps:
            e, t = ep[0]["state"]
            want = [(e, t + i) for i in range(min(p["max_len"], lens[e]))]
            obs.require([x["state"] for x in ep] == want,
                        lambda: "sub-episode %s of an episode of %d, max_len %d" % (
                            [x["state"] for x in ep], lens[e], p["max_len"]))
            starts[e][t] = starts[e].get(t, 0) + 1
        if p["src"] == "prioritized":
            b.update_errors([1.0] * len(eps))
    for e, n in enumerate(lens):
        w = max(1, n - p["max_len"] + 1)
        cnt = [starts[e].get(t, 0) for t in range(w)]
        obs.require(sum(cnt) == p["N"], "sub-episode starting outside of the episode")
        if w > 1:
            st, th = stats.chi2_fit(cnt, [1 / w] * w, p["N"])
            obs.require(st <= th, lambda: "starts of sub-episodes (length %d of %d) not uniform: %s" % (
                p["max_len"], n, cnt))
            obs.sig("sub", p["src"], n, p["max_len"])


def gen_ind(rng, tier):
    n = int(rng.randint(3, 9))
    return dict(src=str(rng.choice(["raw", "queue", "replay"])), n=n, k=int(rng.randint(1, n)), N=8000)


def check_ind(p, obs):
    """Consecutive draws are independent and the order within a draw is not fixed by position."""
    from pfrl import replay_buffers as R
    from pfrl.collections.random_access_queue import RandomAccessQueue
    from pfrl.utils.random import sample_n_k

    n, k = p["n"], p["k"]
    if p["src"] == "raw":
        f = lambda: [int(x) for x in sample_n_k(n, k)]  # noqa
    elif p["src"] == "queue":
        q = RandomAccessQueue(maxlen=n)
        for i in range(n + 3):
            q.append((i - 3) % n)
        f = lambda: q.sample(k)  # noqa
    else:
        b = R.ReplayBuffer(n)
        for i in range(2 * n):
            b.append(state=i % n, action=0, reward=0, next_state=0)
        f = lambda: [x[0]["state"] for x in b.sample(k)]  # noqa
    prev = None
    joint = np.zeros((n, n))
    pairs = np.zeros((n, n))
    for _ in range(p["N"]):
        d = f()
        obs.n("draws")
        if prev is not None:
            joint[prev[0], d[0]] += 1
        if k > 1:
            pairs[d[0], d[1]] += 1
        prev = d
    st, th = stats.chi2_fit(joint.ravel().tolist(), [1 / n**2] * n**2, joint.sum())
    obs.require(st <= th, lambda: "%s: consecutive draws dependent (n=%d k=%d chi2 %.1f > %.1f)" % (
        p["src"], n, k, st, th))
    if k > 1:
        off = [pairs[i, j] for i in range(n) for j in range(n) if i != j]
        obs.require(sum(off) == p["N"], "duplicates")
        st, th = stats.chi2_fit(off, [1 / len(off)] * len(off), p["N"])
        obs.require(st <= th, lambda: "%s: first two elements of a draw dependent (n=%d k=%d)" % (p["src"], n, k))
    obs.sig("ind", p["src"], n, k)


def gen_batch(rng, tier):
    return dict(n_step=int(rng.choice([1, 2, 3, 5, 12, 30])), gamma=float(rng.choice([0.0, 0.5, 0.99, 1.0])),
                cap=None if rng.rand() < 0.5 else int(rng.randint(5, 40)), steps=int(rng.randint(8, 60) if rng.rand() < 0.7 else rng.randint(60, 200)),
                end=float(rng.choice([0.15, 0.15, 0.02])),
                envs=int(rng.randint(1, 4)), recurrent=bool(rng.rand() < 0.35),
                act=str(rng.choice(["int", "vec"])), nact=bool(rng.rand() < 0.4),
                prog=int(rng.randint(2**31)))


def check_batch(p, obs):
    """Batches carry exactly the sampled experiences; sampling leaves the memory as it was."""
    import torch
    from pfrl import replay_buffer as RB
    from pfrl import replay_buffers as R

    r = np.random.RandomState(p["prog"])
    dev = torch.device("cpu")
    rec = p["recurrent"]
    b = R.EpisodicReplayBuffer(p["cap"]) if rec else R.ReplayBuffer(p["cap"], num_steps=p["n_step"])
    cur = [r.rand(3).astype(np.float32) for _ in range(p["envs"])]
    for t in range(p["steps"]):
        i = int(r.randint(p["envs"]))
        a = int(r.randint(5)) if p["act"] == "int" else r.rand(2).astype(np.float32)
        nxt = r.rand(3).astype(np.float32)
        kw = {}
        if p["nact"]:
            kw["next_action"] = int(r.randint(5)) if p["act"] == "int" else r.rand(2).astype(np.float32)
        if rec:
            kw["recurrent_state"] = r.rand(1, 4).astype(np.float32)
            kw["next_recurrent_state"] = r.rand(1, 4).astype(np.float32)
        done = bool(r.rand() < p.get("end", 0.15))
        b.append(state=cur[i], action=a, reward=float(r.normal()), next_state=nxt,
                 is_state_terminal=done, env_id=i, **kw)
        if not done and r.rand() < p.get("end", 0.15) * 0.67:
            b.stop_current_episode(env_id=i)
        cur[i] = nxt if not done else r.rand(3).astype(np.float32)
    for i in range(p["envs"]):
        b.stop_current_episode(env_id=i)

    def key(e):
        return repr([[(k, np.asarray(v).tolist()) for k, v in sorted(t.items())] for t in e])

    def content():
        got = (b.sample_episodes(b.n_episodes) if b.n_episodes else []) if rec else b.sample(len(b))
        return sorted(key(e) for e in got), [len(b)]

    before = content()
    phi = lambda x: x * 2 + 1  # noqa
    g = p["gamma"]
    for _ in range(5):
        if rec:
            if not b.n_episodes:
                break
            exps = b.sample_episodes(int(r.randint(1, b.n_episodes + 1)), int(r.randint(1, 6)))
            exps = sorted(exps, key=len, reverse=True)
            out = RB.batch_recurrent_experiences(exps, dev, phi, g)
            flat = [ep[t] for t in range(len(exps[0])) for ep in exps if len(ep) > t]
            for nm in ("state", "next_state"):
                for got, ep in zip(out[nm], exps):
                    want = np.array([phi(t[nm]) for t in ep])
                    obs.require(got.shape == want.shape and np.allclose(got.numpy(), want, atol=1e-6),
                                "recurrent batch: %s of a sequence differs" % nm)
            want_r = [t["reward"] for t in flat]
            want_t = [float(t["is_state_terminal"]) for t in flat]
            want_d = [g] * len(flat)
            want_a = [t["action"] for t in flat]
            want_n = [t["next_action"] for t in flat]
            for nm in ("recurrent_state", "next_recurrent_state"):
                want = np.stack([ep[0][nm] for ep in exps], 1)
                obs.require(np.allclose(out[nm].numpy(), want, atol=1e-6),
                            "recurrent batch: %s is not that of the first transitions" % nm)
        else:
            exps = b.sample(int(r.randint(1, len(b) + 1)))
            out = RB.batch_experiences(exps, dev, phi, g)
            want_r = [sum(g**i * t["reward"] for i, t in enumerate(e)) for e in exps]
            want_t = [float(any(t["is_state_terminal"] for t in e)) for e in exps]
            want_d = [g ** len(e) for e in exps]
            want_a = [e[0]["action"] for e in exps]
            want_n = [e[-1]["next_action"] for e in exps]
            for nm, j in (("state", 0), ("next_state", -1)):
                want = np.array([phi(e[j][nm]) for e in exps])
                obs.require(out[nm].shape == want.shape and np.allclose(out[nm].numpy(), want, atol=1e-6),
                            "batch: %s differs from the sampled experiences" % nm)
        for nm, want in (("reward", want_r), ("is_state_terminal", want_t), ("discount", want_d),
                         ("action", want_a)):
            got = out[nm].numpy()
            want = np.array(want)
            obs.require(got.shape == want.shape and np.allclose(got, want, atol=1e-5),
                        lambda: "batch: %s is %s, sampled experiences give %s" % (nm, got.tolist()[:6], want.tolist()[:6]))
        if p["nact"]:
            obs.require("next_action" in out and np.allclose(out["next_action"].numpy(), np.array(want_n), atol=1e-6),
                        "batch: next_action missing or different")
        obs.n("batches")
        obs.sig("batch", rec, p["n_step"], g, sorted({len(e) for e in exps}))
    obs.require(content() == before, "sampling changed the stored data")


KINDS = [
    Kind("raw", gen_raw, check_raw, 160, 1600),
    Kind("rare", gen_rare, check_rare, 1, 4),
    Kind("buffers", gen_buf, check_buf, 200, 2500),
    Kind("windows", gen_sub, check_sub, 120, 1600),
    Kind("independence", gen_ind, check_ind, 80, 1000),
    Kind("batches", gen_batch, check_batch, 600, 8000),
]
