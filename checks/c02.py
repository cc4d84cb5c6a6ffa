"""C02: episodic replay storage."""
import numpy as np

from vlib.core import Kind, Violation
from vlib import rb

LEVEL = "exploration"
RULE = (
    "Random histories of append / end-of-episode over 1-5 interleaved "
    "environments on the plain, prioritized and persistent episodic buffers, "
    "capacities 1..unbounded, episodes shorter, equal and longer than the "
    "capacity and than the requested subsequence length. distinct_nontrivial "
    "counts distinct (buffer, capacity, episode-length multiset held) states "
    "observed with at least one episode of length > 1."
)


class Model:
    def __init__(self, capacity):
        self.capacity = capacity
        self.open = {}
        self.episodes = []
        self.all = []
        self.evicted = 0

    def append(self, env, tr):
        self.open.setdefault(env, []).append(tr)
        if tr["is_state_terminal"]:
            self.end(env)

    def end(self, env):
        ep = self.open.pop(env, [])
        if ep:
            self.episodes.append(ep)
            self.all.append(ep)
            while (
                self.capacity is not None
                and sum(len(e) for e in self.episodes) > self.capacity
            ):
                self.episodes.pop(0)
                self.evicted += 1


def gen(rng, tier):
    return dict(
        buf=str(
            rng.choice(["plain", "prioritized", "persistent"], p=[0.4, 0.35, 0.25])
        ),
        capacity=[None, 1, 2, 5, 9, 20, 60][rng.randint(7)],
        envs=int(rng.randint(1, 6)),
        steps=int(rng.randint(400, 900) if rng.rand() < 0.1 else rng.randint(5, 150)),
        p_term=float(rng.choice([0.03, 0.1, 0.3, 0.6])),
        p_stop=float(rng.choice([0.0, 0.05, 0.2])),
        wait=bool(rng.rand() < 0.5),
        uniform_ratio=float(rng.choice([0.0, 0.3, 1.0])),
        weights=bool(rng.rand() < 0.5),
        prog=int(rng.randint(2**31)),
    )


def check(p, obs):
    from pfrl import replay_buffers as R

    cap = p["capacity"]
    prio = p["buf"] == "prioritized"
    if p["buf"] == "plain":
        buf = R.EpisodicReplayBuffer(cap)
    elif prio:
        buf = R.PrioritizedEpisodicReplayBuffer(
            cap,
            wait_priority_after_sampling=p["wait"],
            uniform_ratio=p["uniform_ratio"],
            return_sample_weights=p["weights"],
        )
    else:
        buf = R.PersistentEpisodicReplayBuffer(obs.tmpdir(), cap)
    rng = np.random.RandomState(p["prog"])
    m = Model(cap)
    ep, t = [0] * p["envs"], [0] * p["envs"]

    def sample_eps(k, max_len=None):
        r = buf.sample_episodes(k, max_len) if max_len is not None else buf.sample_episodes(k)
        if prio and p["weights"]:
            r, w = r
            obs.require(len(w) == k, "one weight per sampled episode")
        if prio and p["wait"]:
            buf.update_errors([float(x) for x in rng.rand(k)])
        return r

    def counts(where):
        want = sum(len(e) for e in m.episodes)
        obs.require(
            len(buf) == want,
            lambda: "{}: {} transitions reported, {} expected".format(where, len(buf), want),
        )
        obs.require(
            buf.n_episodes == len(m.episodes),
            lambda: "{}: {} episodes reported, {} expected".format(
                where, buf.n_episodes, len(m.episodes)
            ),
        )
        if cap is not None:
            obs.require(len(buf) <= cap, lambda: "capacity exceeded: %d" % len(buf))

    def full(where):
        want_eps = [rb.canon_exp(e) for e in m.episodes]
        if m.episodes:
            got = sample_eps(len(m.episodes))
            rb.same_multiset([rb.canon_exp(e) for e in got], want_eps, where + " episodes")
            n = len(buf)
            s = buf.sample(n)
            for x in s:
                obs.require(
                    isinstance(x, list) and len(x) == 1,
                    lambda: "a sampled experience is not a list of one transition: %r"
                    % (x,),
                )
            rb.same_multiset(
                [rb.canon(x[0]) for x in s],
                [tr for e in want_eps for tr in e],
                where + " transitions",
            )
            obs.n("full_comparisons")
            if any(len(e) > 1 for e in m.episodes):
                obs.sig(p["buf"], cap, tuple(sorted(len(e) for e in m.episodes)))
        # subsequences
        if m.episodes:
            k = int(rng.randint(1, len(m.episodes) + 1))
            ml = int(rng.choice([1, 2, 3, 7, 50]))
            subs = sample_eps(k, ml)
            obs.require(len(subs) == k, "wrong number of episodes sampled")
            used = set()
            for s in subs:
                cs = rb.canon_exp(s)
                hit = None
                for j, e in enumerate(want_eps):
                    if j in used or min(ml, len(e)) != len(cs):
                        continue
                    for a in range(len(e) - len(cs) + 1):
                        if e[a : a + len(cs)] == cs:
                            hit = j
                            break
                    if hit is not None:
                        break
                obs.require(
                    hit is not None,
                    lambda: "sampled sub-episode of length {} (max_len {}) is not a "
                    "contiguous piece of a distinct stored episode".format(len(cs), ml),
                )
                used.add(hit)
            obs.n("subsequences_checked", k)

    for step in range(p["steps"]):
        e = int(rng.randint(p["envs"]))
        term = bool(rng.rand() < p["p_term"])
        tr = rb.mk_transition(e, ep[e], t[e], term, extra=rng.rand() < 0.3)
        buf.append(env_id=e, **tr)
        m.append(e, tr)
        t[e] += 1
        obs.n("appends")
        ended = term
        if term:
            if rng.rand() < 0.5:
                buf.stop_current_episode(env_id=e)
                m.end(e)
        elif rng.rand() < p["p_stop"]:
            buf.stop_current_episode(env_id=e)
            m.end(e)
            ended = True
        if ended:
            ep[e] += 1
            t[e] = 0
        counts("after step %d" % step)
        if ended and rng.rand() < 0.1:
            full("after step %d" % step)
    for e in range(p["envs"]):
        buf.stop_current_episode(env_id=e)
        m.end(e)
    counts("at end")
    full("at end")
    obs.n("evictions", m.evicted)
    obs.sample = dict(episodes=len(m.all), held=len(m.episodes), evicted=m.evicted)


# starting positions of sampled subsequences must cover the whole episode
def gen_cover(rng, tier):
    return dict(
        buf=str(rng.choice(["plain", "prioritized", "persistent"])),
        length=int(rng.randint(2, 9)),
        max_len=int(rng.randint(1, 8)),
    )


def check_cover(p, obs):
    """Every start offset (including first and last) is eventually sampled."""
    from pfrl import replay_buffers as R

    if p["buf"] == "plain":
        buf = R.EpisodicReplayBuffer(None)
    elif p["buf"] == "prioritized":
        buf = R.PrioritizedEpisodicReplayBuffer(None, return_sample_weights=False)
    else:
        buf = R.PersistentEpisodicReplayBuffer(obs.tmpdir(), None)
    L, ml = p["length"], p["max_len"]
    trs = [rb.mk_transition(0, 0, i, i == L - 1) for i in range(L)]
    for tr in trs:
        buf.append(**tr)
    starts = L - min(ml, L) + 1
    seen = {}
    N = 60 * starts
    idx = {rb.canon(tr): i for i, tr in enumerate(trs)}
    for _ in range(N):
        s = buf.sample_episodes(1, ml)[0]
        if p["buf"] == "prioritized":
            buf.update_errors([1.0])
        st = idx[rb.canon(s[0])]
        seen[st] = seen.get(st, 0) + 1
        obs.require(
            [idx[rb.canon(x)] for x in s] == list(range(st, st + min(ml, L))),
            "sub-episode is not contiguous",
        )
    # P(some start unseen) <= starts * (1-1/starts)^(60 starts) < 8 e^-60
    obs.require(
        set(seen) == set(range(starts)),
        lambda: "start offsets {} never sampled out of {} draws".format(
            sorted(set(range(starts)) - set(seen)), N
        ),
    )
    obs.sig(p["buf"], L, ml)


KINDS = [
    Kind("history", gen, check, 600, 8000),
    Kind("cover", gen_cover, check_cover, 64, 500),
]
