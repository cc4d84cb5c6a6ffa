"""C08: off-policy agents record the experience that the environments produced."""
import numpy as np

from vlib.core import Kind
from vlib import agents as V
from vlib import rb

LEVEL = "exploration"
RULE = (
    "Each case drives one off-policy agent (value-based family, DDPG, TD3, SAC, "
    "ACER; feed-forward and recurrent; plain, n-step and prioritized memory) "
    "with a scripted batch of 1-4 environments whose observations are unique, "
    "with random terminals, resets, both, and evaluation interludes, while the "
    "agent is updating. The memory is then read back through sampling and "
    "compared with the log of what happened. distinct_nontrivial counts distinct "
    "(agent, recurrent, environments, n, end types seen, evaluations seen)."
)

NAMES = ["DQN", "DoubleDQN", "PAL", "CategoricalDQN", "IQN", "DDPG", "TD3", "SAC", "ACER",
         "ACERcont", "DDPG", "TD3", "SAC", "DQN", "DQN", "DPP", "AL"]


def gen(rng, tier):
    name = NAMES[rng.randint(len(NAMES))]
    rec = bool(name in V.RECURRENT_OK and rng.rand() < 0.35)
    return dict(
        name=name, recurrent=rec,
        envs=1 if name.startswith("ACER") else int(rng.choice([1, 1, 2, 3, 4, 9])),
        n_step=int(rng.choice([1, 1, 2, 3, 5, 11])),
        prioritized=bool(name in V.VALUE_AGENTS and not rec and rng.rand() < 0.25),
        steps=int(rng.choice([15, 40, 90])),
        p_done=float(rng.choice([0.0, 0.1, 0.4])),
        p_reset=float(rng.choice([0.0, 0.1, 0.4])),
        p_eval=float(rng.choice([0.0, 0.1])),
        burnin=bool(rng.rand() < 0.4),
        explorer=str(rng.choice(["eps", "ou", "wide", "wide"])),
        replay_start=int(rng.choice([8, 30, 10**4])),
        update_interval=int(rng.choice([1, 2, 5])),
        prog=int(rng.randint(2**31)),
    )


def _cv(x):
    a = np.asarray(x)
    return (a.shape, tuple(np.round(a.astype(float).ravel(), 7).tolist()))


def _ctr(state, action, reward, next_state, done):
    return (_cv(state), _cv(action), round(float(reward), 7), _cv(next_state), bool(done))


def _stored(tr):
    return _ctr(tr["state"], tr["action"], tr["reward"], tr["next_state"], tr["is_state_terminal"])


def check(p, obs):
    cfg = dict(recurrent=p["recurrent"], n_step=p["n_step"], prioritized=p["prioritized"],
               replay_start=p["replay_start"], update_interval=p["update_interval"],
               target_interval=10, batch=4, opt="sgd",
               explorer=p["explorer"])
    phi_calls = [0]

    def phi(x):
        phi_calls[0] += 1
        return np.asarray(x, dtype=np.float32) * 0.5

    cfg["extra"] = dict(phi=phi)
    if p["name"] in ("DDPG", "TD3", "SAC") and p["burnin"]:
        cfg["extra"]["burnin_action_func"] = lambda: np.random.uniform(-3, 3, V.ADIM).astype(np.float32)
    if p["replay_start"] > 10**3:
        cfg["capacity"] = None
    h = V.make(p["name"], seed=p["prog"] % 1000, **cfg)
    rng = np.random.RandomState(p["prog"])
    s = V.Stream(p["envs"], p["prog"] + 1, p["p_done"], p["p_reset"])
    E = p["envs"]
    episodic = p["recurrent"] or p["name"].startswith("ACER")
    model = None if episodic else rb.NStepModel(p["n_step"], None)
    cur, episodes = [[] for _ in range(E)], []
    seen = set()
    single = E == 1 and (not h.batch or rng.rand() < 0.5)

    def compare(where):
        n = len(h.buf)
        if episodic:
            k = h.buf.n_episodes
            got = [tuple(_stored(t) for t in ep) for ep in (h.buf.sample_episodes(k) if k else [])]
            rb.same_multiset(got, [tuple(e) for e in episodes], where)
        else:
            got = [tuple(_stored(t) for t in e) for e in rb.sample_all(h.buf)]
            want = [tuple(t["x"] for t in e) for e in model.contents()]
            rb.same_multiset(got, want, where)
        obs.n("memory_comparisons")
        obs.n("transitions_compared", n)

    for step in range(p["steps"]):
        if rng.rand() < p["p_eval"]:
            before = len(h.buf)
            with h.agent.eval_mode():
                es = V.Stream(1 if not h.batch else 1 + p["prog"] % 3, int(rng.randint(2**31)), 0.2, 0.2)
                for j in range(3):
                    if h.batch:
                        h.agent.batch_act(es.obs)
                        o, r, d, e = es.step()
                        e = [x or j == 2 for x in e]
                        h.agent.batch_observe(o, r, d, e)
                    else:
                        h.agent.act(es.obs[0])
                        o, r, d, e = es.step()
                        h.agent.observe(o[0], r[0], d[0], e[0] or j == 2)
                    es.begin(o, d, e)
            obs.require(len(h.buf) == before, "evaluation added experience to the memory")
            seen.add("eval")
        given = [o.copy() for o in s.obs]
        if single:
            acts = [h.agent.act(s.obs[0])]
        else:
            acts = h.agent.batch_act(s.obs)
        obs.require(len(acts) == E, "number of actions differs from number of observations")
        acts = [np.array(a, copy=True) for a in acts]
        nobs, rew, done, reset = s.step()
        if single:
            h.agent.observe(nobs[0], rew[0], done[0], reset[0])
        else:
            h.agent.batch_observe(nobs, rew, done, reset)
        for i in range(E):
            x = _ctr(given[i], acts[i], rew[i], nobs[i], done[i])
            if done[i] or reset[i]:
                seen.add(("end", done[i], reset[i]))
            if episodic:
                cur[i].append(x)
                if done[i] or reset[i]:
                    episodes.append(cur[i])
                    cur[i] = []
            else:
                model.append(i, dict(x=x, is_state_terminal=done[i]))
                if done[i] or reset[i]:
                    model.end(i)
        obs.n("environment_steps", E)
        s.begin(nobs, done, reset)
        if step % 7 == 3:
            compare("after step %d" % step)
    compare("at end")
    # what is still open is recorded too: end all episodes by a reset
    if not episodic:
        for i in range(E):
            model.end(i)
            h.buf.stop_current_episode(env_id=i)
        compare("after closing the open episodes")
    obs.sig(p["name"], p["recurrent"], E, p["n_step"], tuple(sorted(map(str, seen))))
    obs.sample = dict(stored=len(h.buf), ends=sorted(map(str, seen)))


KINDS = [Kind("record", gen, check, 400, 6000)]
