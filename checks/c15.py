"""C15: recurrent models and agents keep every sequence's hidden state separate."""
import numpy as np
import torch
from torch import nn

from vlib.core import Kind
from vlib import agents as V

LEVEL = "exploration"
RULE = (
    "models: random recurrent containers (LSTM/GRU/RNN, several layers, nested and branched) "
    "process batches of sequences of random lengths at once, step by step, split at random "
    "points and after selecting, reordering, masking and concatenating states; every output and "
    "state is compared with a reference that runs the plain torch layers on each sequence alone. "
    "agents: recurrent agents act in 1-4 environments with random terminals and resets, during "
    "training (with updates) and in interleaved evaluations; each action is compared with the "
    "action of a reference that processes the current episode of that environment alone, and the "
    "hidden states recorded in replay memory with the reference's. actor: an asynchronous actor acts "
    "and sends transitions to its learner; its actions and the hidden states sent are those of its "
    "own episode. distinct_nontrivial counts "
    "distinct (architecture, lengths) and (agent, environments, end patterns)."
)
ASSUMPTIONS = ["torch's own recurrent layers process single sequences correctly"]


# --- reference: plain torch layers on a single sequence ---

def ref_forward(m, x, st):
    """x: (T, ...) of one sequence; returns output (tensor, tuple or head object), new state."""
    import pfrl

    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        y, s = m(x[:, None, :], st)
        return y[:, 0], s
    if isinstance(m, pfrl.nn.RecurrentBranched):
        outs, states = [], []
        for i, c in enumerate(m):
            y, s = ref_forward(c, x, None if st is None else st[i])
            outs.append(y)
            states.append(s)
        return tuple(outs), tuple(states)
    if isinstance(m, nn.Sequential):
        h, states, k = x, [], 0
        for c in m:
            if isinstance(c, (nn.LSTM, nn.GRU, nn.RNN, pfrl.nn.RecurrentBranched, pfrl.nn.RecurrentSequential)):
                h, s = ref_forward(c, h, None if st is None else st[k])
                k += 1
                states.append(s)
            else:
                h = c(h)
        return h, tuple(states)
    if hasattr(m, "psi"):  # recurrent IQN
        h, s = ref_forward(m.psi, x, st)
        return h, s
    raise AssertionError(type(m))


def leaves(s):
    if s is None:
        return []
    if isinstance(s, (tuple, list)):
        return [l for x in s for l in leaves(x)]
    return [np.asarray(s.detach() if isinstance(s, torch.Tensor) else s)]


# --- models ---

def gen_model(rng, tier):
    return dict(arch=int(rng.randint(6)), B=int(rng.randint(1, 7)), tmax=int(rng.choice([1, 2, 5, 12])),
                layers=int(rng.choice([1, 1, 2])), cell=str(rng.choice(["LSTM", "GRU", "RNN"])),
                state=bool(rng.rand() < 0.6), prog=int(rng.randint(2**31)))


def mk_model(p):
    import pfrl

    C = getattr(nn, p["cell"])
    S = pfrl.nn.RecurrentSequential
    L = p["layers"]
    a = p["arch"]
    if a == 0:
        return S(nn.Linear(3, 4), nn.Tanh(), C(4, 5, num_layers=L), nn.Linear(5, 2))
    if a == 1:
        return S(C(3, 4, num_layers=L), nn.Tanh(), nn.GRU(4, 3), nn.Linear(3, 2), nn.LSTM(2, 2))
    if a == 2:
        return S(nn.Linear(3, 4), S(nn.Tanh(), C(4, 4, num_layers=L)), nn.ReLU(), S(nn.LSTM(4, 3), nn.Linear(3, 2)))
    if a == 3:
        return pfrl.nn.RecurrentBranched(S(C(3, 4, num_layers=L), nn.Linear(4, 2)), S(nn.Linear(3, 2), nn.GRU(2, 1)))
    if a == 4:
        return S(nn.LSTM(3, 4), pfrl.nn.RecurrentBranched(S(C(4, 3, num_layers=L)), S(nn.Tanh(), nn.RNN(4, 2))))
    return S(C(3, 4, num_layers=L))


def check_model(p, obs):
    from pfrl.utils import recurrent as U

    torch.manual_seed(p["prog"] % 2**31)
    r = np.random.RandomState(p["prog"])
    m = mk_model(p).double()
    B = p["B"]
    lens = sorted([int(x) for x in r.randint(1, p["tmax"] + 1, size=B)], reverse=True)
    seqs = [torch.tensor(r.normal(size=(n, 3))) for n in lens]

    def rows(y, which):
        """Flat outputs (time first) -> per sequence; y tensor or tuple."""
        if isinstance(y, tuple):
            return [rows(v, which) for v in y]
        order = [(t, i) for t in range(max(which)) for i in range(len(which)) if which[i] > t]
        out = [[None] * n for n in which]
        obs.require(len(y) == len(order), "%d outputs for %d inputs" % (len(y), len(order)))
        for (t, i), v in zip(order, y):
            out[i][t] = v.detach().numpy()
        return [np.array(o) for o in out]

    def flat(y):
        return [f for v in y for f in flat(v)] if isinstance(y, (list, tuple)) else [y]

    def same(a, b, what):
        a, b = flat(a), flat(b)
        obs.require(len(a) == len(b), what + ": structure")
        for x, z in zip(a, b):
            x, z = np.asarray(x), np.asarray(z)
            obs.require(x.shape == z.shape and np.allclose(x, z, atol=1e-9),
                        lambda: "%s: differs by %s" % (what, np.abs(x - z).max() if x.shape == z.shape else (x.shape, z.shape)))

    with torch.no_grad():
        init = [None] * B
        if p["state"]:
            # some sequences continue from an earlier state, some start afresh
            for i in range(B):
                if r.rand() < 0.6:
                    _, init[i] = ref_forward(m, torch.tensor(r.normal(size=(2, 3))), None)
        ref = [ref_forward(m, s, st) for s, st in zip(seqs, init)]
        ref_y = [[v.numpy() for v in flat([y])] for y, _ in ref]
        ref_s = [leaves(s) for _, s in ref]

        def squeeze(st):
            if st is None:
                return None
            return tuple(squeeze(x) for x in st) if isinstance(st, tuple) else st[:, 0]

        start = U.concatenate_recurrent_states([squeeze(s) for s in init])
        if r.rand() < 0.5:
            dev = torch.device("cpu")
            start = U.recurrent_state_from_numpy(
                U.concatenate_recurrent_states([U.recurrent_state_as_numpy(squeeze(s)) for s in init]), dev)
        keep = [l.copy() for l in leaves(start)]
        # 1. all at once
        y, st = U.pack_and_forward(m, seqs, start)
        got = rows(y, lens)
        nb = len(got) if isinstance(y, tuple) else 1
        per = (lambda i: [got[b][i] for b in range(nb)]) if isinstance(y, tuple) else (lambda i: [got[i]])
        for i in range(B):
            same(per(i), ref_y[i], "sequence %d of lengths %s processed in a batch" % (i, lens))
            one = leaves(U.get_recurrent_state_at(st, i, detach=True))
            same(one, [l[:, 0] for l in ref_s[i]], "final state of sequence %d" % i)
        same(keep, leaves(start), "the given state was modified")
        flat_in = U.flatten_sequences_time_first([[(i, t) for t in range(n)] for i, n in enumerate(lens)])
        obs.require(flat_in == [(i, t) for t in range(max(lens)) for i in range(B) if lens[i] > t],
                    "flatten_sequences_time_first gives another order")
        flat_in = U.flatten_sequences_time_first([[float((i + t) % 2) for t in range(n)] for i, n in enumerate(lens)])
        obs.require(flat_in == [float((i + t) % 2) for t in range(max(lens)) for i in range(B) if lens[i] > t],
                    "flatten_sequences_time_first of plain numbers drops or reorders items")
        # 2. step by step, the active sequences only
        st = start
        outs = [[] for _ in range(B)]
        for t in range(max(lens)):
            n = sum(1 for x in lens if x > t)
            cur = None if st is None else U.get_recurrent_state_at(st, list(range(n)), detach=False)
            y, cur = U.one_step_forward(m, torch.stack([seqs[i][t] for i in range(n)]), cur)
            st = cur
            for i in range(n):
                outs[i].append([v[i].numpy() for v in (y if isinstance(y, tuple) else [y])])
        for i in range(B):
            same([np.array([o[b] for o in outs[i]]) for b in range(len(outs[i][0]))], ref_y[i],
                 "sequence %d stepped one by one" % i)
        # 3. split at a random point, states selected, permuted and re-concatenated
        if lens[-1] >= 2:
            c = int(r.randint(1, lens[-1]))
            _, st = U.pack_and_forward(m, [s[:c] for s in seqs], start)
            parts = [U.get_recurrent_state_at(st, i, detach=True) for i in range(B)]
            perm = sorted(r.permutation(B).tolist(), key=lambda i: -lens[i])
            st2 = U.concatenate_recurrent_states([parts[i] for i in perm])
            y, st3 = U.pack_and_forward(m, [seqs[i][c:] for i in perm], st2)
            got = rows(y, [lens[i] - c for i in perm])
            for j, i in enumerate(perm):
                g = [got[b][j] for b in range(nb)] if isinstance(y, tuple) else [got[j]]
                same(g, [v[c:] for v in ref_y[i]], "sequence %d continued after regrouping" % i)
                same(leaves(U.get_recurrent_state_at(st3, j, detach=True)), [l[:, 0] for l in ref_s[i]],
                     "final state after regrouping")
            obs.n("regroupings")
            # 4. mask some sequences: they restart, the others continue
            ended = [i for i in range(B) if r.rand() < 0.5]
            arg = ended[0] if len(ended) == 1 and r.rand() < 0.5 else ended
            if ended:
                before = [l.copy() for l in leaves(st)]
                masked = U.mask_recurrent_state_at(st, arg)
                same(before, leaves(st), "masking modified its argument")
                y, _ = U.pack_and_forward(m, [s[c:] for s in seqs], masked)
                got = rows(y, [n - c for n in lens])
                for i in range(B):
                    want = ref_y[i]
                    if i in ended:
                        w, _ = ref_forward(m, seqs[i][c:], None)
                        want = [v.numpy() for v in flat([w])]
                    else:
                        want = [v[c:] for v in want]
                    g = [got[b][i] for b in range(nb)] if isinstance(y, tuple) else [got[i]]
                    same(g, want, "sequence %d after masking %s" % (i, ended))
                obs.n("maskings")
    obs.n("sequences", B)
    obs.sig("model", p["arch"], p["cell"], p["layers"], lens)


# --- agents ---

AG = ["DQN", "DoubleDQN", "PAL", "DPP", "CategoricalDQN", "IQN", "PPO", "PPO", "TRPO", "TRPO", "A3C", "ACER",
      "REINFORCE", "DQN", "DoublePAL"]


def gen_agent(rng, tier):
    name = AG[rng.randint(len(AG))]
    return dict(name=name, envs=1 if name in ("A3C", "ACER", "REINFORCE") else int(rng.choice([1, 2, 3, 4, 7])),
                steps=int(rng.choice([25, 60])), p_done=float(rng.choice([0.05, 0.2])),
                p_reset=float(rng.choice([0.0, 0.2])), p_eval=float(rng.choice([0.0, 0.1])),
                ek=int(rng.choice([1, 2, 3])), discrete=bool(rng.rand() < 0.5),
                lr=float(rng.choice([0.0, 0.02])), norm=bool(rng.rand() < 0.4),
                updates=bool(rng.rand() < 0.7), prog=int(rng.randint(2**31)))


def check_agent(p, obs):
    import pfrl

    name, E = p["name"], p["envs"]
    dqn = name in V.VALUE_AGENTS
    pol = not dqn
    extra = {}
    cfg = dict(recurrent=True, explorer="greedy", batch=4, opt="sgd", lr=p["lr"],
               replay_start=8 if p["updates"] else 10**5, discrete=p["discrete"], target_interval=7)
    if dqn:
        cfg["capacity"] = None
        if name == "IQN":
            extra["act_deterministically"] = True
    else:
        extra["act_deterministically"] = True
        cfg["lr"] = 0.0
    if name in ("PPO", "TRPO"):
        cfg["update_interval"] = 20 if p["updates"] else 10**6
        if p["norm"]:
            extra["obs_normalizer"] = pfrl.nn.EmpiricalNormalization(V.OBS)
    cfg["extra"] = extra
    h = V.make(name, seed=p["prog"] % 9973, **cfg)
    ag = h.agent
    if pol:
        # nearly deterministic policies: the mode is what is sampled
        targets = [ag.policy] if name == "TRPO" else [ag.model] + ([ag.shared_model] if hasattr(ag, "shared_model") else [])
        with torch.no_grad():
            for t in targets:
                for m in t.modules():
                    if isinstance(m, pfrl.policies.GaussianHeadWithStateIndependentCovariance):
                        m.var_param.fill_(-14.0)
                    if isinstance(m, nn.Sequential):
                        for a, b in zip(list(m), list(m)[1:]):
                            if isinstance(b, pfrl.policies.SoftmaxCategoricalHead):
                                a.weight.mul_(300)
    seen = set()

    def model():
        return ag.policy if name == "TRPO" else ag.model

    def expect(o, st):
        x = torch.tensor(np.asarray(o, dtype=np.float32))[None]
        with torch.no_grad(), pfrl.utils.evaluating(model()):
            if getattr(ag, "obs_normalizer", None) is not None:
                x = ag.obs_normalizer(x, update=False)
            if name == "ACER":
                m = model()
                hd, s = ref_forward(nn.Sequential(*list(m)[:-1]), x, st)
                return m[-1](hd)[0], s
            y, s = ref_forward(model(), x, st)
            if name in ("PPO", "A3C"):
                y = y[0]
            return y, s

    def judge(a, y, training, where):
        if name == "IQN":
            if training:
                return
            k = ag.quantile_thresholds_K
            with torch.no_grad():
                taus = torch.linspace(0, 1, k)[None]
                q = model().f(y[:, None, :] * model().phi(taus))[0].mean(0).numpy()
        elif dqn:
            q = y.q_values[0].numpy()
        elif h.discrete:
            lg = y.logits[0].numpy()
            top = np.sort(lg)
            if top[-1] - top[-2] < 25 and training:
                return
            q = lg
        else:
            want = y.mean[0].numpy()
            obs.require(np.allclose(a, want, atol=2e-4),
                        lambda: "%s acts %s, %s processed alone gives %s" % (name, np.asarray(a).tolist(), where, want.tolist()))
            obs.n("actions_compared")
            return
        top = np.sort(q)
        if top[-1] - top[-2] < 1e-4:
            return
        obs.require(int(a) == int(q.argmax()),
                    lambda: "%s chose %d, %s processed alone gives values %s" % (name, int(a), where, q.tolist()))
        obs.n("actions_compared")

    def norm_state(s):
        return [l.reshape(l.shape[0], -1) for l in leaves(s)]

    rng = np.random.RandomState(p["prog"] % 2**31)
    s = V.Stream(E, p["prog"] + 1, p["p_done"], p["p_reset"])
    ref = [None] * E
    log = {}
    tstep = [0] * E
    for step in range(p["steps"]):
        if rng.rand() < p["p_eval"]:
            k = 1 if not h.batch else p["ek"]
            es = V.Stream(k, int(rng.randint(2**31)), 0.2, 0.2)
            er = [None] * k
            n = int(rng.choice([2, 7]))
            with ag.eval_mode():
                for j in range(n):
                    acts = ag.batch_act(es.obs) if h.batch else [ag.act(es.obs[0])]
                    for i in range(k):
                        y, er[i] = expect(es.obs[i], er[i])
                        judge(acts[i], y, False, "evaluation environment %d" % i)
                    o, r, d, e = es.step()
                    e = [x or j == n - 1 for x in e]
                    if h.batch:
                        ag.batch_observe(o, r, d, e)
                    else:
                        ag.observe(o[0], r[0], d[0], e[0])
                    for i in range(k):
                        if d[i] or e[i]:
                            er[i] = None
                    es.begin(o, d, e)
            seen.add("eval")
        pre = list(ref)
        cur = []
        for i in range(E):
            y, ref[i] = expect(s.obs[i], ref[i])
            cur.append(y)
        acts = ag.batch_act(s.obs) if h.batch else [ag.act(s.obs[0])]
        for i in range(E):
            judge(acts[i], cur[i], True, "environment %d (step %d of its episode)" % (i, tstep[i]))
            if tstep[i] > 0:
                obs.n("actions_with_history")
            log[s.obs[i].tobytes()] = (norm_state(pre[i]), norm_state(ref[i]))
        o, r, d, e = s.step()
        if h.batch:
            ag.batch_observe(o, r, d, e)
        else:
            ag.observe(o[0], r[0], d[0], e[0])
        for i in range(E):
            tstep[i] += 1
            if d[i] or e[i]:
                seen.add((d[i], e[i], tuple(x or z for x, z in zip(d, e)).count(True)))
                ref[i] = None
                tstep[i] = 0
        s.begin(o, d, e)
        obs.n("environment_steps", E)
    if dqn and h.buf.n_episodes:
        for ep in h.buf.sample_episodes(h.buf.n_episodes):
            for t in ep:
                pre, post = log[np.asarray(t["state"], dtype=np.float32).tobytes()]
                for nm, want in (("recurrent_state", pre), ("next_recurrent_state", post)):
                    got = norm_state(t[nm])
                    if not want:
                        ok = all(not g.any() for g in got)
                    else:
                        ok = len(got) == len(want) and all(
                            a.shape == b.shape and np.allclose(a, b, atol=1e-4) for a, b in zip(got, want))
                    obs.require(ok, lambda: "%s: recorded %s is not that of its own environment's episode" % (name, nm))
                obs.n("recorded_states_compared")
    obs.sig("agent", name, E, p["discrete"] if pol else 0, sorted(map(repr, seen)))


# --- asynchronous actors: what an actor process sends to the learner ---

def gen_actor(rng, tier):
    return dict(cell=str(rng.choice(["LSTM", "GRU", "RNN"])), layers=int(rng.choice([1, 1, 2])),
                steps=int(rng.choice([20, 60])), p_done=float(rng.choice([0.0, 0.1, 0.3])),
                p_reset=float(rng.choice([0.0, 0.1, 0.3])), p_eval=float(rng.choice([0.05, 0.2])),
                within=bool(rng.rand() < 0.5), change=bool(rng.rand() < 0.4), prog=int(rng.randint(2**31)))


class _Pipe:
    def __init__(self):
        self.sent = []

    def send(self, m):
        self.sent.append(m)

    def recv(self):
        return None


def check_actor(p, obs):
    import pfrl

    torch.manual_seed(p["prog"] % 2**31)
    rng = np.random.RandomState(p["prog"])
    nact = 5
    m = pfrl.nn.RecurrentSequential(
        nn.Linear(3, 4), nn.Tanh(), getattr(nn, p["cell"])(4, 6, num_layers=p["layers"]), nn.Linear(6, nact),
        pfrl.q_functions.DiscreteActionValueHead())
    pipe = _Pipe()
    ag = pfrl.agents.StateQFunctionActor(pipe, m, pfrl.explorers.Greedy(), recurrent=True)

    def fwd(o, st):
        with torch.no_grad():
            y, s = ref_forward(m, torch.as_tensor(o)[None], st)
        return y.q_values[0].numpy(), s

    def judge(a, q, where):
        top = np.sort(q)
        if top[-1] - top[-2] < 1e-4:
            return
        obs.require(int(a) == int(q.argmax()), lambda: "the actor chose %d, %s processed alone gives values %s" % (int(a), where, q.tolist()))
        obs.n("actions_compared")

    def draw():
        return (rng.normal(size=3) * 2).astype(np.float32)

    def is_state(got, want):
        got, want = leaves(got), leaves(want)
        if not want:
            return all(not g.any() for g in got)
        return len(got) == len(want) and all(
            g.size == w.size and np.allclose(g.ravel(), w.ravel(), atol=1e-5) for g, w in zip(got, want))

    def evaluate():
        st = None
        o = draw()
        n = int(rng.randint(1, 9))
        with ag.eval_mode():
            for j in range(n):
                q, st = fwd(o, st)
                judge(ag.act(o), q, "the evaluation episode")
                o2 = draw()
                d = bool(rng.rand() < 0.15)
                e = bool(rng.rand() < 0.2) or (j == n - 1 and not d)
                sent = len(pipe.sent)
                ag.observe(o2, 1.0, d, e)
                obs.require(len(pipe.sent) == sent, "evaluation sent something to the learner")
                if d or e:
                    st = None
                    o2 = draw()
                o = o2
        obs.n("evaluations")

    st, o, t = None, draw(), 0
    ends = set()
    for step in range(p["steps"]):
        if rng.rand() < p["p_eval"]:
            evaluate()
        pre = st
        q, st = fwd(o, st)
        a = ag.act(o)
        judge(a, q, "the training episode (step %d)" % t)
        if p["within"] and rng.rand() < p["p_eval"]:
            evaluate()
        o2 = draw()
        d, e = bool(rng.rand() < p["p_done"]), bool(rng.rand() < p["p_reset"])
        del pipe.sent[:]
        ag.observe(o2, float(step), d, e)
        tr = [b for k, b in pipe.sent if k == "transition"]
        obs.require(len(tr) == 1, "one step sent %d transitions" % len(tr))
        tr = tr[0]
        obs.require(np.array_equal(tr["state"], o) and np.array_equal(tr["next_state"], o2) and tr["reward"] == step
                    and bool(tr["is_state_terminal"]) == d, "the transition sent is not the step taken")
        obs.require(is_state(tr["recurrent_state"], pre), "the hidden state sent is not that of the actor's own episode before the step")
        obs.require(is_state(tr["next_recurrent_state"], st), "the next hidden state sent is not that of the actor's own episode")
        obs.n("sent_states_compared", 2)
        t += 1
        o = o2
        if d or e:
            ends.add((d, e))
            st, o, t = None, draw(), 0
            if p["change"]:  # the learner updates the shared model
                with torch.no_grad():
                    for w in m.parameters():
                        w.add_(torch.randn_like(w) * 0.1)
    obs.sig("actor", p["cell"], p["layers"], p["within"], sorted(map(repr, ends)))


KINDS = [Kind("models", gen_model, check_model, 900, 12000), Kind("agents", gen_agent, check_agent, 120, 2500),
         Kind("actor", gen_actor, check_actor, 150, 3000)]
