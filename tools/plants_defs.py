from plants import bug

bug("C01-interrupted-single-step", "C01",
    ("pfrl/replay_buffers/replay_buffer.py",
     "        if 0 < len(last_n_transitions) < self.num_steps:\n",
     "        if 1 < len(last_n_transitions) < self.num_steps:\n"),
    """
    import pfrl
    rb = pfrl.replay_buffers.ReplayBuffer(100, num_steps=4)
    # an episode interrupted right after its first step
    rb.append("s0", 0, 1.0, next_state="s1", is_state_terminal=False)
    rb.stop_current_episode()
    got = [[t["state"] for t in e] for e in rb.sample(len(rb))]
    assert got == [["s0"]], got
    """,
    "n-step buffer (n >= 2) and an episode interrupted (not terminated) after exactly one step",
    "the only transition of the episode is never stored: experience is lost")

bug("C03-subseq-tail", "C03",
    ("pfrl/replay_buffer.py",
     "        i = np.random.randint(0, len(seq) - subseq_len + 1)\n",
     "        i = np.random.randint(0, max(len(seq) - subseq_len, 1))\n"),
    """
    import numpy as np, pfrl
    np.random.seed(0)
    rb = pfrl.replay_buffers.EpisodicReplayBuffer(100)
    for t in range(5):
        rb.append(t, 0, 0.0, next_state=t + 1, is_state_terminal=t == 4)
    seen = set()
    for _ in range(2000):
        seen.add(tuple(x["state"] for x in rb.sample_episodes(1, max_len=3)[0]))
    assert seen == {(0, 1, 2), (1, 2, 3), (2, 3, 4)}, seen
    """,
    "sub-episodes shorter than the episode are sampled",
    "the last part of an episode, with its terminal transition, is never sampled")

bug("C04-max-priority-last-only", "C04",
    ("pfrl/collections/prioritized.py",
     "            self.max_priority = max(self.max_priority, p)\n        self.flag_wait_priority = False",
     "        self.max_priority = max(self.max_priority, p)\n        self.flag_wait_priority = False"),
    """
    import numpy as np
    from pfrl.replay_buffers import PrioritizedReplayBuffer
    np.random.seed(0)
    # the datum appended last must be as likely as the one with the largest priority
    first = {0: 0, 4: 0}
    for _ in range(300):
        b = PrioritizedReplayBuffer(100, alpha=1.0, beta0=0.0, error_max=1000.0)
        for i in range(4):
            b.append(i, 0, 0.0, next_state=i + 1)
        order = [e[0]["state"] for e in b.sample(4)]
        b.update_errors([{0: 50.0, 1: 1.0, 2: 2.0, 3: 1.0}[i] for i in order])
        b.append(4, 0, 0.0, next_state=5)
        if order[-1] == 0:
            continue  # only the other orders show a difference
        s = b.sample(1)[0][0]["state"]
        first[s] = first.get(s, 0) + 1
    assert first[4] > 0.25 * sum(first.values()), first
    """,
    "the largest error of a batch is not the last one of the batch and exceeds every earlier priority",
    "new data do not enter with the highest priority seen so far")

bug("C04-stale-min", "C04",
    ("pfrl/collections/prioritized.py",
     "            self.priority_sums[i] = p\n            self.priority_mins[i] = p\n",
     "            self.priority_sums[i] = p\n            if p < self.priority_mins.min():\n                self.priority_mins[i] = p\n"),
    """
    import numpy as np
    from pfrl.replay_buffers import PrioritizedReplayBuffer
    np.random.seed(0)
    b = PrioritizedReplayBuffer(capacity=100, alpha=1.0, beta0=1.0, betasteps=None, eps=1e-6,
                                normalize_by_max="memory", error_max=100.0)
    for i in range(8):
        b.append(i, 0, 0.0, next_state=i + 1)
    b.sample(8)
    b.update_errors([0.1] * 8)
    b.sample(8)
    b.update_errors([0.2 + 0.1 * i for i in range(8)])
    w = [e[0]["weight"] for e in b.sample(1)]
    for _ in range(300):
        b.update_errors([0.2])
        s = b.sample(1)
        b.update_errors([0.2])
        s = b.sample(1)
        if s[0][0]["state"] is not None and abs(s[0][0]["weight"] - 1.0) < 1e-3:
            break
    else:
        raise SystemExit("the least likely datum never gets weight 1")
    """,
    "priorities rise again after having been low, with weights normalised over the whole memory",
    "the smallest probability in the memory is stale, so all importance weights are too small")

bug("C12-a2c-gae-mask", "C12",
    ("pfrl/agents/a2c.py",
     "                gae = delta + self.gamma * self.tau * self.masks[i] * gae\n",
     "                gae = delta + self.gamma * self.tau * (self.masks[i] * gae if i else gae)\n"),
    """
    import numpy as np, torch, pfrl
    from pfrl.agents import A2C
    torch.manual_seed(0)
    model = torch.nn.Sequential(torch.nn.Linear(2, 3), pfrl.nn.Branched(
        torch.nn.Sequential(torch.nn.Linear(3, 2), pfrl.policies.SoftmaxCategoricalHead()), torch.nn.Linear(3, 1)))
    a = A2C(model, torch.optim.SGD(model.parameters(), 0.0), gamma=0.9, num_processes=1, update_steps=3, use_gae=True, tau=0.9)
    obs = [np.ones(2, dtype=np.float32) * i for i in range(6)]
    rs, dn = [1.0, 2.0, 3.0], [True, False, False]
    for i in range(3):
        a.batch_act([obs[i]])
        a.batch_observe([obs[i + 1]], [rs[i]], [dn[i]], [False])
    # first transition is terminal, so its return is its reward alone
    assert abs(float(a.returns[0, 0]) - 1.0) < 1e-5, a.returns
    """,
    "GAE and an episode ending exactly at the first step of an update window",
    "the advantage of the last step of an episode includes rewards of the next episode")

bug("C13-trpo-restore", "C13",
    ("pfrl/agents/trpo.py",
     "            elif float(new_kl) > self.max_kl:\n",
     "            elif i < self.line_search_max_backtrack and float(new_kl) > self.max_kl:\n"),
    """
    import numpy as np, torch, pfrl
    from pfrl.agents import TRPO
    torch.manual_seed(0); np.random.seed(0)
    pi = torch.nn.Sequential(torch.nn.Linear(2, 8), torch.nn.Tanh(), torch.nn.Linear(8, 3),
        pfrl.policies.SoftmaxCategoricalHead())
    vf = torch.nn.Sequential(torch.nn.Linear(2, 1))
    a = TRPO(policy=pi, vf=vf, vf_optimizer=torch.optim.SGD(vf.parameters(), 0.01), max_kl=0.01,
             line_search_max_backtrack=0, update_interval=20, entropy_coef=0.0, standardize_advantages=True)
    bad = 0
    r = np.random.RandomState(0)
    pool = []
    for ep in range(40):
        old = [p.detach().clone() for p in pi.parameters()]
        states = []
        for t in range(20):
            o = r.normal(size=2).astype(np.float32) * 3
            states.append(o)
            a.batch_act([o])
            a.batch_observe([r.normal(size=2).astype(np.float32)], [float(r.normal())], [t == 19], [False])
        new = [p.detach().clone() for p in pi.parameters()]
        x = torch.tensor(np.array(states))
        with torch.no_grad():
            dn = pi(x)
            for p, q in zip(pi.parameters(), old): p.copy_(q)
            do = pi(x)
            for p, q in zip(pi.parameters(), new): p.copy_(q)
            kl = float(torch.distributions.kl_divergence(do, dn).mean())
        assert kl <= 0.01 * 1.001, kl
    """,
    "a line search whose every candidate, including the last backtracking step, violates the KL constraint",
    "the policy moves further than max_kl from the old one instead of staying unchanged")

bug("C02-discard-one", "C02",
    ("pfrl/replay_buffers/prioritized_episodic.py",
     "            while self.capacity is not None and len(self.memory) > self.capacity:\n",
     "            if self.capacity is not None and len(self.memory) > self.capacity:\n"),
    """
    import pfrl
    rb = pfrl.replay_buffers.PrioritizedEpisodicReplayBuffer(10)
    for n in (3, 3, 4, 8):
        for t in range(n):
            rb.append(t, 0, 0.0, next_state=t + 1, is_state_terminal=t == n - 1)
    assert len(rb) <= 10 and rb.n_episodes == 1, (len(rb), rb.n_episodes)
    """,
    "a completed episode that is longer than the oldest episode of a full prioritized episodic buffer",
    "the buffer exceeds its capacity")

bug("C05-setitem-negative-front", "C05",
    ("pfrl/collections/random_access_queue.py",
     "                i += nb\n                if i >= -len(self._queue_front):\n                    self._queue_front[~i] = x\n",
     "                i += len(self)\n                if i >= 0:\n                    self._queue_front[i] = x\n"),
    """
    from pfrl.collections.random_access_queue import RandomAccessQueue
    q = RandomAccessQueue(range(5))
    q.popleft()
    q.append(5)
    q[-5] = "x"
    assert list(q) == ["x", 2, 3, 4, 5], list(q)
    """,
    "assignment by a negative index to an old item after something was removed and something else appended",
    "another item of the queue is overwritten")

bug("C06-data-flushed-after-index", "C06",
    ("pfrl/collections/persistent_collections.py",
     "        self.dfp.write(data)\n        self.dfp.flush()\n        crc = binascii.crc32(data)\n        length = len(data)\n        index = pack(self.index_format, self.gen, self.offset, length, crc, 0)\n        self.ifp.write(index)\n        self.ifp.flush()\n",
     "        self.dfp.write(data)\n        crc = binascii.crc32(data)\n        length = len(data)\n        index = pack(self.index_format, self.gen, self.offset, length, crc, 0)\n        self.ifp.write(index)\n        self.ifp.flush()\n        self.dfp.flush()\n"),
    """
    import os, shutil, signal, subprocess, sys, tempfile
    child = ("import sys; from pfrl.replay_buffers import PersistentReplayBuffer; b = PersistentReplayBuffer(sys.argv[1], 100);"
             "[b.append(state=i, action=0, reward=0.0, next_state=i + 1, is_state_terminal=False) for i in range(4)]")
    if __name__ == "__main__":
        top = tempfile.mkdtemp()
        try:
            with open(os.path.join(top, "child.py"), "w") as f:
                f.write(child)
            from pfrl.replay_buffers import PersistentReplayBuffer
            for n in range(1, 40):
                d = os.path.join(top, "d%d" % n)
                # killed right after its n-th write
                r = subprocess.run(["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write",
                                    "-e", "inject=write:signal=SIGKILL:when=%d" % n, sys.executable, "-W", "ignore", os.path.join(top, "child.py"), d],
                                   capture_output=True)
                b = PersistentReplayBuffer(d, 100)  # must open
                got = sorted(e[0]["state"] for e in b.sample(len(b)))
                assert got == list(range(len(got))), got
                if r.returncode == 0:
                    break
            assert n > 2, r
        finally:
            shutil.rmtree(top)
    """,
    "the writing process is killed between the write of the index entry and the write of the data",
    "the index refers to data that are not there and the buffer cannot be reopened")

bug("C07-capacity-lost", "C07",
    [("pfrl/replay_buffers/replay_buffer.py",
      "            pickle.dump(self.memory, f)\n",
      "            memory = self.memory\n            if isinstance(memory, RandomAccessQueue):\n                memory = collections.deque(memory)\n            pickle.dump(memory, f)\n")],
    """
    import os, shutil, tempfile, pfrl
    d = tempfile.mkdtemp()
    try:
        a = pfrl.replay_buffers.ReplayBuffer(5)
        for i in range(5):
            a.append(i, 0, 0.0, next_state=i + 1)
        a.save(os.path.join(d, "rb"))
        b = pfrl.replay_buffers.ReplayBuffer(5)
        b.load(os.path.join(d, "rb"))
        for i in range(5, 9):
            b.append(i, 0, 0.0, next_state=i + 1)
        assert len(b) == 5, len(b)
    finally:
        shutil.rmtree(d)
    """,
    "a loaded buffer is filled beyond its capacity",
    "the loaded buffer has lost its capacity and grows without bound, unlike the original")

bug("C08-ddpg-stop-wrong-env", "C08",
    ("pfrl/agents/ddpg.py",
     "                    self.replay_buffer.stop_current_episode(env_id=i)\n",
     "                    self.replay_buffer.stop_current_episode()\n"),
    """
    import numpy as np, torch, pfrl
    torch.manual_seed(0)
    q = torch.nn.Sequential(pfrl.nn.ConcatObsAndAction(), torch.nn.Linear(3, 1))
    pi = torch.nn.Sequential(torch.nn.Linear(2, 1), pfrl.policies.DeterministicHead())
    rb = pfrl.replay_buffers.ReplayBuffer(1000, num_steps=3)
    a = pfrl.agents.DDPG(pi, q, torch.optim.SGD(pi.parameters(), 0.1), torch.optim.SGD(q.parameters(), 0.1), rb,
                         gamma=0.9, explorer=pfrl.explorers.AdditiveGaussian(0.1), replay_start_size=500, minibatch_size=2)
    k = [0, 100]
    obs = [np.array([x, 0], dtype=np.float32) for x in k]
    for t in range(12):
        a.batch_act(obs)
        k = [x + 1 for x in k]
        end = [t % 5 == 4, t % 4 == 3]
        a.batch_observe([np.array([x, 0], dtype=np.float32) for x in k], [0.0, 0.0], [False, False], end)
        k = [x + 20 if e else x for x, e in zip(k, end)]
        obs = [np.array([x, 0], dtype=np.float32) for x in k]
    for w in rb.sample(len(rb)):
        for x, y in zip(w, w[1:]):
            assert x["next_state"][0] == y["state"][0], ([t["state"][0] for t in w])
    """,
    "n-step replay, a batch of at least two environments and an episode of another than the first one interrupted without a terminal",
    "n-step experiences span the reset of an environment")

bug("C09-start-size-counts-steps", "C09",
    ("pfrl/replay_buffer.py",
     "        if len(self.replay_buffer) < self.replay_start_size:\n            return False\n\n        if self.episodic_update and",
     "        if iteration < self.replay_start_size and (\n            len(self.replay_buffer) < self.replay_start_size\n        ):\n            return False\n\n        if self.episodic_update and"),
    """
    import numpy as np, torch, pfrl
    torch.manual_seed(0); np.random.seed(0)
    q = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.q_functions.DiscreteActionValueHead())
    rb = pfrl.replay_buffers.ReplayBuffer(1000, num_steps=5)
    a = pfrl.agents.DQN(q, torch.optim.SGD(q.parameters(), 0.1), rb, 0.9, pfrl.explorers.Greedy(),
                        replay_start_size=20, minibatch_size=4, update_interval=1)
    w0 = [p.detach().clone() for p in q.parameters()]
    o = np.zeros(2, dtype=np.float32)
    for t in range(40):
        a.act(o)
        a.observe(o + t, 1.0, False, False)
        changed = any(not torch.equal(x, y) for x, y in zip(w0, q.parameters()))
        assert changed == (len(rb) >= 20), (t, len(rb), changed)
        if changed:
            break
    """,
    "the buffer holds fewer transitions than steps made: n-step replay, episodes under way, or training resumed with a step offset",
    "updates start before the buffer holds the configured number of transitions")

bug("C10-ddqn-recurrent-state", "C10",
    ("pfrl/agents/double_dqn.py",
     "                    self.model,\n                    batch_next_state,\n                    exp_batch[\"next_recurrent_state\"],\n",
     "                    self.model,\n                    batch_next_state,\n                    exp_batch[\"recurrent_state\"],\n"),
    """
    import numpy as np, torch, pfrl
    bad = 0
    for seed in range(30):
        torch.manual_seed(seed); r = np.random.RandomState(seed)
        m = pfrl.nn.RecurrentSequential(torch.nn.RNN(2, 4), torch.nn.Linear(4, 4), pfrl.q_functions.DiscreteActionValueHead())
        a = pfrl.agents.DoubleDQN(m, torch.optim.SGD(m.parameters(), 0.1), pfrl.replay_buffers.EpisodicReplayBuffer(100), 0.9,
                                  pfrl.explorers.Greedy(), recurrent=True, clip_delta=False, episodic_update_len=3, minibatch_size=1,
                                  replay_start_size=1)
        with torch.no_grad():
            for p in a.target_model.parameters():
                p.copy_(torch.randn_like(p))
        s, ns = (r.normal(size=2).astype(np.float32) for _ in range(2))
        h = (2 * r.normal(size=(1, 4))).astype(np.float32)
        with torch.no_grad():
            y, _ = pfrl.utils.recurrent.one_step_forward(m, torch.tensor(s[None]), None)
            n1, _ = pfrl.utils.recurrent.one_step_forward(m, torch.tensor(ns[None]), (torch.tensor(h[:, None]),))
            n2, _ = pfrl.utils.recurrent.one_step_forward(a.target_model, torch.tensor(ns[None]), (torch.tensor(h[:, None]),))
            t = 1.0 + 0.9 * float(n2.evaluate_actions(n1.greedy_actions))
            want = 0.5 * (float(y.evaluate_actions(torch.tensor([1]))) - t) ** 2
        a.update_from_episodes([[dict(state=s, action=1, reward=1.0, next_state=ns, next_action=None, is_state_terminal=False,
                                      recurrent_state=None, next_recurrent_state=(h,))]])
        got = dict(a.get_statistics())["average_loss"]
        bad += not np.isclose(got, want, rtol=1e-3, atol=1e-5)
    assert not bad, bad
    """,
    "recurrent Double DQN whose recurrent state changes which action is greedy in the next state",
    "the target evaluates an action chosen from an outdated recurrent state")

bug("C11-td3-nstep-discount", "C11",
    ("pfrl/agents/td3.py",
     "            target_q = batch_rewards + batch_discount * (\n                1.0 - batch_terminal\n            ) * torch.flatten(next_q)\n",
     "            target_q = batch_rewards + self.gamma * (\n                1.0 - batch_terminal\n            ) * torch.flatten(next_q)\n"),
    """
    import numpy as np, torch, pfrl
    torch.manual_seed(0)
    def Q():
        return torch.nn.Sequential(pfrl.nn.ConcatObsAndAction(), torch.nn.Linear(3, 1))
    q1, q2 = Q(), Q()
    pi = torch.nn.Sequential(torch.nn.Linear(2, 1), pfrl.policies.DeterministicHead())
    opt = lambda m: torch.optim.SGD(m.parameters(), 0.0)
    a = pfrl.agents.TD3(pi, q1, q2, opt(pi), opt(q1), opt(q2), pfrl.replay_buffers.ReplayBuffer(100, num_steps=2), 0.5,
                        pfrl.explorers.AdditiveGaussian(0.1), target_policy_smoothing_func=lambda x: x)
    x = lambda v: np.full(2, v, dtype=np.float32)
    A = np.zeros(1, dtype=np.float32)
    e = [[dict(state=x(0), action=A, reward=0.0, next_state=x(1), next_action=None, is_state_terminal=False),
          dict(state=x(1), action=A, reward=0.0, next_state=x(2), next_action=None, is_state_terminal=False)]]
    with torch.no_grad():
        na = pi(torch.tensor(x(2)[None])).sample()
        nq = min(float(q((torch.tensor(x(2)[None]), na))) for q in (q1, q2))
        want = (float(q1((torch.tensor(x(0)[None]), torch.tensor(A[None])))) - 0.25 * nq) ** 2
    a.update(e)
    got = dict(a.get_statistics())["average_q_func1_loss"]
    assert np.isclose(got, want, rtol=1e-4), (got, want)
    """,
    "n-step replay with n > 1 (or windows of different lengths)",
    "bootstrapped values are discounted by one step instead of the number of steps of the experience")

bug("C14-nested-eval-mode", "C14",
    ("pfrl/agent.py",
     "        orig_mode = self.training\n        try:\n            self.training = False\n            yield\n        finally:\n            self.training = orig_mode\n",
     "        try:\n            self.training = False\n            yield\n        finally:\n            self.training = True\n"),
    """
    import numpy as np, torch, pfrl
    q = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.q_functions.DiscreteActionValueHead())
    rb = pfrl.replay_buffers.ReplayBuffer(1000)
    a = pfrl.agents.DQN(q, torch.optim.SGD(q.parameters(), 0.1), rb, 0.9, pfrl.explorers.Greedy(), replay_start_size=500)
    o = np.zeros(2, dtype=np.float32)
    with a.eval_mode():
        with a.eval_mode():
            a.act(o); a.observe(o, 0.0, False, False)
        for _ in range(3):
            a.act(o); a.observe(o, 0.0, False, False)
    assert len(rb) == 0, len(rb)
    """,
    "an evaluation is started while the agent already is in evaluation mode",
    "the rest of the outer evaluation is treated as training: its experience is recorded and learned from")

bug("C15-actor-eval-reset", "C15",
    ("pfrl/agents/state_q_function_actor.py",
     "        else:\n            if (done or reset) and self.recurrent:\n                self.test_recurrent_states = None\n",
     "        else:\n            if done and self.recurrent:\n                self.test_recurrent_states = None\n"),
    """
    import numpy as np, torch, pfrl
    torch.manual_seed(0)
    seen = []
    class Spy(torch.nn.Module):
        def forward(self, x):
            seen.append(x.detach().numpy().copy())
            return x
    m = pfrl.nn.RecurrentSequential(torch.nn.GRU(2, 3), Spy(), torch.nn.Linear(3, 2), pfrl.q_functions.DiscreteActionValueHead())
    a = pfrl.agents.StateQFunctionActor(None, m, pfrl.explorers.Greedy(), recurrent=True)
    o = np.ones(2, dtype=np.float32)
    with a.eval_mode():
        for ep in range(2):
            for t in range(3):
                a.act(o)
                a.observe(o, 0.0, False, t == 2)
    assert np.allclose(seen[:3], seen[3:], atol=1e-5), seen
    """,
    "a recurrent actor of actor-learner training evaluates an episode that is cut by the length limit",
    "the hidden state of the cut episode leaks into the next one")

bug("C16-sac-temperature-optimizer", "C16",
    ("pfrl/agents/soft_actor_critic.py",
     '        "temperature_holder",\n        "temperature_optimizer",\n    )\n',
     '        "temperature_holder",\n    )\n'),
    """
    import numpy as np, torch, pfrl, tempfile, shutil
    def make():
        torch.manual_seed(0)
        Q = lambda: torch.nn.Sequential(pfrl.nn.ConcatObsAndAction(), torch.nn.Linear(3, 1))
        pi = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.policies.GaussianHeadWithDiagonalCovariance())
        q1, q2 = Q(), Q()
        opt = lambda m: torch.optim.Adam(m.parameters(), 0.1)
        return pfrl.agents.SoftActorCritic(pi, q1, q2, opt(pi), opt(q1), opt(q2), pfrl.replay_buffers.ReplayBuffer(100), 0.9,
                                           entropy_target=-1.0, temperature_optimizer_lr=0.1)
    e = [[dict(state=np.ones(2, dtype=np.float32) * i, action=np.ones(1, dtype=np.float32), reward=float(i),
               next_state=np.ones(2, dtype=np.float32), next_action=None, is_state_terminal=False)] for i in range(4)]
    d = tempfile.mkdtemp()
    try:
        a = make()
        for i in range(5):
            a.update(e[: 1 + i % 4])
        a.save(d)
        b = make()
        b.load(d)
        out = []
        for x in (a, b):
            torch.manual_seed(1)
            for _ in range(3):
                x.update(e)
            out.append(x.temperature)
        assert abs(out[0] - out[1]) < 1e-6, out
    finally:
        shutil.rmtree(d)
    """,
    "training is continued after loading an agent with a learned temperature",
    "the state of the temperature's optimizer is lost, so training goes on differently")

bug("C17-needs-reset-length", "C17",
    ("pfrl/experiments/train_agent.py",
     "                episode_r = 0\n                episode_len = 0\n                obs = env.reset()\n",
     "                episode_r = 0\n                if done or episode_len == max_episode_len:\n                    episode_len = 0\n                obs = env.reset()\n"),
    """
    import logging, shutil, tempfile, pfrl
    from pfrl.experiments import train_agent
    class Env:
        def __init__(self): self.lens, self.n = [], 0
        def reset(self):
            self.lens.append(0)
            return 0
        def step(self, a):
            self.lens[-1] += 1
            return 0, 0.0, False, {"needs_reset": len(self.lens) == 2 and self.lens[-1] == 3}
    class Agent(pfrl.agent.Agent):
        def act(self, o): return 0
        def observe(self, *a): pass
        def save(self, d): pass
        def load(self, d): pass
        def get_statistics(self): return []
    d = tempfile.mkdtemp()
    try:
        env = Env()
        train_agent(Agent(), env, 23, d, max_episode_len=5)
        assert env.lens == [5, 3, 5, 5, 5], env.lens
    finally:
        shutil.rmtree(d)
    """,
    "an environment that requests a reset before the maximum episode length is reached",
    "the episode after the requested reset is cut too early")

bug("C18-terminal-at-limit", "C18",
    ("pfrl/experiments/train_agent_batch.py",
     "            agent.batch_observe(obss, rs, dones, resets)\n",
     "            agent.batch_observe(\n                obss, rs, np.logical_and(dones, np.logical_not(resets)), resets\n            )\n"),
    """
    import gym, numpy as np, shutil, tempfile, pfrl
    class E(gym.Env):
        observation_space = gym.spaces.Discrete(9); action_space = gym.spaces.Discrete(2)
        def reset(self): self.t = 0; return 0
        def step(self, a):
            self.t += 1
            return self.t, 0.0, self.t == 4, {}
    class Agent(pfrl.agent.BatchAgent if hasattr(pfrl.agent, "BatchAgent") else pfrl.agent.Agent):
        log = []
        def batch_act(self, o): return [0] * len(o)
        def batch_observe(self, o, r, d, s): self.log.append([bool(x) for x in d])
        def act(self, o): return 0
        def observe(self, *a): pass
        def save(self, d): pass
        def load(self, d): pass
        def get_statistics(self): return []
    d = tempfile.mkdtemp()
    try:
        a = Agent()
        env = pfrl.envs.SerialVectorEnv([E(), E()])
        pfrl.experiments.train_agent_batch(a, env, 16, d, max_episode_len=4)
        assert [x for x in a.log] == [[False] * 2] * 3 + [[True] * 2] + [[False] * 2] * 3 + [[True] * 2], a.log
    finally:
        shutil.rmtree(d)
    """,
    "an episode that terminates exactly at the maximum episode length",
    "the agent is not told of the terminal and bootstraps beyond it")

bug("C20-offset-schedule", "C20",
    ("pfrl/experiments/evaluator.py",
     "        self.prev_eval_t = self.step_offset - self.step_offset % self.eval_interval\n",
     "        self.prev_eval_t = self.step_offset\n"),
    """
    import gym, shutil, tempfile, pfrl
    class E(gym.Env):
        observation_space = gym.spaces.Discrete(9); action_space = gym.spaces.Discrete(2)
        def reset(self): return 0
        def step(self, a): return 0, 1.0, True, {}
    class Agent(pfrl.agent.Agent):
        act = lambda self, o: 0
        observe = lambda self, *a: None
        save = load = lambda self, d: None
        get_statistics = lambda self: []
    d = tempfile.mkdtemp()
    try:
        ev = pfrl.experiments.evaluator.Evaluator(Agent(), E(), n_steps=None, n_episodes=1, eval_interval=10, outdir=d, step_offset=25)
        got = [t for t in range(26, 45) if ev.evaluate_if_necessary(t, 0) is not None]
    finally:
        shutil.rmtree(d)
    assert got == [30, 40], got
    """,
    "training resumed from a step offset that is no multiple of the evaluation interval",
    "evaluations are late: a multiple of the interval passes without one")

bug("C21-stale-obs-after-reset", "C21",
    ("pfrl/envs/multiprocess_vector_env.py",
     "        self.last_obs = obs\n        return obs\n",
     "        return obs\n"),
    """
    import gym, pfrl
    class E(gym.Env):
        observation_space = gym.spaces.Discrete(999); action_space = gym.spaces.Discrete(2)
        n = 0
        def reset(self): self.n += 1; self.t = 0; return 100 * self.n
        def step(self, a): self.t += 1; return 100 * self.n + self.t, 0.0, False, {}
    env = pfrl.envs.MultiprocessVectorEnv([E, E])
    try:
        env.reset()
        env.step([0, 0])
        assert list(env.reset([False, False])) == [200, 200]
        # nothing happened in the first environment since then
        got = list(env.reset([True, False]))
        assert got == [200, 300], got
    finally:
        env.close()
    """,
    "two resets in a row, the second one with a mask",
    "an environment that is not to be reset reports an observation of its previous episode")

bug("C22-stack-alias", "C22",
    ("pfrl/wrappers/atari_wrappers.py",
     "        return LazyFrames(list(self.frames), stack_axis=self.stack_axis)\n",
     "        return LazyFrames(self.frames, stack_axis=self.stack_axis)\n"),
    """
    import gym, numpy as np, pfrl
    from pfrl.wrappers.atari_wrappers import FrameStack
    class E(gym.Env):
        observation_space = gym.spaces.Box(0, 255, (1, 2, 2), dtype=np.uint8); action_space = gym.spaces.Discrete(2)
        def reset(self): self.t = 0; return np.full((1, 2, 2), 0, dtype=np.uint8)
        def step(self, a): self.t += 1; return np.full((1, 2, 2), self.t, dtype=np.uint8), 0.0, False, {}
    env = FrameStack(E(), 3, channel_order="chw")
    env.reset()
    o = env.step(0)[0]
    env.step(0)
    assert np.array(o)[:, 0, 0].tolist() == [0, 0, 1], np.array(o)
    """,
    "an observation is kept (as replay buffers do) while the environment goes on",
    "kept observations change afterwards to the frames of later steps")

bug("C24-ou-in-place", "C24",
    ("pfrl/explorers/additive_ou.py",
     "        return a + noise\n",
     "        a += noise\n        return a\n"),
    """
    import numpy as np, pfrl
    np.random.seed(0)
    e = pfrl.explorers.AdditiveOU(sigma=1.0)
    a = np.zeros(3, dtype=np.float32)
    for t in range(5):
        e.select_action(t, lambda: a)
    assert not a.any(), a
    """,
    "the greedy action is used again after the exploratory action has been chosen",
    "the explorer changes the greedy action it was given")

bug("C25-quadratic-slice-bounds", "C25",
    ("pfrl/action_value.py",
     "            self.v[i],\n            min_action=self.min_action,\n            max_action=self.max_action,\n",
     "            self.v[i],\n            min_action=self.min_action,\n            max_action=None if self.min_action is None else self.max_action,\n"),
    """
    import torch
    from pfrl.action_value import QuadraticActionValue
    mu = torch.tensor([[3.0], [-3.0]])
    av = QuadraticActionValue(mu, torch.ones(2, 1, 1), torch.zeros(2, 1), min_action=None, max_action=1.0)
    assert torch.equal(av[0:1].greedy_actions, av.greedy_actions[0:1]), av[0:1].greedy_actions
    """,
    "quadratic action values with only an upper bound, of which a slice is taken",
    "the slice has lost the upper bound of actions")

bug("C26-std-cache", "C26",
    ("pfrl/nn/empirical_normalization.py",
     "        # clear cache\n        self._cached_std_inverse = None\n\n    def forward(",
     "        # clear cache\n        if rate > 1e-5:\n            self._cached_std_inverse = None\n\n    def forward("),
    """
    import numpy as np, torch, pfrl
    n = pfrl.nn.EmpiricalNormalization(1)
    n(torch.randn(200000, 1))
    n(torch.randn(1, 1))
    for i in range(100):
        n(torch.full((1, 1), 5e3))
    x = torch.tensor([[3.0]])
    want = (x - n.mean) / torch.sqrt(n.std ** 2 + 1e-2)
    got = n(x, update=False)
    assert torch.allclose(got, want, rtol=1e-2), (got, want)
    """,
    "small batches after a lot of data, so that each changes the statistics only a little",
    "outputs are scaled by an outdated deviation")

bug("C27-decay-in-place", "C27",
    ("pfrl/optimizers/rmsprop_eps_inside_sqrt.py",
     '                    grad = grad.add(group["weight_decay"], p.data)\n',
     '                    grad.add_(p.data, alpha=group["weight_decay"])\n'),
    """
    import torch
    from pfrl.optimizers import RMSpropEpsInsideSqrt
    p = torch.nn.Parameter(torch.ones(3))
    o = RMSpropEpsInsideSqrt([p], lr=0.1, weight_decay=0.5)
    p.grad = torch.full((3,), 2.0)
    o.step()
    assert torch.equal(p.grad, torch.full((3,), 2.0)), p.grad
    """,
    "weight decay with gradients that are used again after the step (accumulated or shared ones)",
    "the decay term accumulates in the gradients")

bug("C29-staged-changes", "C29",
    ("pfrl/experiments/prepare_output_dir.py",
     '    sources = [subprocess.check_output("git diff HEAD".split()), pickle.dumps(argv)]\n',
     '    sources = [subprocess.check_output("git diff".split()), pickle.dumps(argv)]\n'),
    """
    import os, shutil, subprocess, tempfile
    d = tempfile.mkdtemp()
    try:
        os.chdir(d)
        env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
        def git(*a):
            subprocess.run(("git",) + a, check=True, env=env, capture_output=True)
        git("init")
        open("f", "w").write("1\\n")
        git("add", "f")
        git("commit", "-m", "x")
        from pfrl.experiments import generate_exp_id
        ids = set()
        for k in range(3):
            open("f", "w").write("%d\\n" % (k + 1))
            git("add", "f")
            ids.add(generate_exp_id(argv=["x"]))
        assert len(ids) == 3, ids
    finally:
        os.chdir("/")
        shutil.rmtree(d)
    """,
    "uncommitted changes that have been staged",
    "runs with different sources get the same identifier and share a directory")

bug("C30-acer-clip-shared", "C30",
    ("pfrl/agents/acer.py",
     "            Q_ret = c * (Q_ret - float(Q)) + float(v)\n            Q_opc = Q_opc - float(Q) + float(v)\n",
     "            Q_ret = c * (Q_ret - float(Q)) + float(v)\n            Q_opc = c * (Q_opc - float(Q)) + float(v)\n"),
    """
    import numpy as np, torch, pfrl
    from pfrl.agents import acer
    def grads(r1):
        torch.manual_seed(0)
        m = acer.ACERContinuousActionHead(
            pi=torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.policies.GaussianHeadWithDiagonalCovariance()),
            v=torch.nn.Linear(2, 1), adv=torch.nn.Sequential(pfrl.nn.ConcatObsAndAction(), torch.nn.Linear(3, 1)), n=1)
        rb = pfrl.replay_buffers.EpisodicReplayBuffer(100)
        a = acer.ACER(m, torch.optim.SGD(m.parameters(), 1.0), t_max=2, gamma=1.0, replay_buffer=rb, beta=0.0, use_Q_opc=True, Q_loss_coef=0.0,
                      use_trust_region=False, truncation_threshold=1e9, replay_start_size=1, n_times_replay=1, normalize_loss_by_steps=False)
        for x in (a.shared_model, a.shared_average_model):
            x.share_memory()
        mu = torch.distributions.Independent(torch.distributions.Normal(torch.full((1, 1), 1.0), torch.full((1, 1), 0.05)), 1)
        A = np.array([1.0], dtype=np.float32)
        S = [np.full(2, i, dtype=np.float32) for i in range(3)]
        for i in range(2):
            rb.append(S[i], A, [0.0, r1][i], next_state=S[i + 1], is_state_terminal=i == 1, mu=mu)
        with torch.no_grad():
            pi0, pi1 = (m.pi(torch.tensor(S[i][None])) for i in range(2))
            rho = [float(torch.exp(p.log_prob(torch.tensor(A[None])) - mu.log_prob(torch.tensor(A[None])))) for p in (pi0, pi1)]
        before = {k: p.detach().clone() for k, p in m.named_parameters()}
        w = [p.detach().clone().requires_grad_() for p in m.pi.parameters()]
        torch.manual_seed(1)
        a.update_from_replay()
        after = dict(m.named_parameters())
        step = torch.cat([(after[k] - before[k]).detach().flatten() for k in before if k.startswith("pi")])
        # gradient of log-probabilities at both steps
        gs = []
        for i in range(2):
            W, b = before["pi.0.weight"].clone().requires_grad_(), before["pi.0.bias"].clone().requires_grad_()
            head = m.pi[1]
            lp = head(torch.nn.functional.linear(torch.tensor(S[i][None]), W, b)).log_prob(torch.tensor(A[None])).sum()
            gs.append(torch.cat([g.flatten() for g in torch.autograd.grad(lp, (W, b))]))
        return step, rho, gs
    # importance weights are small here, so the off-policy-corrected target matters: a reward at the second step
    # changes the policy gradient at the first step by its full (gamma = 1) amount
    s0, rho, gs = grads(0.0)
    s1, _, _ = grads(100.0)
    d = (s1 - s0)
    want = 100.0 * (rho[0] * gs[0] + rho[1] * gs[1])
    assert torch.allclose(d, want, rtol=1e-2, atol=1e-3 * float(want.abs().max())), (d, want, rho)
    """,
    "the off-policy-corrected target (use_Q_opc) and experiences with importance weights below one",
    "the target used in policy gradients is wrongly truncated")

bug("C31-noisy-negative-eps", "C31",
    ("pfrl/nn/noisy_linear.py",
     "            b = torch.addcmul(self.mu.bias, self.sigma.bias, eps_y)\n",
     "            b = torch.addcmul(self.mu.bias, self.sigma.bias, self._eps(out_size, dtype, x.device))\n"),
    """
    import numpy as np, torch
    from pfrl.nn import FactorizedNoisyLinear
    torch.manual_seed(0)
    l = FactorizedNoisyLinear(torch.nn.Linear(1, 1))
    with torch.no_grad():
        for p in l.mu.parameters(): p.zero_()
        for p in l.sigma.parameters(): p.fill_(1.0)
    # output = eps_y (1 + eps_x): y(0) = eps_y, so |y(x)| grows with y(0) within one call
    y = torch.stack([l(torch.tensor([[0.0], [1.0]])).flatten().detach() for _ in range(3000)])
    b, w = y[:, 0], y[:, 1] - y[:, 0]
    # w = eps_y eps_x and b = eps_y: |w| and |b| are correlated
    c = np.corrcoef(w.abs().numpy(), b.abs().numpy())[0, 1]
    assert c > 0.3, c
    """,
    "noisy layers with a bias",
    "the noise of the bias is not the factor that also enters the noise of the weights")

bug("C32-timestep-limit-after-done", "C32",
    ("pfrl/utils/env_modifiers.py",
     "    def reset():\n        t[0] = 1\n        return old_reset()\n\n    env.step = step\n    env.reset = reset\n",
     "    def reset():\n        if t[0] > timestep_limit:\n            t[0] = 1\n        return old_reset()\n\n    env.step = step\n    env.reset = reset\n"),
    """
    from pfrl.utils import env_modifiers
    class E:
        def reset(self): self.t = 0; return 0
        def step(self, a): self.t += 1; return self.t, 0.0, False, {}
    e = E()
    env_modifiers.make_timestep_limited(e, 5)
    e.reset()
    for _ in range(3):
        assert not e.step(0)[2]
    e.reset()
    got = [e.step(0)[2] for _ in range(5)]
    assert got == [False] * 4 + [True], got
    """,
    "a reset before the limit has been reached",
    "the steps of the earlier episode count for the next one, which ends too early")

bug("C33-cached-by-directory", "C33",
    ("pfrl/utils/pretrained_models.py",
     "        is_cached = os.path.exists(path)\n",
     "        is_cached = os.path.isdir(os.path.join(root, model_type))\n"),
    """
    import io, os, shutil, tempfile, zipfile
    d = tempfile.mkdtemp()
    os.environ["PFRL_MODELS_ROOT"] = os.path.join(d, "models")
    try:
        import urllib.request
        from unittest import mock
        from pfrl.utils import pretrained_models as pm
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for i in range(3):
                z.writestr("best/f%d" % i, b"x" * 100)
        def fetch(url, path, hook=None):
            with open(path, "wb") as f:
                f.write(buf.getvalue())
        real = shutil.copyfileobj
        n = [0]
        def fail(*a, **k):
            n[0] += 1
            if n[0] == 2:
                raise OSError(28, "No space left on device")
            return real(*a, **k)
        with mock.patch("urllib.request.urlretrieve", fetch):
            with mock.patch("shutil.copyfileobj", fail):
                try:
                    pm.download_model("DQN", "Pong")
                except OSError:
                    pass
            assert n[0] >= 2
            p, cached = pm.download_model("DQN", "Pong")
            assert sorted(os.listdir(p)) == ["f0", "f1", "f2"] and all(os.path.getsize(os.path.join(p, f)) == 100 for f in os.listdir(p)), (os.listdir(p), cached)
    finally:
        shutil.rmtree(d)
    """,
    "the extraction of an archive failed or was killed after some of its files",
    "an incomplete model is delivered as a cached one")

bug("C34-trpo-step-size", "C34",
    ("pfrl/agents/trpo.py",
     "            self.policy_step_size_record.append(0.0)\n",
     "            self.policy_step_size_record.append(step_size)\n"),
    """
    import numpy as np, torch, pfrl
    torch.manual_seed(0); np.random.seed(0)
    pi = torch.nn.Sequential(torch.nn.Linear(2, 8), torch.nn.Tanh(), torch.nn.Linear(8, 3), pfrl.policies.SoftmaxCategoricalHead())
    vf = torch.nn.Sequential(torch.nn.Linear(2, 1))
    a = pfrl.agents.TRPO(policy=pi, vf=vf, vf_optimizer=torch.optim.SGD(vf.parameters(), 0.01), max_kl=0.01,
                         line_search_max_backtrack=0, update_interval=20, entropy_coef=0.0, policy_step_size_stats_window=1)
    r = np.random.RandomState(0)
    rejected = 0
    for ep in range(40):
        old = [p.detach().clone() for p in pi.parameters()]
        for t in range(20):
            a.batch_act([r.normal(size=2).astype(np.float32) * 3])
            a.batch_observe([r.normal(size=2).astype(np.float32)], [float(r.normal())], [t == 19], [False])
        same = all(torch.equal(x, y) for x, y in zip(old, pi.parameters()))
        rejected += same
        size = dict(a.get_statistics())["average_policy_step_size"]
        assert (size == 0) == same, (size, same)
    assert rejected
    """,
    "a policy update whose line search fails",
    "the reported step size is not that of the step made")

bug("C19-counter-read-unlocked", "C19",
    ("pfrl/experiments/train_agent_async.py",
     "                counter.value += 1\n                global_t = counter.value\n",
     "                counter.value += 1\n            global_t = counter.value\n"),
    """
    import contextlib, os, shutil, tempfile
    import numpy as np, pfrl
    import torch.multiprocessing as mp
    from pfrl.experiments.train_agent_async import train_loop
    class Counter:
        value = 0
        @contextlib.contextmanager
        def get_lock(self):
            yield
            self.value += 1  # another worker counts its step as soon as the lock is free
    class Env:
        def reset(self):
            return 0
        def step(self, a):
            return 0, 0.0, False, {}
    class Agent(pfrl.agent.Agent):
        act = lambda self, o: 0
        observe = lambda self, *a: None
        save = load = lambda self, d: None
        get_statistics = lambda self: []
    got = []
    d = tempfile.mkdtemp()
    try:
        train_loop(0, Env(), Agent(), 9, d, Counter(), mp.Value("l", 0), mp.Event(), mp.Event(),
                   global_step_hooks=[lambda e, a, t: got.append(t)])
    finally:
        shutil.rmtree(d)
    assert got == [1, 3, 5, 7, 9], got
    """,
    "another worker increments the counter between the release of its lock and the read",
    "two workers count the same step, another step is never given to the hooks")

bug("C23-cut-episode-not-ended", "C23",
    ("pfrl/agents/state_q_function_actor.py",
     "            self._send_to_learner(transition, stop_episode=done or reset)\n",
     "            self._send_to_learner(transition, stop_episode=done)\n"),
    """
    import numpy as np, torch, pfrl
    sent = []
    class Pipe:
        def send(self, x):
            sent.append(x[0])
        def recv(self):
            return []
    m = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.q_functions.DiscreteActionValueHead())
    a = pfrl.agents.StateQFunctionActor(Pipe(), m, pfrl.explorers.Greedy())
    o = np.zeros(2, dtype=np.float32)
    for done, reset in [(False, False), (False, True), (True, False)]:
        a.act(o)
        a.observe(o, 0.0, done, reset)
    assert sent == ["transition", "transition", "stop_episode", "transition", "stop_episode"], sent
    """,
    "an actor's episode is cut by the episode length limit",
    "the learner's buffer joins it with the next episode")

bug("C28-worker-env-before-seed", "C28",
    ("pfrl/experiments/train_agent_async.py",
     "        random_seed.set_random_seed(random_seeds[process_idx])\n\n        env = make_env(process_idx, test=False)\n        if evaluator is None:\n            eval_env = env\n        else:\n            eval_env = make_env(process_idx, test=True)\n",
     "        env = make_env(process_idx, test=False)\n        if evaluator is None:\n            eval_env = env\n        else:\n            eval_env = make_env(process_idx, test=True)\n\n        random_seed.set_random_seed(random_seeds[process_idx])\n"),
    """
    import os, shutil, tempfile
    import numpy as np, pfrl
    if __name__ == "__main__":
        class Env:
            def reset(self):
                return 0
            def step(self, a):
                return 0, 0.0, False, {}
            def close(self):
                pass
        class Agent(pfrl.agent.AsyncAgent):
            process_idx = None
            shared_attributes = ()
            act = lambda self, o: 0
            observe = lambda self, *a: None
            save = load = lambda self, d: None
            get_statistics = lambda self: []
        d = tempfile.mkdtemp()
        try:
            outs = []
            for run in range(2):
                o = os.path.join(d, str(run))
                os.makedirs(o)
                def make_env(i, test):
                    # an environment whose dynamics are drawn at construction
                    with open(os.path.join(o, str(i)), "w") as f:
                        f.write(repr(np.random.rand()))
                    return Env()
                np.random.seed(run)  # whatever ran before
                pfrl.experiments.train_agent_async(o, 2, make_env, steps=4, eval_interval=None, agent=Agent(), random_seeds=[3, 4])
                outs.append([open(os.path.join(o, str(i))).read() for i in range(2)])
            assert outs[0] == outs[1] and outs[0][0] != outs[0][1], outs
        finally:
            shutil.rmtree(d)
    """,
    "environments (or agents made per worker) that draw random numbers when they are constructed in the worker",
    "their random numbers do not follow the worker's seed")

bug("C35-terminal-identity", "C35",
    ("pfrl/agents/soft_actor_critic.py",
     "                    is_state_terminal=batch_done[i],\n",
     "                    is_state_terminal=batch_done[i] is True,\n"),
    """
    import numpy as np, torch, pfrl
    from torch import nn
    from pfrl.replay_buffers import ReplayBuffer

    class Head(nn.Module):
        def forward(self, x):
            return torch.distributions.Independent(torch.distributions.Normal(x, torch.ones_like(x)), 1)

    def stored(flag):
        torch.manual_seed(0)
        pi = nn.Sequential(nn.Linear(2, 1), Head())
        q = lambda: nn.Sequential(pfrl.nn.ConcatObsAndAction(), nn.Linear(3, 1))
        q1, q2 = q(), q()
        o = lambda m: torch.optim.SGD(m.parameters(), lr=0.1)
        rb = ReplayBuffer(100)
        a = pfrl.agents.SoftActorCritic(pi, q1, q2, o(pi), o(q1), o(q2), rb, 0.9, gpu=None, replay_start_size=1000)
        for t in range(6):
            a.batch_act([np.full(2, t, np.float32)])
            d = flag(t % 3 == 2)
            a.batch_observe([np.full(2, t + 1, np.float32)], [1.0], [d], [flag(False)])
        return sorted((float(e[0]["state"][0]), bool(e[0]["is_state_terminal"])) for e in rb.sample(len(rb)))

    # environments commonly compute their terminal flag with numpy
    assert stored(bool) == stored(np.bool_), (stored(bool), stored(np.bool_))
    """,
    "an environment whose terminal flag is a numpy boolean",
    "no transition is recorded as terminal any more: the agent bootstraps beyond the end of every episode")

bug("C35-recurrent-next-raw", "C35",
    ("pfrl/replay_buffer.py",
     "            batch_states([transition[\"next_state\"] for transition in ep], device, phi)\n",
     "            batch_states(\n                [transition[\"next_state\"] for transition in ep],\n                device,\n                phi if len(ep) > 1 else (lambda x: x),\n            )\n"),
    """
    import numpy as np, torch, pfrl
    from pfrl.replay_buffer import batch_recurrent_experiences
    eps = [[dict(state=np.full(2, 8.0, np.float32) + t, action=0, reward=0.0, next_state=np.full(2, 9.0, np.float32) + t,
                 is_state_terminal=t == n - 1, recurrent_state=None, next_recurrent_state=None, next_action=0) for t in range(n)] for n in (3, 1)]
    b = batch_recurrent_experiences(eps, torch.device("cpu"), phi=lambda x: x / 8, gamma=0.9)
    for e, s in zip(eps, b["next_state"]):
        assert np.allclose(s.numpy(), [t["next_state"] / 8 for t in e]), s
    """,
    "recurrent replay of episodes, one of them of a single step, with a feature extractor",
    "the next observation of one-step episodes reaches the target network without feature extraction")
