From cedca2cf09e942c4c50b8e4a1aaca9cca7a0f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 01/38] fix: keep transitions and episodes of
 PrioritizedEpisodicReplayBuffer consistent

Transitions were stored as bare dicts (unlike EpisodicReplayBuffer), were
evicted independently of their episodes, and the remaining capacity was
forgotten on load so that capacity could be exceeded afterwards.
---
 pfrl/replay_buffers/prioritized_episodic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..eb40555 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -26,8 +26,8 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         self.episodic_memory = PrioritizedBuffer(
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -66,12 +66,12 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From ade042bbcdb4d36d7c9a062655118f0d710a45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:50 +0000
Subject: [PATCH 02/38] fix: never sample the same data twice from
 PrioritizedBuffer

With uniform_ratio > 0 and wait_priority_after_sampling=False, uniformly
sampled data could be sampled again by priority in the same call.
---
 pfrl/collections/prioritized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index a6d6909..7469d80 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -62,9 +62,11 @@ class PrioritizedBuffer(Generic[T]):
         priorities = []
         if uniform_ratio > 0:
             # Mix uniform samples and prioritized samples
+            # Uniformly sampled data are always removed until prioritized samples
+            # are drawn so that no data is sampled twice.
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = self.priority_sums.uniform_sample(
-                n_uniform, remove=self.wait_priority_after_sampling
+                n_uniform, remove=True
             )
             indices.extend(un_indices)
             priorities.extend(un_priorities)
@@ -74,6 +76,9 @@ class PrioritizedBuffer(Generic[T]):
         pr_indices, pr_priorities = self.priority_sums.prioritized_sample(
             n, remove=self.wait_priority_after_sampling
         )
+        if not self.wait_priority_after_sampling:
+            for ix, pri in zip(indices, priorities):
+                self.priority_sums[ix] = pri
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
 
-- 
2.43.0


From 7fb6f17ba19059d750ee9f9fb916c56fdf8f64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 03/38] fix: make PersistentRandomAccessQueue compatible with
 RandomAccessQueue

popleft() dropped the popped value, extend() lost data in memory when given an
iterator, and maxlen reported the value the directory was created with instead
of the effective one.
---
 pfrl/collections/persistent_collections.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..1cc5bc1 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
@@ -304,14 +303,14 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
 
     @property
     def maxlen(self):
-        return self.meta["maxlen"]
+        return self.buffer.maxlen
 
     @property
     def comm_size(self):
-- 
2.43.0


From edfc05a07aa765880cfa0514b49b35338b671080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 04/38] fix: load the newest data of ancestors into
 PersistentRandomAccessQueue

Data over-read from an older ancestor made newer ancestors' data skipped, and
ancestors could not be used with maxlen=None.
---
 pfrl/collections/persistent_collections.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 1cc5bc1..0ae4d81 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -382,16 +382,19 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
-                break
-            _ = reader.read_chunks(maxlen, rank_data)
+            # Data are loaded from older to newer. As more data than needed can
+            # be loaded from older ancestors, rely on self.buffer's maxlen to
+            # forget older data.
+            _ = reader.read_chunks(num_data_needed, rank_data)
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From 21ef59aad1dd9bd66e3d8a675c5f4f26fddc6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 05/38] fix: create meta.pkl of PersistentRandomAccessQueue
 atomically

When killed while creating it, an empty or truncated meta.pkl was left and the
directory could never be opened again.
---
 pfrl/collections/persistent_collections.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 0ae4d81..a69855a 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs replace")
 _chainerio_available = False
 
 
@@ -260,8 +260,12 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Never expose an incomplete meta file, with which this directory
+            # could not be opened again
+            tmp_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.replace(tmp_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -340,7 +344,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    replace=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From efbe49d37b3d3802a6e8bfdc2aa01257a23be000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 06/38] fix: keep PersistentRandomAccessQueue readable after a
 failed append

After an I/O error in append (e.g. disk full), offsets of data appended later
were wrong, and the directory could not be opened again because of CRC errors.
---
 pfrl/collections/persistent_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index a69855a..881b2dd 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -136,6 +136,8 @@ class _ChunkWriter(object):
         if self.do_pickle:
             data = pickle.dumps(data)
 
+        # A failed append may have left some data in the file or its write buffer
+        self.offset = self.dfp.tell()
         self.dfp.write(data)
         self.dfp.flush()
         crc = binascii.crc32(data)
-- 
2.43.0


From 44f6dbedaa3d5d86a6673b4ca0d59e9cefe40a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 07/38] fix: keep PersistentEpisodicReplayBuffer within
 capacity and consistent

Transitions were discarded by the underlying queue independently of their
episodes, so that episodes were kept up to capacity *episodes*; a process
killed in the middle of an episode's writes left episodes without their
transitions; and ancestors could never be loaded because their paths lacked
the subdirectories.
---
 pfrl/replay_buffers/episodic.py   | 11 +++++++----
 pfrl/replay_buffers/persistent.py | 18 ++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pfrl/replay_buffers/episodic.py b/pfrl/replay_buffers/episodic.py
index 34ab517..1ba90c4 100644
--- a/pfrl/replay_buffers/episodic.py
+++ b/pfrl/replay_buffers/episodic.py
@@ -91,8 +91,11 @@ class EpisodicReplayBuffer(AbstractEpisodicReplayBuffer):
             for transition in current_episode:
                 self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity is not None and len(self.memory) > self.capacity:
-                discarded_episode = self.episodic_memory.popleft()
-                for _ in range(len(discarded_episode)):
-                    self.memory.popleft()
+            self._discard_old_episodes()
         assert not self.current_episode[env_id]
+
+    def _discard_old_episodes(self):
+        while self.capacity is not None and len(self.memory) > self.capacity:
+            discarded_episode = self.episodic_memory.popleft()
+            for _ in range(len(discarded_episode)):
+                self.memory.popleft()
diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 19342df..2a3adec 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -122,12 +122,26 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
 
         if not distributed:
+            # The queues must not discard data by themselves because old
+            # transitions have to be discarded together with their episodes.
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.memory_dir,
+                None,
+                ancestor=ancestor and os.path.join(ancestor, "memory"),
+                logger=logger,
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir,
+                None,
+                ancestor=ancestor and os.path.join(ancestor, "episodic_memory"),
+                logger=logger,
             )
+            # Episodes are written before their transitions, so the last ones
+            # may be missing if the previous process was killed.
+            transitions = [t for episode in self.episodic_memory for t in episode]
+            for transition in transitions[len(self.memory) :]:
+                self.memory.append([transition])
+            self._discard_old_episodes()
         else:
             try:
                 # Use distributed versions of PersistentRandomAccessQueue
-- 
2.43.0


From cc98d5df020074bc3fbdeb529dca15d0b133b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 08/38] fix: use the discount of n-step experiences in DDPG's
 critic target

---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From 55116fe9970651b76f2a920e06632748d1976c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 09/38] fix: respect n_times_update of TD3

---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From ad458888e67ddea6c3aa5952f32caac9f182566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 10/38] fix: use the given batch_states in updates of DDPG, TD3
 and SAC

---
 pfrl/agents/ddpg.py              | 8 +++++++-
 pfrl/agents/soft_actor_critic.py | 8 +++++++-
 pfrl/agents/td3.py               | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 2513b17..ba6a093 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -190,7 +190,13 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
 
         self.critic_optimizer.zero_grad()
         self.compute_critic_loss(batch).backward()
diff --git a/pfrl/agents/soft_actor_critic.py b/pfrl/agents/soft_actor_critic.py
index 57f76ae..791862a 100644
--- a/pfrl/agents/soft_actor_critic.py
+++ b/pfrl/agents/soft_actor_critic.py
@@ -309,7 +309,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
 
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index 9a35cb1..3e5c78c 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -252,7 +252,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         if self.q_func_n_updates % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 344424859f066a9e59a83a8dc7e4a6b3dc8944cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 11/38] fix: do not use values of the state following a
 terminal transition in PAL

---
 pfrl/agents/double_pal.py | 2 ++
 pfrl/agents/pal.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pfrl/agents/double_pal.py b/pfrl/agents/double_pal.py
index 7cb5cfa..39599bb 100644
--- a/pfrl/agents/double_pal.py
+++ b/pfrl/agents/double_pal.py
@@ -67,6 +67,8 @@ class DoublePAL(pal.PAL):
             next_advantage = torch.reshape(
                 target_next_qout.compute_advantage(batch_actions), (batch_size,)
             )
+            # The advantage is zero if the next state is terminal
+            next_advantage = (1.0 - batch_terminal) * next_advantage
             tpal_q = t_q + self.alpha * torch.max(cur_advantage, next_advantage)
 
         return batch_q, tpal_q
diff --git a/pfrl/agents/pal.py b/pfrl/agents/pal.py
index ed62cb7..399b767 100644
--- a/pfrl/agents/pal.py
+++ b/pfrl/agents/pal.py
@@ -72,6 +72,8 @@ class PAL(dqn.DQN):
             next_advantage = torch.reshape(
                 target_next_qout.compute_advantage(batch_actions), (batch_size,)
             )
+            # The advantage is zero if the next state is terminal
+            next_advantage = (1.0 - batch_terminal) * next_advantage
             tpal_q = t_q + self.alpha * torch.max(cur_advantage, next_advantage)
 
         return batch_q, tpal_q
-- 
2.43.0


From 98fef964c3020d69735f53f9a3af9902217dbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:20 +0000
Subject: [PATCH 12/38] fix: include the immediate reward in returns of
 REINFORCE

---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From c5aebd9a4b758107c45a6cb85da68969978bc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:20 +0000
Subject: [PATCH 13/38] fix: use the given batch_states in updates of TRPO

---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0


From 1009222c8cfa0c5d4bdae41e8ef816c8ccf83aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 14/38] fix: act with the model in evaluation mode in
 evaluations of A2C, ACER and REINFORCE

---
 pfrl/agents/a2c.py       | 4 ++--
 pfrl/agents/acer.py      | 4 ++--
 pfrl/agents/reinforce.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..9eebe44 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -4,7 +4,7 @@ from logging import getLogger
 import torch
 
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 
@@ -250,7 +250,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
     def _batch_act_eval(self, batch_obs):
         assert not self.training
         statevar = self.batch_states(batch_obs, self.device, self.phi)
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             pout, _ = self.model(statevar)
             if self.act_deterministically:
                 action = mode_of_distribution(pout)
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..bf95ebc 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -7,7 +7,7 @@ from torch import nn
 
 from pfrl import agent
 from pfrl.action_value import SingleActionValue
-from pfrl.utils import clip_l2_grad_norm_, copy_param
+from pfrl.utils import clip_l2_grad_norm_, copy_param, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import detach_recurrent_state, one_step_forward
@@ -758,7 +758,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def _act_eval(self, obs):
         # Use the process-local model for acting
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             statevar = batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 (action_distrib, _, _), self.test_recurrent_states = one_step_forward(
diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index cfb3d70..8f77405 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -155,7 +155,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
             self.train_recurrent_states = None
 
     def _act_eval(self, obs):
-        with torch.no_grad():
+        with torch.no_grad(), pfrl.utils.evaluating(self.model):
             batch_obs = self.batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 action_distrib, self.test_recurrent_states = one_step_forward(
-- 
2.43.0


From 60a69e94ddcbbe52bb63bacd52bf797e1b860b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:42 +0000
Subject: [PATCH 15/38] fix: drop the cached deviation of
 EmpiricalNormalization when loading a state

---
 pfrl/nn/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..92f1950 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -58,6 +58,11 @@ class EmpiricalNormalization(nn.Module):
 
         return self._cached_std_inverse
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+        # clear cache
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From 2b2f551e52c64ee2f58233bb3f7a2887a372b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 16/38] fix: save and load the average model of ACER

---
 pfrl/agents/acer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index bf95ebc..6007550 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -1,4 +1,5 @@
 import copy
+import os
 from logging import getLogger
 
 import numpy as np
@@ -818,9 +819,26 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
         if done or reset:
             self.test_recurrent_states = None
 
+    def save(self, dirname):
+        super().save(dirname)
+        torch.save(
+            self.shared_average_model.state_dict(),
+            os.path.join(dirname, "shared_average_model.pt"),
+        )
+
     def load(self, dirname):
         super().load(dirname)
         copy_param.copy_param(target_link=self.shared_model, source_link=self.model)
+        filename = os.path.join(dirname, "shared_average_model.pt")
+        if os.path.exists(filename):
+            self.shared_average_model.load_state_dict(
+                torch.load(filename, map_location=torch.device("cpu"))
+            )
+        else:
+            # The average model used not to be saved
+            copy_param.copy_param(
+                target_link=self.shared_average_model, source_link=self.model
+            )
 
     def get_statistics(self):
         return [
-- 
2.43.0


From e2f177c922bcb512ace37be8a43fb98de708e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:50 +0000
Subject: [PATCH 17/38] fix: let A2C, A3C and ACER start training from a step
 offset

---
 pfrl/agents/a2c.py  | 5 ++++-
 pfrl/agents/a3c.py  | 3 +++
 pfrl/agents/acer.py | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index 9eebe44..85a8160 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -101,6 +101,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         self.t = 0
         self.t_start = 0
+        self.states = None
 
         # Stats
         self.average_actor_loss = 0
@@ -227,7 +228,9 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         statevar = self.batch_states(batch_obs, self.device, self.phi)
 
-        if self.t == 0:
+        if self.t == 0 or self.states is None:
+            # Training may start from t > 0
+            self.t_start = self.t
             with torch.no_grad():
                 pout, _ = self.model(statevar)
                 action = pout.sample()
diff --git a/pfrl/agents/a3c.py b/pfrl/agents/a3c.py
index 90fb05e..c2b1538 100644
--- a/pfrl/agents/a3c.py
+++ b/pfrl/agents/a3c.py
@@ -240,6 +240,9 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
             self._observe_eval(obs, reward, done, reset)
 
     def _act_train(self, obs):
+        if not self.past_obs:
+            # Training may start from t > 0
+            self.t_start = self.t
         self.past_obs[self.t] = obs
 
         with torch.no_grad():
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 6007550..719e934 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -712,6 +712,9 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
             self._observe_eval(obs, reward, done, reset)
 
     def _act_train(self, obs):
+        if not self.past_actions:
+            # Training may start from t > 0
+            self.t_start = self.t
         statevar = batch_states([obs], self.device, self.phi)
 
         if self.recurrent:
-- 
2.43.0


From 1d2265a7635b7067b5f702fd0a55d883e16b61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 18/38] fix: tell the agent of the end of evaluations limited
 by steps

---
 pfrl/experiments/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..d5eb750 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,6 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
@@ -53,6 +52,8 @@ def _run_episodes(
             terminate = len(scores) >= n_episodes
         else:
             terminate = timestep >= n_steps
+        # If this is the last step, make sure the agent observes reset=True
+        agent.observe(obs, r, done, reset or terminate)
     # If all steps were used for a single unfinished episode
     if len(scores) == 0:
         scores.append(float(test_r))
-- 
2.43.0


From 8f1dda55c39b9468dccbaf4792223702ad286c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 19/38] fix: keep the best score of AsyncEvaluator in double
 precision

---
 pfrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index d5eb750..e22a13d 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -572,7 +572,7 @@ class AsyncEvaluator(object):
         self.prev_eval_t = mp.Value(
             "l", self.step_offset - self.step_offset % self.eval_interval
         )
-        self._max_score = mp.Value("f", np.finfo(np.float32).min)
+        self._max_score = mp.Value("d", np.finfo(np.float32).min)
         self.wrote_header = mp.Value("b", False)
 
         # Create scores.txt
-- 
2.43.0


From c9e73bd3d0a32f7b53306ca3982823ac4d982cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:41 +0000
Subject: [PATCH 20/38] fix: do not wait forever for a failed environment of
 MultiprocessVectorEnv

---
 pfrl/envs/multiprocess_vector_env.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pfrl/envs/multiprocess_vector_env.py b/pfrl/envs/multiprocess_vector_env.py
index a993e19..ffa79ee 100644
--- a/pfrl/envs/multiprocess_vector_env.py
+++ b/pfrl/envs/multiprocess_vector_env.py
@@ -54,18 +54,21 @@ See https://github.com/numpy/numpy/issues/12793 for details.
 """
             )  # NOQA
 
-        nenvs = len(env_fns)
-        self.remotes, self.work_remotes = zip(*[Pipe() for _ in range(nenvs)])
-        self.ps = [
-            Process(target=worker, args=(work_remote, env_fn))
-            for (work_remote, env_fn) in zip(self.work_remotes, env_fns)
-        ]
-        for p in self.ps:
+        self.closed = False
+        self.remotes = []
+        self.ps = []
+        for env_fn in env_fns:
+            remote, work_remote = Pipe()
+            p = Process(target=worker, args=(work_remote, env_fn))
             p.start()
+            # Only the worker may keep its end open. Otherwise, waiting for a
+            # dead worker would never end.
+            work_remote.close()
+            self.remotes.append(remote)
+            self.ps.append(p)
         self.last_obs = [None] * self.num_envs
         self.remotes[0].send(("get_spaces", None))
         self.action_space, self.observation_space = self.remotes[0].recv()
-        self.closed = False
 
     def __del__(self):
         if not self.closed:
@@ -105,7 +108,11 @@ See https://github.com/numpy/numpy/issues/12793 for details.
         self._assert_not_closed()
         self.closed = True
         for remote in self.remotes:
-            remote.send(("close", None))
+            try:
+                remote.send(("close", None))
+            except OSError:
+                # The worker is already dead
+                pass
         for p in self.ps:
             p.join()
 
-- 
2.43.0


From 9b972195cd05eefc5ea6e221c229eb7966af7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:41 +0000
Subject: [PATCH 21/38] fix: return the spec of environments from
 SerialVectorEnv.spec

---
 pfrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..d0a201d 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], "spec", None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From d2334437964568bcc2640e02a34823daaa099c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:41 +0000
Subject: [PATCH 22/38] fix: let VectorEnvWrapper.reset accept a mask
 positionally

---
 pfrl/wrappers/vector_frame_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pfrl/wrappers/vector_frame_stack.py b/pfrl/wrappers/vector_frame_stack.py
index 5596f5b..a96e2e4 100644
--- a/pfrl/wrappers/vector_frame_stack.py
+++ b/pfrl/wrappers/vector_frame_stack.py
@@ -25,8 +25,8 @@ class VectorEnvWrapper(VectorEnv):
     def step(self, action):
         return self.env.step(action)
 
-    def reset(self, **kwargs):
-        return self.env.reset(**kwargs)
+    def reset(self, *args, **kwargs):
+        return self.env.reset(*args, **kwargs)
 
     def render(self, mode="human", **kwargs):
         return self.env.render(mode, **kwargs)
-- 
2.43.0


From f7e32a419cd3086ef6dc32f9fddf28217f1695c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 23/38] fix: return the first observation of the new episode
 from FireResetEnv.reset

---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 995e692047859e7d758bbd1625b73393aaea0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 24/38] fix: start a new episode if it ends while
 EpisodicLifeEnv resets

---
 pfrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..a215466 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get("needs_reset", False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 1874506b0a701e44316383873625b0fa62eb8098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 25/38] fix: do not return frames of a previous step from
 MaxAndSkipEnv

---
 pfrl/wrappers/atari_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index a215466..5cbaec4 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -137,6 +137,9 @@ class MaxAndSkipEnv(gym.Wrapper):
                 self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
+                if i < self._skip - 1:
+                    # Frames in the buffer are those of a previous step
+                    self._obs_buffer[:] = obs
                 break
         # Note that the observation on the done=True frame
         # doesn't matter
-- 
2.43.0


From 64495289b84d3720de83a67b31bbb8bd23e633da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:20 +0000
Subject: [PATCH 26/38] fix: do not divide by zero in LinearDecayEpsilonGreedy
 with decay_steps=0

---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 4f44a5f79d9ff50a000af0d8d6c768f842d0e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:58 +0000
Subject: [PATCH 27/38] fix: make SingleModelStateActionQFunction constructible

---
 pfrl/q_functions/state_action_q_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/q_functions/state_action_q_functions.py b/pfrl/q_functions/state_action_q_functions.py
index be540f1..36a102e 100644
--- a/pfrl/q_functions/state_action_q_functions.py
+++ b/pfrl/q_functions/state_action_q_functions.py
@@ -17,7 +17,8 @@ class SingleModelStateActionQFunction(nn.Module, StateActionQFunction):
     """
 
     def __init__(self, model):
-        super().__init__(model=model)
+        super().__init__()
+        self.model = model
 
     def forward(self, x, a):
         h = self.model(x, a)
-- 
2.43.0


From 9545ac39a01b3f08ac895f03115c2c5c0273e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 28/38] fix: let soft_copy_param copy integer buffers and
 update tied parameters only once

---
 pfrl/utils/copy_param.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..96abb2a 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -14,12 +14,14 @@ def soft_copy_param(target_link, source_link, tau):
         source_value = source_dict[k]
         if source_value.dtype in [torch.float32, torch.float64, torch.float16]:
             assert target_value.shape == source_value.shape
-            target_value.mul_(1 - tau)
-            target_value.add_(tau * source_value)
+            # Do not update in-place because a tensor shared by multiple
+            # submodules appears under multiple keys
+            target_dict[k] = (1 - tau) * target_value + tau * source_value
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
             target_dict[k] = source_value
+    target_link.load_state_dict(target_dict)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 946060bb2988c950d980a5d65fe8407a71ef26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:16 +0000
Subject: [PATCH 29/38] fix: generate experiment ids from the argv given to
 prepare_output_dir

---
 pfrl/experiments/prepare_output_dir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/prepare_output_dir.py b/pfrl/experiments/prepare_output_dir.py
index 0c2387a..127f6f4 100644
--- a/pfrl/experiments/prepare_output_dir.py
+++ b/pfrl/experiments/prepare_output_dir.py
@@ -115,7 +115,7 @@ def prepare_output_dir(
 
     if exp_id is None:
         if is_under_git_control():
-            exp_id = generate_exp_id()
+            exp_id = generate_exp_id(argv=sys.argv if argv is None else argv)
         else:
             exp_id = timestamp
 
-- 
2.43.0


From dbe617b578748c775370d6259277a8fe003338e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:16 +0000
Subject: [PATCH 30/38] fix: do not fail on a second backup with the same
 timestamp

---
 pfrl/experiments/prepare_output_dir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pfrl/experiments/prepare_output_dir.py b/pfrl/experiments/prepare_output_dir.py
index 127f6f4..7c1a291 100644
--- a/pfrl/experiments/prepare_output_dir.py
+++ b/pfrl/experiments/prepare_output_dir.py
@@ -128,6 +128,10 @@ def prepare_output_dir(
     # of the outfile.
     if os.path.exists(outdir) and make_backup:
         backup_dir = "{}.{}.backup".format(outdir, timestamp)
+        n_same = 0
+        while os.path.exists(backup_dir):
+            n_same += 1
+            backup_dir = "{}.{}.{}.backup".format(outdir, timestamp, n_same)
         shutil.copytree(outdir, backup_dir)
 
     os.makedirs(outdir, exist_ok=True)
-- 
2.43.0


From ea37056b07e981f2268ca6068dcef893777268e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 31/38] fix: accept numpy integers in set_random_seed

train_agent_async uses np.arange(processes) as default seeds, which
random.seed rejects since Python 3.11, so that no worker could start.
---
 pfrl/utils/random_seed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/utils/random_seed.py b/pfrl/utils/random_seed.py
index 726c22f..7047b6a 100644
--- a/pfrl/utils/random_seed.py
+++ b/pfrl/utils/random_seed.py
@@ -15,7 +15,8 @@ def set_random_seed(seed):
         seed (int): Random seed [0, 2 ** 32).
     """
     # PFRL depends on random
-    random.seed(seed)
+    # (random.seed does not accept integers of numpy)
+    random.seed(int(seed))
     # PFRL depends on numpy.random
     np.random.seed(seed)
     # torch.manual_seed is enough for the CPU and GPU
-- 
2.43.0


From e4e749df90b1022544096372a2813b08be8369f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 32/38] fix: count steps from step_offset in train_agent_async

---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..38a9f44 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -222,7 +222,7 @@ def train_agent_async(
     # Prevent numpy from using multiple threads
     os.environ["OMP_NUM_THREADS"] = "1"
 
-    counter = mp.Value("l", 0)
+    counter = mp.Value("l", step_offset)
     episodes_counter = mp.Value("l", 0)
 
     if stop_event is None:
-- 
2.43.0


From 51634bd6d51b2a9462835a6f833d705fa3caccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 33/38] fix: keep responding to actors after an exception in
 actor-learner training

The poller stopped on an exception, so that the actor which is to save
the agent and stop the training waited for its response forever.
---
 pfrl/agents/dqn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..f921829 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -611,7 +611,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         if pipe.closed:
             return
         try:
-            while pipe.poll() and not exception_event.is_set():
+            while pipe.poll():
                 cmd, data = pipe.recv()
                 if cmd == "get_statistics":
                     assert data is None
@@ -719,8 +719,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         stop_event: mp.synchronize.Event,
         exception_event: mp.synchronize.Event,
     ) -> None:
-        # To stop this loop, call stop_event.set()
-        while not stop_event.is_set() and not exception_event.is_set():
+        # To stop this loop, call stop_event.set(). Even after an exception,
+        # actors need responses in order to save the agent and exit.
+        while not stop_event.is_set():
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-- 
2.43.0


From 5aaf7bffac23ada95dd1c767b2a72602bde13d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:22 +0000
Subject: [PATCH 34/38] fix: do not append to a prioritized buffer between
 sampling and feeding back errors

In actor-learner training, the poller could evict transitions between
them so that errors were assigned to wrong transitions, and both threads
could change the buffer at once.
---
 pfrl/agents/dqn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index f921829..cd6a7b4 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -676,6 +676,12 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                             self.minibatch_size, self.episodic_update_len
                         )
                     self.update_from_episodes(episodes)
+                elif isinstance(self.replay_buffer, PrioritizedReplayBuffer):
+                    # Errors of the sampled transitions need to be fed back
+                    # before the poller changes the replay buffer.
+                    with replay_buffer_lock:
+                        transitions = self.replay_buffer.sample(self.minibatch_size)
+                        self.update(transitions)
                 else:
                     with replay_buffer_lock:
                         transitions = self.replay_buffer.sample(self.minibatch_size)
-- 
2.43.0


From f425683101716b5ae2bd021b9321c101466c9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:12 +0000
Subject: [PATCH 35/38] fix: do not divide by a vanishing deviation in
 NormalizedRewardFilter

eps was used as an upper bound of the variance instead of a lower bound:
a zero first reward raised ZeroDivisionError, tiny variances blew rewards
up and large ones were not normalised at all.
---
 pfrl/utils/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/reward_filter.py b/pfrl/utils/reward_filter.py
index 9df735f..0720e46 100644
--- a/pfrl/utils/reward_filter.py
+++ b/pfrl/utils/reward_filter.py
@@ -12,7 +12,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward**2
         var = self.average_reward_squared - self.average_reward**2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From 1ee933b105f9b64396b64488f537a1db901058e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:12 +0000
Subject: [PATCH 36/38] fix: restore the mode of every submodule after
 evaluating

Submodules a user had frozen by eval() were switched to training mode
when the context was left.
---
 pfrl/utils/contexts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pfrl/utils/contexts.py b/pfrl/utils/contexts.py
index e5cd867..061ceb0 100644
--- a/pfrl/utils/contexts.py
+++ b/pfrl/utils/contexts.py
@@ -4,10 +4,11 @@ from contextlib import contextmanager
 @contextmanager
 def evaluating(net):
     """Temporarily switch to evaluation mode."""
-    istrain = net.training
+    # Submodules may be in different modes, e.g. frozen ones
+    istrain = [(mod, mod.training) for mod in net.modules()]
     try:
         net.eval()
         yield net
     finally:
-        if istrain:
-            net.train()
+        for mod, mode in istrain:
+            mod.train(mode)
-- 
2.43.0


From 32f1d5faeaa501c35209f634830ff17b44763b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:12 +0000
Subject: [PATCH 37/38] fix: do not take a partially extracted pretrained model
 for a cached one

The archive was moved to its final place before it was extracted; when
extraction failed or was interrupted, later calls reported the missing
or partial model as cached.
---
 pfrl/utils/pretrained_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfrl/utils/pretrained_models.py b/pfrl/utils/pretrained_models.py
index 3c7e64d..8c42225 100644
--- a/pfrl/utils/pretrained_models.py
+++ b/pfrl/utils/pretrained_models.py
@@ -151,9 +151,11 @@ def download_and_store_model(alg, url, env, model_type):
         is_cached = os.path.exists(path)
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath, file))
-            os.rename(cache_path, path)
-            with zipfile.ZipFile(path, "r") as zip_ref:
+            # Extract before moving so that a model whose extraction was
+            # interrupted is not taken for a cached one
+            with zipfile.ZipFile(cache_path, "r") as zip_ref:
                 zip_ref.extractall(root)
+            os.rename(cache_path, path)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From 2b9247e4f1020ee66163c17717195b63028d1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 38/38] fix: report the average of values, not of value losses,
 in statistics of A2C

---
 pfrl/agents/a2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index 85a8160..a53571c 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -207,7 +207,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
             float(action_loss) - self.average_actor_loss
         )
         self.average_value += (1 - self.average_value_decay) * (
-            float(value_loss) - self.average_value
+            float(values.detach().mean()) - self.average_value
         )
         self.average_entropy += (1 - self.average_entropy_decay) * (
             float(dist_entropy) - self.average_entropy
-- 
2.43.0

