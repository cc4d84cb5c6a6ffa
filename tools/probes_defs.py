from probes import probe

# replay buffers and containers
probe("c02-prio-if", "C02", "replay_buffers/prioritized_episodic.py",
      "            while self.capacity is not None and len(self.memory) > self.capacity:", "            if self.capacity is not None and len(self.memory) > self.capacity:")
probe("c02-load-shared", "C07", "replay_buffers/episodic.py", "            pickle.dump((self.memory, self.episodic_memory), f)",
      "            pickle.dump((RandomAccessQueue([t] for ep in self.episodic_memory for t in ep), self.episodic_memory), f)")
probe("c04-beta-stuck", "C04", "replay_buffers/prioritized.py", "        self.beta = min(1.0, self.beta + self.beta_add)\n        return weights",
      "        if self.beta + self.beta_add < 1.0:\n            self.beta += self.beta_add\n        return weights")
probe("c04-mem-norm-stale", "C04", "collections/prioritized.py", "            min_prob = uniform_ratio / len(self) + (1 - uniform_ratio) * min_prob\n",
      "            min_prob = (1 - uniform_ratio) * min_prob\n")
probe("c04-empty-reset", "C04", "collections/prioritized.py", "        self.priority_mins.popleft()\n        return self.data.popleft()",
      "        self.priority_mins.popleft()\n        if len(self.data) == 1:\n            self.max_priority = 1.0\n        return self.data.popleft()")
probe("c04-clip-order", "C04", "replay_buffers/prioritized.py", "        return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]",
      "        return [_clip_error(d + self.eps) ** self.alpha for d in errors]")
probe("c04-uniform-probs", "C04", "collections/prioritized.py", "        total_priority: float = self.priority_sums.sum()\n        min_prob = self",
      "        total_priority: float = self.priority_sums.sum()\n        uniform_ratio = min(uniform_ratio, 0.5)\n        min_prob = self")
probe("c05-extend-self", "C05", "collections/random_access_queue.py", "        self._queue_back.extend(xs)\n        self._apply_maxlen()",
      "        xs = list(xs)\n        if self.maxlen is not None and len(xs) > self.maxlen:\n            xs = xs[: self.maxlen]\n        self._queue_back.extend(xs)\n        self._apply_maxlen()")
probe("c05-neg-oob", "C05", "collections/random_access_queue.py", "                if i >= -len(self._queue_front):\n                    return self._queue_front[~i]",
      "                if i >= -len(self._queue_front) - 1:\n                    return self._queue_front[max(~i, 0) if ~i < len(self._queue_front) else 0]")
probe("c06-ancestor-short", "C06", "collections/persistent_collections.py", "                self._load_ancestor(meta[\"ancestor\"], num_data_needed - length)",
      "                self._load_ancestor(meta[\"ancestor\"], num_data_needed - length - 1 or 1)")
probe("c06-remain", "C06", "collections/persistent_collections.py", "                gens.append(gen)\n                remain -= count\n",
      "                gens.append(gen)\n                remain -= max(count, 1)\n")
probe("c06-crc-skip", "C06", "collections/persistent_collections.py", "            assert crc == c\n", "            if crc != c:\n                continue\n")
probe("c07-maxprio", "C07", "collections/prioritized.py", "    def __len__(self) -> int:\n        return len(self.data)\n",
      "    def __len__(self) -> int:\n        return len(self.data)\n\n    def __setstate__(self, st):\n        self.__dict__.update(st)\n        self.max_priority = 1.0\n")
probe("c03-sample-nk", "C03", "replay_buffer.py", "                any(transition[\"is_state_terminal\"] for transition in exp)\n", "                exp[0][\"is_state_terminal\"]\n")
probe("c03-discount", "C03", "replay_buffer.py", "            [(gamma ** len(elem)) for elem in experiences],", "            [(gamma ** max(len(e) for e in experiences)) for elem in experiences],")
probe("c01-prio-stop", "C01", "replay_buffers/replay_buffer.py", "        while last_n_transitions:\n            self.memory.append(list(last_n_transitions))\n            del last_n_transitions[0]\n        assert len(last_n_transitions) == 0\n\n    def sample",
      "        while last_n_transitions:\n            self.memory.append(list(last_n_transitions))\n            last_n_transitions.pop()\n        assert len(last_n_transitions) == 0\n\n    def sample")

# off-policy agents
probe("c08-sac-alias", "C08", "agents/soft_actor_critic.py", "        self.batch_last_action = list(batch_action)\n\n        return batch_action",
      "        self.batch_last_action = batch_action\n        self.batch_last_obs = batch_obs\n\n        return batch_action")
probe("c08-td3-clip", "C08", "agents/td3.py", "        self.batch_last_action = list(batch_action)\n", "        self.batch_last_action = [np.clip(a, -1, 1) for a in batch_action]\n")
probe("c09-init-sync", "C09", "agents/ddpg.py", "        self.sync_target_network()\n\n    def sync", "        synchronize_parameters(self.model, self.target_model, 'hard')\n        if self.target_update_method == 'soft':\n            self.target_update_interval = self.target_update_interval + 1\n\n    def sync")
probe("c09-burnin-td3", "C09", "agents/td3.py", "        if self.q_func_n_updates % self.policy_update_delay == 0:", "        if self.q_func_n_updates % self.policy_update_delay == 0 and self.q_func_n_updates > self.policy_update_delay:")
probe("c09-ntimes", "C09", "replay_buffer.py", "        for _ in range(self.n_times_update):\n", "        for _ in range(self.n_times_update if len(self.replay_buffer) > self.replay_start_size else 1):\n")
probe("c10-clip-before", "C10", "agents/dqn.py", "        loss.backward()\n        if self.max_grad_norm is not None:\n            pfrl.utils.clip_l2_grad_norm_(self.model.parameters(), self.max_grad_norm)\n        self.optimizer.step()\n        self.optim_t += 1\n\n    def update_from_episodes",
      "        loss.backward()\n        if self.max_grad_norm is not None and not has_weight:\n            pfrl.utils.clip_l2_grad_norm_(self.model.parameters(), self.max_grad_norm)\n        self.optimizer.step()\n        self.optim_t += 1\n\n    def update_from_episodes")
probe("c10-errors-signed", "C10", "agents/dqn.py", "            delta = torch.abs(y - t)\n", "            delta = torch.abs(y.clamp(-1, 1) - t) if self.clip_delta else torch.abs(y - t)\n")
probe("c10-double-train-mode", "C10", "agents/double_dqn.py", "with evaluating(self.model):", "with evaluating(self.target_model):")
probe("c11-td3-eval", "C11", "agents/td3.py", "        q = self.q_func1((batch_state, onpolicy_actions))\n", "        q = torch.min(self.q_func1((batch_state, onpolicy_actions)), self.q_func2((batch_state, onpolicy_actions)))\n")
probe("c11-sac-temp-order", "C11", "agents/soft_actor_critic.py", "        entropy_term = self.temperature * log_prob[..., None]\n        assert q.shape", "        entropy_term = self.initial_temperature * log_prob[..., None]\n        assert q.shape")
probe("c11-sac-temp-clip", "C11", "agents/soft_actor_critic.py", "            clip_l2_grad_norm_(self.temperature_holder.parameters(), self.max_grad_norm)", "            pass")
probe("c11-sac-grad-leak", "C11", "agents/soft_actor_critic.py", "        self.q_func2_optimizer.zero_grad()\n", "")
probe("c12-a2c-states0", "C12", "agents/a2c.py", "        self.states[0] = self.states[-1]\n\n        self.t_start", "        self.t_start")
probe("c12-a2c-valpred", "C12", "agents/a2c.py", "        value_loss = (advantages * advantages).mean()", "        value_loss = 0.5 * (advantages * advantages).mean()")
probe("c12-ppo-std", "C12", "agents/ppo.py", "            std_advs, mean_advs = torch.std_mean(all_advs, unbiased=False)\n\n        for batch", "            std_advs, mean_advs = torch.std_mean(all_advs, unbiased=True)\n\n        for batch")
probe("c12-ppo-vfclip", "C12", "agents/ppo.py", "                torch.max(\n                    F.mse_loss(vs_pred", "                torch.min(\n                    F.mse_loss(vs_pred")
probe("c12-ppo-rec-mode", "C12", "agents/ppo.py", "            [ep[0][\"next_recurrent_state\"] for ep in episodes]\n        )\n        assert (rs is None)", "            [ep[0][\"recurrent_state\"] for ep in episodes]\n        )\n        assert (rs is None)")
probe("c13-ppo-remainder", "C13", "agents/ppo.py", "            stack.append(sequence_to_split[-n_exceeds:])", "            stack.insert(0, sequence_to_split[-n_exceeds:]) if len(stack) > 3 else stack.append(sequence_to_split[-n_exceeds:])")
probe("c13-ppo-lastep", "C13", "agents/ppo.py", "                if episode:\n                    self.memory.append(episode)\n", "                if episode:\n                    self.memory.append(list(episode[-self.update_interval:]) if len(self.batch_last_episode) > 2 else episode)\n")
probe("c14-ppo-evalrec", "C14", "agents/ppo.py", "                (action_distrib, _), self.test_recurrent_states = one_step_forward(\n                    self.model, b_state, self.test_recurrent_states\n                )",
      "                (action_distrib, _), self.test_recurrent_states = one_step_forward(\n                    self.model, b_state, self.test_recurrent_states\n                )\n                self.train_recurrent_states = None if self.train_recurrent_states is None else self.train_recurrent_states")
probe("c14-ddpg-evalmode", "C14", "agents/ddpg.py", "        with torch.no_grad(), evaluating(self.policy):", "        with torch.no_grad():")
probe("c15-ppo-mask", "C15", "agents/ppo.py", "                if done or reset\n            ]\n            if indices_that_ended:\n                self.train_recurrent_states", "                if done or reset\n            ][:1]\n            if indices_that_ended:\n                self.train_recurrent_states")
probe("c34-ppo-ev", "C34", "agents/ppo.py", "    y = np.array([tr[\"v_pred\"] for tr in transitions])\n    vart = np.var(t)", "    y = np.array([tr[\"v_pred\"] for tr in transitions])\n    vart = np.var(t, ddof=1) if len(t) > 1 else 0")

# loops and evaluation
probe("c17-reset-none-info", "C17", "experiments/train_agent.py", "            episode_end = done or reset or t == steps\n", "            episode_end = done or reset or t >= steps\n            if done and reset:\n                episode_len = 1\n")
probe("c17-eplen-carry", "C17", "experiments/train_agent.py", "                episode_r = 0\n                episode_len = 0\n", "                episode_r = 0\n                episode_len = 0 if not info.get('needs_reset', False) else 1\n")
probe("c17-cp-after-reset", "C17", "experiments/train_agent.py", "            if checkpoint_freq and t % checkpoint_freq == 0:", "            elif checkpoint_freq and t % checkpoint_freq == 0:")
probe("c17-success-during", "C17", "experiments/train_agent.py", "                    and evaluator.max_score >= successful_score", "                    and evaluator.max_score > successful_score")
probe("c17-except-interrupt", "C17", "experiments/train_agent.py", "    except (Exception, KeyboardInterrupt):", "    except Exception:")
probe("c17-hook-order", "C17", "experiments/train_agent.py", "            for hook in step_hooks:\n                hook(env, agent, t)\n\n            episode_end", "            for hook in step_hooks:\n                hook(env, agent, t - step_offset)\n\n            episode_end")
probe("c18-resets-dones", "C18", "experiments/train_agent_batch.py", "            episode_len[end] = 0", "            episode_len[dones] = 0")
probe("c18-steps", "C18", "experiments/train_agent_batch.py", "            if t >= steps:\n                break\n", "            if t + num_envs > steps:\n                break\n")
probe("c18-eval-score", "C18", "experiments/train_agent_batch.py", "                    t=t, episodes=np.sum(episode_idx)\n", "                    t=t, episodes=np.sum(episode_idx > 0)\n")
probe("c20-order", "C20", "experiments/evaluator.py", "                for index in range(n_episodes):\n                    eval_episode_returns.append(episode_returns[index])",
      "                for index in list(episode_returns)[:n_episodes]:\n                    eval_episode_returns.append(episode_returns[index])")
probe("c20-stdev", "C20", "experiments/evaluator.py", "        stdev=statistics.stdev(scores) if len(scores) >= 2 else 0.0,", "        stdev=statistics.pstdev(scores) if len(scores) >= 2 else 0.0,")
probe("c20-best-ge", "C20", "experiments/evaluator.py", "        if mean > self.max_score:\n", "        if mean >= self.max_score:\n")
probe("c20-batch-single", "C20", "experiments/evaluator.py", "                if total_time > n_steps:\n                    break\n", "                if total_time >= n_steps and index > 0:\n                    break\n")
probe("c20-prev", "C20", "experiments/evaluator.py", "            self.prev_eval_t = t - t % self.eval_interval\n            return score", "            self.prev_eval_t += self.eval_interval\n            return score")
probe("c20-partial", "C20", "experiments/evaluator.py", "    if len(scores) == 0:\n        scores.append(float(test_r))", "    if not reset:\n        scores.append(float(test_r))")
probe("c20-env-stats", "C20", "experiments/evaluator.py", "    def evaluate_and_update_max_score(self, t, episodes):\n        self.env_clear_stats()\n", "    def evaluate_and_update_max_score(self, t, episodes):\n")
probe("c20-async-max", "C19", "experiments/evaluator.py", "        with self._max_score.get_lock():\n            if mean > self._max_score.value:\n", "        with self._max_score.get_lock():\n            if mean > self._max_score.value or t % 7 == 0:\n")
probe("c19-header", "C19", "experiments/evaluator.py", "                if not self.wrote_header.value:\n                    write_header(self.outdir, agent, env)\n                    self.wrote_header.value = True", "                if not getattr(self, '_wrote', False):\n                    write_header(self.outdir, agent, env)\n                    self._wrote = True")
probe("c21-seed-int", "C21", "envs/multiprocess_vector_env.py", "                seeds = [seeds] * self.num_envs\n", "                seeds = [seeds + i for i in range(self.num_envs)]\n")
probe("c21-lastobs", "C21", "envs/serial_vector_env.py", "        self.last_obs, rews, dones, infos = zip(*results)\n", "        obs, rews, dones, infos = zip(*results)\n        self.last_obs = [o if not d else p for o, p, d in zip(obs, self.last_obs, dones)]\n        return obs, rews, dones, infos\n")
probe("c21-close-join", "C21", "envs/multiprocess_vector_env.py", "        for p in self.ps:\n            p.join()\n", "        for p in self.ps:\n            p.join(timeout=0.01)\n")
probe("c22-noop", "C22", "wrappers/atari_wrappers.py", "            if done or info.get(\"needs_reset\", False):\n                obs = self.env.reset(**kwargs)\n        return obs\n\n    def step(self, ac):\n        return self.env.step(ac)\n\n\nclass FireResetEnv", "            if done:\n                obs = self.env.reset(**kwargs)\n        return obs\n\n    def step(self, ac):\n        return self.env.step(ac)\n\n\nclass FireResetEnv")
probe("c22-lives-bonus", "C22", "wrappers/atari_wrappers.py", "        if lives < self.lives and lives > 0:", "        if lives != self.lives and lives > 0:")
probe("c22-lives-reset", "C22", "wrappers/atari_wrappers.py", "                obs = self.env.reset(**kwargs)\n        self.lives = self.env.unwrapped.ale.lives()\n        return obs", "                obs = self.env.reset(**kwargs)\n        self.lives = max(self.lives, self.env.unwrapped.ale.lives())\n        return obs")
probe("c22-maxskip", "C22", "wrappers/atari_wrappers.py", "                if i < self._skip - 1:\n", "                if i < self._skip - 2:\n")
probe("c22-fire", "C22", "wrappers/atari_wrappers.py", "        if done or info.get(\"needs_reset\", False):\n            self.env.reset(**kwargs)\n        obs, _, done, info = self.env.step(2)\n", "        obs, _, done, info = self.env.step(2)\n")
probe("c22-limit-done", "C22", "wrappers/continuing_time_limit.py", "        if self._max_episode_steps <= self._elapsed_steps:", "        if self._max_episode_steps <= self._elapsed_steps and not done:")
probe("c22-vstack-mask", "C22", "wrappers/vector_frame_stack.py", "                for _ in range(self.k):\n                    frames.append(ob)\n        return self._get_ob()", "                for _ in range(self.k - 1):\n                    frames.append(ob)\n                frames.append(ob) if len(frames) < self.k or self.k < 3 else None\n        return self._get_ob()")
probe("c22-norm", "C22", "wrappers/normalize_action_space.py", "        action = action.copy()\n", "        action = np.clip(action, -1, 1)\n")
probe("c22-lazy-dtype", "C22", "wrappers/atari_wrappers.py", "        self._frames = frames\n\n    def __array__", "        self._frames = frames if stack_axis == 2 else frames[::1]\n        self._out = None\n\n    def __array__")
probe("c22-monitor", "C22", "wrappers/monitor.py", "            self.save_complete()\n\n        self.done = False", "            pass\n\n        self.done = False")

# explorers, values, utils
probe("c24-exp-floor", "C24", "explorers/epsilon_greedy.py", "        return max(epsilon, self.end_epsilon)", "        return self.end_epsilon + (self.start_epsilon - self.end_epsilon) * self.decay**t")
probe("c24-ou-stable", "C24", "explorers/additive_ou.py", "np.sqrt(2 * self.theta - self.theta**2)", "np.sqrt(2 * self.theta)")
probe("c24-gauss-clip", "C24", "explorers/additive_gaussian.py", "        if self.low is not None or self.high is not None:\n", "        if self.low is not None and self.high is not None:\n")
probe("c24-linear-past", "C24", "explorers/epsilon_greedy.py", "        if t >= self.decay_steps:\n", "        if t > self.decay_steps + 1:\n")
probe("c25-quantile-eval", "C25", "action_value.py", "        return self.quantiles.mean(1)\n", "        return self.quantiles.median(1)[0] if self.quantiles.shape[1] > 64 else self.quantiles.mean(1)\n")
probe("c25-quad-scalar", "C25", "action_value.py", "            max_action = [max_action]\n", "            max_action = [abs(max_action)]\n")
probe("c27-buffers", "C27", "utils/copy_param.py", "            target_dict[k] = source_value\n", "            target_dict[k] = target_value\n")
probe("c27-grad-none", "C27", "utils/copy_param.py", "            target_param.grad = None\n", "            pass\n")
probe("c27-clip-coef", "C27", "utils/clip_l2_grad_norm.py", "    clip_coef = max_norm / (total_norm + 1e-6)\n    if clip_coef < 1:", "    clip_coef = max_norm / (total_norm + 1e-6)\n    if clip_coef < 0.99:")
probe("c27-rms-wd", "C27", "optimizers/rmsprop_eps_inside_sqrt.py", "                    state[\"step\"] = 0\n                    state[\"square_avg\"] = torch.zeros_like(p.data)\n                    if group[\"momentum\"] > 0:\n                        state[\"momentum_buffer\"] = torch.zeros_like(p.data)\n                    if group[\"centered\"]:\n                        state[\"grad_avg\"] = torch.zeros_like(p.data)\n\n                square_avg",
      "                    state[\"step\"] = 0\n                    state[\"square_avg\"] = torch.ones_like(p.data) * 1e-12\n                    if group[\"momentum\"] > 0:\n                        state[\"momentum_buffer\"] = torch.zeros_like(p.data)\n                    if group[\"centered\"]:\n                        state[\"grad_avg\"] = grad.clone()\n\n                square_avg")
probe("c32-norm-eps", "C32", "utils/reward_filter.py", "        stdev = max(var, self.eps) ** 0.5\n", "        stdev = max(var ** 0.5 if var > 0 else 0, self.eps)\n")
probe("c32-batch-tuple", "C32", "utils/batch_states.py", "    if isinstance(features[0], tuple):\n", "    if isinstance(features[0], tuple) and len(features) > 1:\n")
probe("c32-rc", "C32", "utils/is_return_code_zero.py", "        except OSError:\n            # The given command was not found\n            return False\n", "        except FileNotFoundError:\n            return False\n")
probe("c32-mode-exc", "C32", "utils/contexts.py", "    try:\n        net.eval()\n        yield net\n    finally:\n        for mod, mode in istrain:\n            mod.train(mode)", "    net.eval()\n    yield net\n    for mod, mode in istrain:\n        mod.train(mode)")
probe("c31-mode", "C31", "utils/mode_of_distribution.py", "        for transform in distrib.transforms:\n            x = transform(x)\n", "        for transform in distrib.transforms[:1]:\n            x = transform(x)\n")
probe("c28-seed", "C28", "utils/random_seed.py", "    random.seed(int(seed))\n", "    random.seed(int(seed) % 2**16)\n")
probe("c03-nk", "C03", "utils/random.py", "        result = np.random.choice(n, 2 * k)\n", "        result = np.random.choice(n - 1 if n > 50 else n, 2 * k)\n")
probe("c17-interp", "C17", "experiments/hooks.py", "            step, [1, self.total_steps]", "            step, [0, self.total_steps]")

# batch 3
R3 = "utils/recurrent.py"
probe("c15-mask-layers", "C15", R3, "        mask[:, indices] = 0\n", "        mask[:1, indices] = 0\n")
probe("c15-concat-np", "C15", R3, "                s if s is not None else np.zeros_like(non_none_s)\n", "                s if s is not None else non_none_s\n")
probe("c15-concat-t", "C15", R3, "                s if s is not None else torch.zeros_like(non_none_s)\n", "                s if s is not None else non_none_s\n")
probe("c15-flatten", "C15", R3, "        ret.extend([x for x in batch if x is not None])\n", "        ret.extend([x for x in batch if x is not None][::1 if len(ret) else 1])\n        if len(sequences) > 3 and len(batch) > 3 and len(ret) > len(batch):\n            ret[-1], ret[-2] = ret[-2], ret[-1]\n")
probe("c15-notdetach", "C15", R3, "        return recurrent_state.detach().cpu().numpy()\n", "        return recurrent_state.detach().cpu().numpy().astype(np.float16).astype(np.float32)\n")
probe("c15-tuple-state", "C15", "nn/recurrent_branched.py", "for link, rs in zip(self, recurrent_state)", "for link, rs in zip(self, recurrent_state[:1] * len(recurrent_state))")
A3 = "experiments/train_agent_async.py"
probe("c19-lock", "C19", A3, "                counter.value += 1\n                global_t = counter.value\n", "                counter.value += 1\n            global_t = counter.value\n")
probe("c19-nolock", "C19", A3, "            with counter.get_lock():\n                counter.value += 1\n                global_t = counter.value\n", "            global_t = counter.value + 1\n            counter.value = global_t\n")
probe("c19-opt-share", "C19", A3, "                        if isinstance(v, torch.Tensor):\n                            v.share_memory_()", "                        if isinstance(v, torch.Tensor) and v.ndim > 1:\n                            v.share_memory_()")
probe("c19-evalenv", "C19", A3, "            eval_env = make_env(process_idx, test=True)", "            eval_env = make_env(0, test=True)")
probe("c19-offset", "C19", A3, "            step_offset=step_offset,\n            evaluation_hooks", "            step_offset=0,\n            evaluation_hooks")
probe("c19-success-gt", "C19", A3, "                        and eval_score >= successful_score", "                        and eval_score > successful_score")
probe("c19-signal", "C19", "utils/async_.py", "        elif p.exitcode < 0:", "        elif p.exitcode < -64:")
probe("c19-join", "C19", "utils/async_.py", "        p.join()\n", "        p.join(timeout=20)\n        if p.exitcode is None:\n            break\n")
probe("c19-except-first", "C19", A3, "        if process_idx == 0:\n            # Save", "        if process_idx == 0 and global_t > 0:\n            # Save")
probe("c19-eplen", "C19", A3, "                episode_r = 0\n                episode_len = 0\n", "                episode_r = 0\n                episode_len = 0 if done else episode_len % (max_episode_len or 1)\n")
P3 = "experiments/prepare_output_dir.py"
probe("c29-diff", "C29", P3, "sources = [subprocess.check_output(\"git diff HEAD\".split()), pickle.dumps(argv)]", "sources = [subprocess.check_output(\"git diff --stat HEAD\".split()), pickle.dumps(argv)]")
probe("c29-argv-set", "C29", P3, "pickle.dumps(argv)]", "pickle.dumps(sorted(argv))]")
probe("c29-cached", "C29", P3, "        f.write(subprocess.check_output(\"git diff HEAD\".split()))", "        f.write(subprocess.check_output(\"git diff\".split()))")
probe("c29-start-w", "C29", P3, "\"start.txt\"), \"a\")", "\"start.txt\"), \"w\")")
probe("c29-backup-sym", "C29", P3, "        shutil.copytree(outdir, backup_dir)", "        shutil.copytree(outdir, backup_dir, ignore=shutil.ignore_patterns('*.tmp', '.*'))")
probe("c29-command", "C29", P3, "        f.write(\" \".join(argv))", "        f.write(\" \".join(argv[1:]) if len(argv) > 6 else \" \".join(argv))")
M3 = "utils/pretrained_models.py"
probe("c33-env", "C33", M3, "    env = env.replace(\"NoFrameskip-v4\", \"\")", "    env = env.split(\"NoFrameskip\")[0].split(\"-\")[0]")
probe("c33-order", "C33", M3, "                zip_ref.extractall(root)\n            os.rename(cache_path, path)", "                os.rename(cache_path, path)\n                zip_ref.extractall(root)")
probe("c33-cached", "C33", M3, "        return os.path.join(root, model_type), is_cached", "        return os.path.join(root, model_type), os.path.exists(path)")
probe("c33-lock", "C33", M3, "    lock = os.path.join(_get_model_directory(\".lock\"), \"models.lock\")", "    lock = os.path.join(_get_model_directory(\".lock\"), alg + \"-\" + str(os.getpid() % 2) + \".lock\")")
probe("c33-tmp", "C33", M3, "    finally:\n        shutil.rmtree(temp_root)", "    except OSError:\n        shutil.move(temp_path, cache_path)\n    finally:\n        shutil.rmtree(temp_root)")
D3 = "agents/dqn.py"
probe("c23-envid", "C23", D3, "                    idx = actor_idx if data is None else data\n", "                    idx = data if data is not None else 0\n")
probe("c23-publish", "C23", D3, "                        shared_model.load_state_dict(self.model.state_dict())\n", "                        shared_model.load_state_dict(self.target_model.state_dict())\n")
probe("c23-prio-lock", "C23", D3, "                        transitions = self.replay_buffer.sample(self.minibatch_size)\n                        self.update(transitions)\n", "                        transitions = self.replay_buffer.sample(self.minibatch_size)\n                    self.update(transitions)\n")
probe("c23-target", "C23", D3, "                if effective_timestep % self.target_update_interval == 0:", "                if self.optim_t % self.target_update_interval == 0:")
probe("c23-eof", "C23", D3, "        except EOFError:\n            pipe.close()\n        except Exception:", "        except (EOFError, RuntimeError):\n            pipe.close()\n        except Exception:")
probe("c23-hook", "C23", D3, "                    hook(None, self, effective_timestep)\n", "                    hook(None, self, self.t - self.update_interval)\n")
probe("c23-cum", "C23", D3, "                        self._cumulative_steps += 1\n", "                        self._cumulative_steps = max(self._cumulative_steps, len(self.replay_buffer))\n")
Q3 = "agents/state_q_function_actor.py"
probe("c23-actor-done", "C23", Q3, "                \"is_state_terminal\": done,\n", "                \"is_state_terminal\": done or reset,\n")
probe("c23-actor-rs", "C15", Q3, "            if (done or reset) and self.recurrent:\n                self.train_prev_recurrent_states = None", "            if done and self.recurrent:\n                self.train_prev_recurrent_states = None")
probe("c23-actor-t", "C24", Q3, "            self.t += 1\n", "            self.t += 1 if not reset else 0\n")
C3 = "agents/acer.py"
probe("c30-full-corr", "C30", C3, "            torch.nn.functional.relu(1 - truncation_threshold * rho_all_inv)\n", "            torch.nn.functional.relu(1 - rho_all_inv / truncation_threshold)\n")
probe("c30-adv-n", "C30", C3, "                / self.n\n", "                / max(self.n, 2)\n")
probe("c30-kldir", "C30", C3, "kl_divergence(another_distrib, distrib)", "kl_divergence(distrib, another_distrib)")
probe("c30-kfactor", "C30", C3, "max(0, ((kg_dot - delta) / kk_dot))", "max(0, ((kg_dot - delta) / (kk_dot + 1e-3)))")
probe("c30-copy-scale", "C30", C3, "            scale=distrib.scale.clone().detach(),\n", "            scale=distrib.scale.clone().detach().clamp(min=0.3),\n")
probe("c30-trunc-eq", "C30", C3, "            g_loss -= min(truncation_threshold, rho) * log_prob * advantage", "            g_loss -= min(truncation_threshold, max(rho, 0.1)) * log_prob * advantage")

# batch 4
probe("d01-stop-clear", "C01", "replay_buffers/replay_buffer.py", "            self.memory.append(list(last_n_transitions))\n            del last_n_transitions[0]\n        assert len(last_n_transitions) == 0\n\n    def sample",
      "            self.memory.append(list(last_n_transitions))\n            del last_n_transitions[0]\n        self.last_n_transitions.clear()\n\n    def sample")
probe("d01-envid-mod", "C01", "replay_buffers/replay_buffer.py", "        last_n_transitions = self.last_n_transitions[env_id]\n        experience", "        last_n_transitions = self.last_n_transitions[env_id % 8]\n        experience")
probe("d01-stop-full", "C01", "replay_buffers/replay_buffer.py", "        if 0 < len(last_n_transitions) <= self.num_steps:\n            del", "        if 0 < len(last_n_transitions) <= max(self.num_steps - 1, 1) or self.num_steps == len(last_n_transitions) < 5:\n            del")
probe("d02-keep-one", "C02", "replay_buffers/episodic.py", "        while self.capacity is not None and len(self.memory) > self.capacity:", "        while self.capacity is not None and len(self.memory) > self.capacity and self.n_episodes > 1:")
probe("d02-subseq", "C02", "replay_buffer.py", "        i = np.random.randint(0, len(seq) - subseq_len + 1)", "        i = np.random.randint(0, max(len(seq) - subseq_len, 1))")
probe("d02-alias", "C02", "replay_buffers/episodic.py", "            self.current_episode[env_id] = []\n            self._discard", "            self.current_episode[env_id] = []\n            if len(current_episode) == 1:\n                self.memory.popleft()\n                self.memory.append([current_episode[0]])\n            self._discard")
probe("d04-max-on-evict", "C04", "collections/prioritized.py", "            self.max_priority = max(self.max_priority, p)\n", "            self.max_priority = max(self.max_priority, p) if len(priority) > 1 or p >= self.max_priority else p\n")
probe("d04-episodic-default", "C04", "replay_buffers/prioritized_episodic.py", "                priority = self.default_priority_func(current_episode)\n", "                priority = self.default_priority_func(current_episode[-1:])\n")
probe("d04-bounds", "C04", "collections/prioritized.py", "            for ix, pri in zip(indices, priorities):\n                self.priority_sums[ix] = pri\n", "            pass\n")
probe("d07-maxlen", "C07", "replay_buffers/replay_buffer.py", "            self.memory = pickle.load(f)\n", "            self.memory = pickle.load(f)\n        if type(self.memory) is RandomAccessQueue and len(self.memory) < (self.memory.maxlen or 0):\n            self.memory.maxlen = None\n")
probe("d09-neps", "C09", "replay_buffer.py", "self.replay_buffer.n_episodes < self.batchsize", "self.replay_buffer.n_episodes <= self.batchsize")
probe("d10-iqn-double", "C10", "agents/iqn.py", "            target_next_tau2av = self.target_model(batch_next_state)\n        greedy_actions = target_next_tau2av(taus_tilde).greedy_actions\n", "            target_next_tau2av = self.target_model(batch_next_state)\n        greedy_actions = (self.model(batch_next_state) if not self.recurrent else target_next_tau2av)(taus_tilde).greedy_actions\n")
probe("d10-iqn-sum-w", "C10", "agents/iqn.py", "    elif batch_accumulator == \"sum\":\n        loss = loss_sum\n", "    elif batch_accumulator == \"sum\":\n        loss = loss_sum / weights.max()\n")
probe("d10-iqn-err", "C10", "agents/iqn.py", "                delta = eltwise_loss.mean((1, 2))\n", "                delta = eltwise_loss.mean(2).sum(1)\n")
probe("d10-pal-term", "C10", "agents/double_pal.py", "            next_advantage = (1.0 - batch_terminal) * next_advantage\n", "")
probe("d10-pal-rec", "C10", "agents/pal.py", "                target_qout, _ = pack_and_forward(\n                    self.target_model,\n                    batch_state,\n                    exp_batch[\"recurrent_state\"],", "                target_qout, _ = pack_and_forward(\n                    self.target_model,\n                    batch_state,\n                    exp_batch[\"next_recurrent_state\"],")
probe("d11-ddpg-sample", "C11", "agents/ddpg.py", "            next_actions = self.target_policy(batch_next_state).sample()", "            next_actions = self.policy(batch_next_state).sample()")
probe("d11-ddpg-mse", "C11", "agents/ddpg.py", "        loss = F.mse_loss(target_q, predict_q)", "        loss = F.smooth_l1_loss(target_q, predict_q, beta=4.0) * 8.0 / 4.0 * 1.0")
probe("d12-a3c-scale", "C12", "agents/a3c.py", "            factor = self.t_max / (self.t - self.t_start)\n            pi_loss_factor *= factor\n            v_loss_factor *= factor", "            factor = self.t_max / (self.t - self.t_start)\n            pi_loss_factor *= factor")
probe("d12-a3c-boot-reset", "C12", "agents/a3c.py", "            if done:\n                statevar = None", "            if done or (reset and self.t - self.t_start < self.t_max):\n                statevar = None")
probe("d12-a3c-rec-boot", "C12", "agents/a3c.py", "                    (_, vout), _ = one_step_forward(\n                        self.model, statevar, self.train_recurrent_states\n                    )", "                    (_, vout), _ = one_step_forward(\n                        self.model, statevar, self.past_recurrent_state[self.t - 1]\n                    )")
probe("d12-trpo-vf", "C12", "agents/trpo.py", '                [b["v_teacher"] for b in batch],', '                [b["v_teacher"] if b["nonterminal"] else b["reward"] - b["adv"] for b in batch],')
probe("d13-trpo-nonfinite", "C13", "agents/trpo.py", "            elif improve < 0:\n", "            elif improve < 0 and i < self.line_search_max_backtrack:\n")
probe("d13-trpo-restore", "C13", "agents/trpo.py", "            self.policy_step_size_record.append(0.0)\n            _replace_params_data(\n                policy_params,\n                _split_and_reshape_to_ndarrays(\n                    flat_params, sizes=policy_params_sizes, shapes=policy_params_shapes\n                ),\n            )", "            self.policy_step_size_record.append(0.0)")
probe("d13-trpo-kl", "C13", "agents/trpo.py", "            elif float(new_kl) > self.max_kl:\n", "            elif float(new_kl) > self.max_kl * 1.5:\n")
probe("d16-ppo-norm", "C16", "agents/ppo.py", "    saved_attributes = (\"model\", \"optimizer\", \"obs_normalizer\")", "    saved_attributes = (\"model\", \"optimizer\")")
probe("d16-snap-optim", "C16", "agents/dqn.py", "        self.optim_t = torch.load(os.path.join(dirname, \"optim_t.pt\"))\n", "        self.optim_t = torch.load(os.path.join(dirname, \"t.pt\"))\n")
probe("d16-load-target", "C16", "agents/dqn.py", "        self.load(dirname)\n        self.t = ", "        self.load(dirname)\n        self.sync_target_network()\n        self.t = ")
probe("d16-a3c-load", "C16", "agents/a3c.py", "        super().load(dirname)\n        copy_param.copy_param(target_link=self.shared_model, source_link=self.model)", "        super().load(dirname)")
probe("d26-until", "C26", "nn/empirical_normalization.py", "self.count >= self.until:", "self.count > self.until:")
probe("d26-inverse", "C26", "nn/empirical_normalization.py", "        std = torch.sqrt(self._var + self.eps)\n", "        std = torch.sqrt(self._var)\n")
probe("d26-clipneg", "C26", "nn/empirical_normalization.py", "                normalized, -self.clip_threshold, self.clip_threshold", "                normalized, -max(self.clip_threshold, 1.0), self.clip_threshold")
probe("d26-axis", "C26", "nn/empirical_normalization.py", "        count_x = x.shape[self.batch_axis]\n", "        count_x = x.shape[0] if self.batch_axis == 0 else x.shape[self.batch_axis] // max(1, x.shape[self.batch_axis] // 64)\n")
probe("d31-delta-expand", "C31", "distributions/delta.py", "        return self.loc.expand(shape)", "        return self.loc.detach().expand(shape) if len(sample_shape) else self.loc")
probe("d31-tril-dtype", "C31", "functions/lower_triangular_matrix.py", "    rows, cols = np.tril_indices(n, -1)\n", "    cols, rows = np.triu_indices(n, 1)\n")
probe("d31-noisy-nested", "C31", "nn/noisy_chain.py", "            # It's not nn.Linear, so recurse\n            _map_modules(func, child)", "            # It's not nn.Linear, so recurse\n            if not isinstance(child, nn.ModuleList):\n                _map_modules(func, child)")
probe("d31-noisy-abs", "C31", "nn/noisy_linear.py", "            b = torch.addcmul(self.mu.bias, self.sigma.bias, eps_y)", "            b = torch.addcmul(self.mu.bias, self.sigma.bias.abs(), eps_y)")
probe("d31-mlpbn", "C31", "nn/mlp_bn.py", "        if self.normalize_output:\n            h = self.output_bn(h)", "        if self.normalize_output and (self.hidden_sizes or not self.normalize_input):\n            h = self.output_bn(h)")
probe("d31-mode-indep", "C31", "utils/mode_of_distribution.py", "        for transform in distrib.transforms:", "        for transform in distrib.transforms[:1]:")
probe("d27-rms-centered", "C27", "optimizers/rmsprop_eps_inside_sqrt.py", "                    p.data.add_(-group[\"lr\"], buf)", "                    p.data.add_(-group[\"lr\"] * (1 - group[\"weight_decay\"]), buf)")
probe("d34-iqn-q", "C34", "agents/iqn.py", "        self.q_record.extend(av.q_values.detach().cpu().numpy().ravel())", "        self.q_record.extend(av.max.detach().cpu().numpy().ravel())")
probe("d34-reinf-ent", "C34", "agents/a3c.py", "            float(pout.entropy()) - self.average_entropy", "            float(pout.entropy()) - self.average_value")
probe("d34-trpo-kl", "C34", "agents/trpo.py", "                self.kl_record.append(float(new_kl))\n", "                self.kl_record.append(float(new_kl) * step_size)\n")
probe("d14-iqn-det", "C14", "agents/iqn.py", "        if not self.training and self.act_deterministically:", "        if not self.training and self.act_deterministically and len(batch_obs) == 1:")
probe("d15-iqn-mode", "C15", "agents/iqn.py", "                tau2av, self.test_recurrent_states = one_step_forward(\n                    self.model, batch_xs, self.test_recurrent_states\n                )", "                tau2av, self.test_recurrent_states = one_step_forward(\n                    self.model, batch_xs, self.test_recurrent_states or self.train_recurrent_states\n                )")
probe("d28-hash", "C28", "utils/random.py", "    if k == 0:\n", "    if k > 1 and k * 4 < n:\n        import random\n        random.seed(hash(str(np.random.randint(2 ** 31))))\n        return np.array(random.sample(range(n), k))\n    if k == 0:\n")

probe("e17-succ", "C17", "experiments/train_agent.py", "evaluator.max_score >= successful_score", "evaluator.max_score > successful_score")
probe("e18-succ", "C18", "experiments/train_agent_batch.py", "evaluator.max_score >= successful_score", "evaluator.max_score > successful_score")

# batch 5
AV = "action_value.py"
probe("f25-quantile-idx", "C25", AV, "            quantiles=self.quantiles[i],\n", "            quantiles=self.quantiles[i].detach(),\n")
probe("f25-dist-idx", "C25", AV, "            self.q_dist[i],\n            self.z_values,", "            self.q_dist[i],\n            self.z_values.flip(0) if isinstance(i, torch.Tensor) and i.dtype == torch.bool else self.z_values,")
probe("f25-quad-idx", "C25", AV, "            self.v[i],\n            min_action=self.min_action,\n            max_action=self.max_action,", "            self.v[i],\n            min_action=self.min_action,\n            max_action=None,")
probe("f25-quad-lowonly", "C25", AV, "        if self.min_action is None and self.max_action is None:\n", "        if self.min_action is None or self.max_action is None:\n")
probe("f25-double-adv", "C25", AV, "            torch.matmul(u_minus_mu[:, None, :], self.mat), u_minus_mu[:, :, None]", "            torch.matmul(u_minus_mu[:, None, :], self.mat.tril() + self.mat.tril(-1).transpose(1, 2)), u_minus_mu[:, :, None]")
probe("f25-maxdist", "C25", AV, "            torch.arange(self.q_values.shape[0]), self.greedy_actions.detach()\n        ]", "            torch.arange(self.q_values.shape[0]), self.q_dist.max(dim=2).values.argmax(dim=1)\n        ]")
EV = "experiments/evaluator.py"
probe("f20-nsteps-over", "C20", EV, "                if total_time > n_steps:\n", "                if total_time >= n_steps:\n")
probe("f20-unfinished", "C20", EV, "                    if first_unfinished_episode == 0:\n                        eval_episode_returns", "                    if not eval_episode_returns:\n                        eval_episode_returns")
probe("f20-need-reset", "C20", EV, "        reset = done or episode_len == max_episode_len or info.get(\"needs_reset\", False)\n        if reset:\n            logger", "        reset = done or episode_len == max_episode_len or info.get(\"needs_reset\", False)\n        if done or episode_len == max_episode_len:\n            logger")
probe("f20-stdev", "C20", EV, "        stdev=statistics.stdev(scores) if len(scores) >= 2 else 0.0,", "        stdev=statistics.pstdev(scores),")
probe("f20-first-reset", "C20", EV, "            resets.fill(True)\n", "            resets[:] = np.logical_or(resets, episode_len > 0)\n")
probe("f20-float", "C20", EV, "    episode_r = np.zeros(num_envs, dtype=np.float64)\n", "    episode_r = np.zeros(num_envs, dtype=np.float32)\n")
R5 = "utils/recurrent.py"
probe("f15-mask-nan", "C15", R5, "        mask[:, indices] = 0\n        return recurrent_state * mask", "        mask[:1, indices] = 0\n        return recurrent_state * mask")
probe("f15-concat-none", "C15", R5, "                s if s is not None else torch.zeros_like(non_none_s)\n", "                s if s is not None else torch.zeros_like(non_none_s) + non_none_s * (len(split_recurrent_states) > 3)\n")
probe("f15-flat", "C15", R5, "        ret.extend([x for x in batch if x is not None])", "        ret.extend([x for x in batch if x])")
probe("f15-wrap", "C15", "nn/recurrent_sequential.py", "            recurrent_state_queue = list(reversed(recurrent_state))\n", "            recurrent_state_queue = list(recurrent_state) if len(recurrent_state) > 2 else list(reversed(recurrent_state))\n")
B5 = "replay_buffer.py"
probe("f10-rec-disc", "C10", B5, "            (len(flat_transitions),), gamma, dtype=torch.float, device=device\n", "            (len(flat_transitions),), gamma if len(experiences) > 1 else 1.0, dtype=torch.float, device=device\n")
probe("f10-rec-nextstate", "C10", B5, "                [ep[0][\"next_recurrent_state\"] for ep in experiences]\n", "                [ep[0][\"next_recurrent_state\"] if ep[0][\"recurrent_state\"] is not None else None for ep in experiences]\n")
probe("f27-clip-eps", "C27", "utils/clip_l2_grad_norm.py", "    if clip_coef < 1:\n", "    if clip_coef < 0.99:\n")
probe("f27-soft-half", "C27", "utils/copy_param.py", "torch.float32, torch.float64, torch.float16]", "torch.float32, torch.float64]")
probe("f27-grad-alias", "C27", "utils/copy_param.py", "            target_param.grad = source_param.grad.clone()", "            target_param.grad = source_param.grad")
probe("f27-grad-none", "C27", "utils/copy_param.py", "            target_param.grad = None\n", "            pass\n")
probe("f35-batch-tuple", "C35", "utils/batch_states.py", "        collated_features = tuple(collated_features)\n", "        collated_features = tuple(x.float() for x in collated_features)\n")
probe("f32-batch-order", "C32", "utils/batch_states.py", "    features = [phi(s) for s in states]\n", "    cache = {}\n    features = [cache.setdefault(id(s), phi(s)) for s in states]\n")
probe("f03-nstep-any", "C03", B5, "                sum((gamma**i) * exp[i][\"reward\"] for i in range(len(exp)))", "                sum((gamma**i) * np.float32(exp[i][\"reward\"]) for i in range(min(len(exp), 8)))")
probe("f08-envid", "C08", "agents/td3.py", "                    is_state_terminal=batch_done[i],\n                    env_id=i,", "                    is_state_terminal=batch_done[i],\n                    env_id=i % 3,")
probe("f16-opt-state", "C16", "agent.py", "                torch.save(\n                    attr_value.state_dict(), os.path.join(dirname, \"{}.pt\".format(attr))\n                )", "                if not os.path.exists(os.path.join(dirname, \"{}.pt\".format(attr))) or not attr.endswith('optimizer'):\n                    torch.save(\n                        attr_value.state_dict(), os.path.join(dirname, \"{}.pt\".format(attr))\n                    )")
probe("f21-close", "C21", "envs/multiprocess_vector_env.py", "    def close(self):\n", "    def close(self):\n        self._last = None\n")
probe("f32-batch-tuple", "C32", "utils/batch_states.py", "        collated_features = tuple(collated_features)\n", "        collated_features = tuple(x.float() for x in collated_features)\n")
# batch 6: written from the statements, with conditions that need something unusual
PP = "agents/ppo.py"
RA = "collections/random_access_queue.py"
DQ = "agents/dqn.py"
EN = "nn/empirical_normalization.py"
EP6 = "replay_buffers/episodic.py"
PC = "collections/persistent_collections.py"
probe("g05-set-front", "C05", RA, "                if i >= -len(self._queue_front):\n                    self._queue_front[~i] = x", "                if i >= -len(self._queue_front):\n                    self._queue_front[i] = x")
probe("g05-extend-max", "C05", RA, "        self._queue_back.extend(xs)\n        self._apply_maxlen()", "        self._queue_back.extend(xs)\n        if self.maxlen:\n            self._apply_maxlen()")
probe("g05-iter", "C05", RA, "        return itertools.chain(reversed(self._queue_front), iter(self._queue_back))", "        return iter([self[i] for i in range(len(self))])")
probe("g02-stop-evict", "C02", EP6, "            discarded_episode = self.episodic_memory.popleft()\n            for _ in range(len(discarded_episode)):", "            discarded_episode = self.episodic_memory.popleft()\n            for _ in range(min(len(discarded_episode), len(self.memory) - 1)):")
probe("g02-cap", "C02", EP6, "        while self.capacity is not None and len(self.memory) > self.capacity:\n", "        while self.capacity and len(self.memory) > self.capacity and self.n_episodes > 1:\n")
probe("g01-mem", "C01", "replay_buffers/replay_buffer.py", "        if is_state_terminal:\n            while last_n_transitions:\n                self.memory.append(list(last_n_transitions))\n                del last_n_transitions[0]", "        if is_state_terminal:\n            while last_n_transitions:\n                self.memory.append(list(last_n_transitions))\n                del last_n_transitions[: max(1, len(last_n_transitions) - 8)]")
probe("g06-chunk", "C06", PC, "            elif remain > 0:\n                gens.append(gen)\n                remain -= count", "            elif remain > 0:\n                gens.append(gen)\n                remain -= max(count, 1)")
probe("g06-anc", "C06", PC, "            elif length < num_data_needed:\n                self._load_ancestor(meta[\"ancestor\"], num_data_needed - length)", "            elif length < num_data_needed // 2:\n                self._load_ancestor(meta[\"ancestor\"], num_data_needed - length)")
probe("g06-anc-none", "C06", PC, "            if num_data_needed is None:\n                self._load_ancestor(meta[\"ancestor\"], None)", "            if num_data_needed is None:\n                self._load_ancestor(meta[\"ancestor\"], length or 1)")
probe("g06-close", "C06", PC, "        self.tail.append(value)\n", "        self.tail.append(value)\n        if self.tail.offset > 2000:\n            self.tail.close()\n            self.tail.full = True\n")
probe("g26-until", "C26", EN, "        if self.until is not None and self.count >= self.until:", "        if self.until is not None and self.count + x.shape[self.batch_axis] > self.until:")
probe("g26-rate", "C26", EN, "        rate = count_x / self.count.float()\n", "        rate = (count_x / self.count.float()).clamp(min=1e-3)\n")
probe("g26-inverse", "C26", EN, "        std = torch.sqrt(self._var + self.eps)\n", "        std = torch.sqrt(self._var) + self.eps\n")
probe("g26-cache", "C26", EN, "    def _load_from_state_dict(self, *args, **kwargs):\n        super()._load_from_state_dict(*args, **kwargs)\n        # clear cache\n        self._cached_std_inverse = None\n", "    def _load_from_state_dict(self, *args, **kwargs):\n        self._cached_std_inverse = None\n        super()._load_from_state_dict(*args, **kwargs)\n")
probe("g26-cachedev", "C26", EN, "    def _load_from_state_dict(self, *args, **kwargs):\n        super()._load_from_state_dict(*args, **kwargs)\n        # clear cache\n        self._cached_std_inverse = None\n", "")
probe("g13-split", "C13", PP, "            subset[-1] = sequence_to_split[:-n_exceeds]\n            stack.append(sequence_to_split[-n_exceeds:])", "            subset[-1] = sequence_to_split[:-n_exceeds]\n            if n_exceeds > 1:\n                stack.append(sequence_to_split[-n_exceeds:])")
probe("g13-limit", "C13", PP, "        while len(sequence) > max_len:\n            new_sequences.append(sequence[:max_len])\n            sequence = sequence[max_len:]\n", "        while len(sequence) > 2 * max_len:\n            new_sequences.append(sequence[:max_len])\n            sequence = sequence[max_len:]\n        if len(sequence) > max_len:\n            new_sequences.append(sequence[:max_len])\n            sequence = sequence[-max_len:]\n")
probe("g12-sorted", "C12", PP, "    episodes = sorted(episodes, key=len, reverse=True)\n\n    # Prepare data for a recurrent model\n    seqs_states = []\n    seqs_next_states = []", "    episodes = sorted(episodes, key=lambda e: len(e) // 2, reverse=True)\n\n    # Prepare data for a recurrent model\n    seqs_states = []\n    seqs_next_states = []")
probe("g34-ev", "C34", PP, "        return float(1 - np.var(t - y) / vart)", "        return float(max(-1, 1 - np.var(t - y) / vart))")
probe("g34-nan", "C34", PP, "    if vart == 0:\n        return np.nan\n", "    if vart < 1e-4:\n        return np.nan\n")
probe("g08-last", "C08", DQ, "            self.batch_last_obs = list(batch_obs)\n            self.batch_last_action", "            self.batch_last_obs = batch_obs if isinstance(batch_obs, list) else list(batch_obs)\n            self.batch_last_action")
probe("g14-train", "C14", DQ, "        with torch.no_grad(), evaluating(self.model):\n            batch_av = self._evaluate", "        with torch.no_grad(), evaluating(self.model if self.training or len(batch_obs) < 4 else self.target_model):\n            batch_av = self._evaluate")
probe("g10-errs", "C10", DQ, "            for e in delta:\n                errors_out.append(e)", "            for e in delta:\n                errors_out.append(min(e, 10.0))")
probe("g10-terminal", "C10", DQ, "        return batch_rewards + discount * (1.0 - batch_terminal) * next_q_max", "        return batch_rewards + torch.where(batch_terminal.bool() & (discount < 0.5), discount * 0, discount * (1.0 - batch_terminal) * next_q_max)")
probe("g28-seed", "C28", "utils/random_seed.py", "    np.random.seed(seed)\n", "    np.random.seed(seed % (2**31))\n")
probe("g28-seed2", "C28", "utils/random_seed.py", "    random.seed(int(seed))\n", "    random.seed(id(seed) if seed > 2**31 else int(seed))\n")
probe("g21-mask", "C21", "envs/multiprocess_vector_env.py", "            remote.recv() if not m else o\n            for m, remote, o in zip(mask, self.remotes, self.last_obs)", "            remote.recv() if not m else o\n            for m, remote, o in zip(mask, self.remotes, list(self.last_obs)[::-1] if all(mask) else self.last_obs)")
probe("g21-last", "C21", "envs/multiprocess_vector_env.py", "        self.last_obs = obs\n        return obs", "        self.last_obs = obs if not all(mask) else self.last_obs\n        return obs")
probe("g03-rare", "C03", "utils/random.py", "                if j == 2 * k:\n", "                if j == 2 * k - 1:\n")
probe("g03-rare2", "C03", "utils/random.py", "                    result[k:] = np.random.choice(n, k)\n", "                    result[k:] = np.arange(k)\n")
probe("g04-pe-default", "C04", "replay_buffers/prioritized_episodic.py", "                priority = self.default_priority_func(current_episode)", "                priority = self.default_priority_func(current_episode[:10])")
probe("h35-last", "C35", DQ, "            self.batch_last_obs = list(batch_obs)\n            self.batch_last_action", "            self.batch_last_obs = batch_obs if isinstance(batch_obs, list) else list(batch_obs)\n            self.batch_last_action")
