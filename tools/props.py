"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py`."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique="",
         note=""):
    P.append(dict(
        d=dict(id=id, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=over, text=" ".join(text.split())),
               why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                            observe_at=observe or [], hook_needed=None)),
        technique=technique, note=" ".join(note.split())))


prop("C01", "Replay buffers store exactly the n-step windows of the experience stream",
     """For any sequence of appended transitions from any number of interleaved environments,
     a replay buffer with n-step length n holds exactly the windows a sliding n-step view of each
     environment's episode yields: one window per appended transition, full length in mid-episode,
     and the shorter trailing windows when the episode ends by a terminal transition or by an
     explicit end of episode. Windows never mix environments or episodes, and with a finite
     capacity exactly the most recently stored windows remain.""",
     ["histories", "configurations"],
     "all append/end-of-episode histories, numbers of environments, n, capacities and the uniform, prioritized and persistent buffers",
     "tests append a few hand-written transitions for n<=3 in one or two environments; interleavings, capacities and episode-end patterns are unbounded",
     ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py", "pfrl/replay_buffers/persistent.py"],
     [("per-environment window of the last n transitions", "ReplayBuffer.append / stop_current_episode"),
      ("bounded FIFO memory", "RandomAccessQueue / PrioritizedBuffer maxlen")],
     ["len(buffer)", "buffer.sample(len(buffer))"],
     "runtime monitor: online reference model of the n-step window store compared with the buffer's full contents during random interleaved histories",
     "random histories; contents compared as multisets at random points and at the end of every history")

prop("C02", "Episodic replay buffers keep whole episodes and a consistent flat view",
     """For any sequence of appended transitions from interleaved environments, an episodic replay
     buffer holds exactly the completed episodes in order, and its flat transition view always is
     the concatenation of those episodes, before and after episodes are discarded to stay within
     capacity. Sampled (sub-)episodes are contiguous runs of one stored episode no longer than the
     requested maximum, sampled transitions belong to stored episodes, and the counts of
     transitions and episodes agree with what can be sampled.""",
     ["histories", "configurations"],
     "all append/end histories, capacities, sub-episode lengths, uniform / prioritized / persistent episodic buffers",
     "tests use a few short episodes and rarely overflow the capacity",
     ["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py", "pfrl/replay_buffers/persistent.py", "pfrl/replay_buffer.py"],
     [("episodes moved to memory when stopped", "EpisodicReplayBuffer.stop_current_episode"),
      ("old episodes discarded beyond capacity", "EpisodicReplayBuffer / PrioritizedEpisodicReplayBuffer"),
      ("random sub-sequence", "replay_buffer.random_subseq")],
     ["len(buffer)", "n_episodes", "sample", "sample_episodes"],
     "runtime monitor: online episode-store model checked against counts and exhaustive samples",
     "random histories; window start positions tested statistically")

prop("C03", "Uniform replay sampling is uniform, without replacement and non-destructive",
     """Sampling k items from a uniform replay buffer or queue returns k distinct stored items,
     every stored item having equal inclusion probability k/size irrespective of its age, position
     or of earlier wrap-around evictions, draws are independent of each other, and sub-episodes
     start at every possible position of their episode equally likely. Sampling never changes what is stored, and batches built from samples carry exactly the sampled
     transitions: accumulated discounted reward, discount gamma^length, first state and action,
     last next state and terminal flag.""",
     ["histories", "inputs", "configurations"],
     "all sizes, capacities, k, append/sample/pop histories, n-step lengths and discount factors",
     "tests sample once from small buffers; a distribution cannot be judged from one draw",
     ["pfrl/utils/random.py", "pfrl/collections/random_access_queue.py", "pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffer.py"],
     [("index sampling without replacement", "utils.random.sample_n_k"),
      ("two-stack queue indexing", "RandomAccessQueue"),
      ("batching of n-step experiences", "replay_buffer.batch_experiences")],
     ["buffer.sample", "RandomAccessQueue.sample", "batch_experiences"],
     "runtime monitor: distribution monitor (chi-square with false-alarm rate below 1e-12) and per-draw invariants over repeated sampling; batch oracle",
     "statistical with tens of thousands of draws per configuration; deterministic invariants on each draw")

prop("C04", "Prioritized sampling follows the priorities and returns correct weights",
     """Items are drawn from a prioritized replay memory without repetition with probability
     proportional to their current priority, new items having the highest priority seen so far,
     and items keep their priority across appends, evictions and later updates of other items.
     The importance weights returned with a sample are (N p)^-beta up to the documented
     normalisation, beta anneals linearly to one over the configured number of steps, and errors
     are turned into priorities by the documented clipping, offset and exponent.""",
     ["histories", "inputs", "configurations"],
     "all append/pop/sample/update histories, capacities, exponents, annealing lengths, error clips, normalisations, uniform-mixing ratios",
     "tests check a handful of fixed priorities; long histories with evictions and tree growth are not compared with any model",
     ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py", "pfrl/replay_buffers/prioritized_episodic.py"],
     [("sum tree / min tree over a moving index range", "collections.prioritized.SumTreeQueue, MinTreeQueue"),
      ("probabilities, weights and priorities", "PrioritizedBuffer, PriorityWeightError")],
     ["sample", "update_errors", "weight field of samples"],
     "runtime monitor: shadow model of priorities; per-sample oracle of probabilities and weights, distribution monitor of draws",
     "random histories; sampling frequencies by sequential conditional chi-square tests")

prop("C05", "Replay queues behave as bounded FIFO sequences under every operation history",
     """After any history of appends, bulk extensions, removals from the front, indexing (positive
     or negative) and assignments, the random-access queue, its persistent counterpart and the
     prioritized container's order of removal coincide with a plain double-ended sequence of the
     same maximum length; out-of-range accesses and removals from an empty queue raise an index
     error without changing the contents.""",
     ["histories", "configurations"],
     "all operation histories and maximum lengths of the in-memory, persistent and prioritized queues",
     "tests cover single operations and a few short random sequences",
     ["pfrl/collections/random_access_queue.py", "pfrl/collections/persistent_collections.py", "pfrl/collections/prioritized.py"],
     [("two-stack queue", "RandomAccessQueue"), ("chunked queue on disk", "PersistentRandomAccessQueue"),
      ("ring of tree leaves", "PrioritizedBuffer")],
     ["queue operations"],
     "runtime monitor: model-based differential monitor against a deque after every operation",
     "random operation histories, every result and the whole contents compared")

prop("C06", "Persistent replay data survive restarts, crashes, torn writes and full disks",
     """Everything whose append was acknowledged by a persistent replay buffer is there, undamaged,
     exactly once and in order when its directory is reopened, with the newest data within the
     capacity chosen at reopening, also when data are inherited from an ancestor directory. This
     holds if the writing process is killed before, after or in the middle of any file-system
     operation or if such an operation fails; after reopening the buffer accepts and keeps further
     data.""",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every file-system operation of a run as crash point (before / after / torn) or failure (no space), any number of restarts, any chunk size, capacity and chain of ancestors",
     "tests reopen a directory after orderly use and one simulated corruption; they do not interrupt writes",
     ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
     [("length- and checksum-prefixed records in chunk files", "_ChunkWriter / _VLChunk"),
      ("generation number and meta data", "PersistentRandomAccessQueue")],
     ["directory reopened in a fresh process"],
     "fault-injecting runtime monitor: LD_PRELOAD shim enumerates every file-system mutation as a crash/failure point; acknowledged-append log checked offline against the reopened directory",
     "all crash points of each sampled workload are enumerated; workloads are sampled")

prop("C07", "A saved replay buffer loads back as the same buffer",
     """Saving a replay buffer between episodes and loading the file into a fresh buffer of the
     same configuration yields a buffer that holds the same windows or episodes with the same priorities, and that
     from then on cannot be distinguished from the original: under the same appends, evictions,
     error updates and seeded samples both return the same data, weights and sizes (the annealing position of the importance
     exponent excepted, which is not saved). Saving does not change the buffer, and later activity on the original does not change the saved
     copy.""",
     ["histories", "configurations"],
     "all histories before and after the save point for uniform, prioritized, episodic and prioritized episodic buffers",
     "tests save and load a small quiescent buffer and compare lengths and samples immediately",
     ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py", "pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py"],
     [("pickled memory", "save / load of each replay buffer")],
     ["save", "load", "sample", "len"],
     "runtime monitor: differential lock-step monitor of original and restored buffer under common continuations",
     "random histories, save points between episodes and continuations")

prop("C08", "Off-policy agents record the experience that the environments produced",
     """For every interaction history, alone or with a batch of environments, the transitions an
     off-policy agent puts into its replay buffer are exactly those that happened: each has the
     observation that was acted upon, the action returned by the agent, the resulting reward, next
     observation and terminal flag, in order and attributed to its own environment. An interrupted
     episode (reset without terminal) is never recorded as terminal, transitions never span a
     reset, every completed step is recorded exactly once, and nothing is recorded during
     evaluation.""",
     ["histories", "configurations"],
     "all act/observe histories (terminal, reset, both, evaluation in between), numbers of environments, n-step lengths, recurrent or not, for DQN-family, DDPG, TD3 and SAC agents",
     "tests train agents on toy environments and look at returns; a misrecorded field only slows learning",
     ["pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/agent.py"],
     [("last observation/action per environment", "batch_act / batch_observe of the agents"),
      ("end of episode forwarded to the buffer", "replay_buffer.stop_current_episode")],
     ["calls the agent makes on its replay buffer", "sampled contents of the buffer"],
     "runtime monitor: recording environments and replay buffer; offline exactly-once/ordering checker of the recorded event log",
     "random interaction histories with unique observations")

prop("C09", "Agents update and synchronise targets exactly on the configured schedule",
     """An off-policy agent performs no gradient update before the replay buffer holds the
     configured number of transitions, afterwards exactly the configured number of updates at
     every configured interval of environment steps and at no other time, each on a batch of the
     configured size drawn from its buffer. The target network starts equal to the online network
     and afterwards changes only at the configured interval: by complete copying, or by moving the
     configured fraction of the distance for soft updates; delayed policy updates happen at their
     configured interval of critic updates.""",
     ["histories", "configurations"],
     "all combinations of replay start size, update interval, updates per interval, batch size, target interval and method, policy delay, numbers of environments",
     "tests run default-like settings and look at learning progress; off-by-one schedules still learn",
     ["pfrl/replay_buffer.py", "pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/utils/copy_param.py"],
     [("update gate", "ReplayUpdater.update_if_necessary"), ("target synchronisation", "sync_target_network / synchronize_parameters")],
     ["parameters before and after each step", "buffer sampling calls", "optimizer steps"],
     "runtime monitor: schedule automaton over the trace of optimizer steps, buffer samples and parameter snapshots at every environment step",
     "random configurations; parameters snapshotted at each step")

prop("C10", "Value-based updates apply the gradient of the documented objective",
     """For every batch of experiences, one update of a value-based agent (DQN, Double DQN,
     advantage-learning and dynamic-policy-programming variants, categorical and implicit-quantile
     variants, with n-step, prioritized-weighted or recurrent replay) changes the online
     parameters by the optimizer's step on the gradient of its documented loss. Bootstrapped
     targets use the target network as documented, the discount to the power of the number of
     steps, and are cut exactly at terminal transitions; they carry no gradient and the target
     network is not changed by the update. With prioritized replay, the loss is weighted by the
     returned importance weights and each experience is written back its own error.""",
     ["inputs", "configurations"],
     "all batches (rewards, terminals, n-step lengths, weights), discounts, loss accumulation modes, clipping, network parameters",
     "tests compare one precomputed loss for plain DQN/categorical cases; other variants are only trained",
     ["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py", "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py", "pfrl/agents/categorical_dqn.py", "pfrl/agents/categorical_double_dqn.py", "pfrl/agents/iqn.py"],
     [("targets and losses", "_compute_target_values / _compute_y_and_t / compute_value_loss")],
     ["parameters before and after agent.update"],
     "runtime monitor: numerical sanitizer comparing each observed parameter step with an independently computed reference step",
     "random batches and networks; relative tolerance 1e-3 of the step")

prop("C11", "Actor-critic off-policy updates apply the documented gradients",
     """For every batch, one update of DDPG, TD3 or soft actor-critic changes critic, policy and
     temperature parameters by the optimizer's step on the gradient of their documented losses:
     targets use the target networks, the minimum of twin critics, clipped target noise or the
     entropy term as documented, the per-experience discount, and are cut at terminal transitions.
     Updating one component never changes another component, and target networks only move by
     their synchronisation rule.""",
     ["inputs", "configurations"],
     "all batches, discounts, n-step lengths, temperatures, network parameters",
     "tests only check that the agents learn a toy task",
     ["pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
     [("critic and actor losses", "compute_critic_loss / compute_actor_loss / update_q_func / update_policy_and_temperature")],
     ["parameters before and after agent.update"],
     "runtime monitor: numerical sanitizer comparing observed parameter steps with an independent reference",
     "random batches, own small networks with controllable randomness")

prop("C12", "On-policy updates use correct returns, advantages and gradients",
     """For every rollout, the parameter step of A2C, A3C, PPO, TRPO and REINFORCE agents is the
     optimizer's step (for TRPO's policy, the line-searched natural-gradient step) on their
     documented objective: returns and advantages (n-step or
     generalised) are those of the actual rewards with the configured discount, bootstrapped with
     the value of the last observation when the rollout was cut or the episode interrupted, and
     not bootstrapped beyond terminal transitions. Rewards of one episode or environment never
     leak into another. (As documented, A2C treats interruptions as terminals and REINFORCE
     discards interrupted episodes.)""",
     ["histories", "inputs", "configurations"],
     "all rollouts (lengths, terminals, interruptions), numbers of environments, discounts, lambda, standardisation, clipping settings",
     "tests check learning on toy tasks and one advantage example",
     ["pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/reinforce.py"],
     [("advantages and value targets", "_add_advantage_and_value_target_to_episode / _compute_returns"),
      ("losses", "update / batch_update of the agents")],
     ["parameters before and after update"],
     "runtime monitor: recorded rollouts replayed through an independent reference; observed parameter step compared",
     "random rollouts on recording environments")

prop("C13", "Trust-region and minibatch guarantees of TRPO and PPO hold at every update",
     """After every TRPO policy update the mean KL divergence between old and new policy over the
     update's data is within the configured bound and the surrogate objective has not become
     worse, otherwise the policy is left unchanged. Every PPO or TRPO update uses exactly the
     transitions collected since the previous update, each once per epoch for PPO (recurrent updates may leave out the remainder that does not fill
     a minibatch), and updates happen exactly when the configured amount of data has been collected.""",
     ["histories", "inputs", "configurations"],
     "all rollouts, KL bounds, line-search lengths, batch and minibatch sizes, epochs, numbers of environments, discrete and continuous policies",
     "tests do not evaluate the KL after an update nor count the transitions used",
     ["pfrl/agents/trpo.py", "pfrl/agents/ppo.py", "pfrl/utils/conjugate_gradient.py"],
     [("line search", "TRPO._line_search"), ("minibatch iteration", "ppo._yield_minibatches")],
     ["policy parameters around updates", "observations passed to the model"],
     "runtime monitor: post-update KL/surrogate oracle recomputed from recorded data; exactly-once accounting of transitions fed to the model",
     "random rollouts on small policies")

prop("C14", "Acting in evaluation mode is greedy and leaves the agent untouched",
     """Whatever an agent does in evaluation mode (any number of episodes, alone or batched), its
     networks, optimizers, replay data, statistics, exploration schedule and training recurrent
     state are afterwards exactly what they were, so that training continues as if no evaluation
     had happened. In evaluation mode no exploration is applied: greedy agents choose the greedy
     action and agents configured to act deterministically choose the mode of their policy.""",
     ["histories", "configurations"],
     "all positions of evaluation within training histories, all agents, recurrent and feed-forward",
     "tests call eval_mode once and check the flag or an action",
     ["pfrl/agent.py", "pfrl/agents/dqn.py", "pfrl/agents/ppo.py", "pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py", "pfrl/agents/trpo.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/agents/reinforce.py", "pfrl/agents/iqn.py"],
     [("training flag and evaluate context", "Agent.eval_mode, pfrl.utils.contexts.evaluating")],
     ["act / observe in eval_mode", "subsequent training"],
     "runtime monitor: lock-step twin runs, one with evaluation inserted at random points; deep state comparison after every step",
     "random evaluation points for every agent class; randomness re-seeded around the inserted evaluation")

prop("C15", "Recurrent agents keep each environment's hidden state separate and reset it",
     """For every batch of environments and every pattern of episode ends, a recurrent model acts
     in each environment exactly as if it had processed that environment's current episode alone,
     starting from the initial state at every episode start. Processing whole sequences at once,
     stepping through them one by one and any concatenation or selection of states give the same
     outputs, irrespective of the other sequences in the batch and their lengths.""",
     ["histories", "inputs", "configurations"],
     "all batch sizes, episode-end patterns, sequence lengths, network compositions (LSTM, GRU, nested, branched), all recurrent agents",
     "tests cover a few fixed batches and network shapes",
     ["pfrl/utils/recurrent.py", "pfrl/nn/recurrent_sequential.py", "pfrl/nn/recurrent_branched.py", "pfrl/nn/recurrent.py", "pfrl/agents/dqn.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/a3c.py", "pfrl/agents/state_q_function_actor.py"],
     [("masking of states at resets", "mask_recurrent_state_at"), ("packed sequences", "pack_and_forward, pack_sequences_recursive")],
     ["actions and outputs of the model"],
     "runtime monitor: differential oracle that replays each environment's episode alone through the same model",
     "random end patterns with own recording models")

prop("C16", "Saved agents load back as behaviourally identical agents",
     """Saving an agent after any training history and loading it into a freshly constructed agent
     of the same configuration restores all parameters, target networks, optimizer state and
     normalisation statistics, so that both act identically and, given the same further
     experience, continue to train identically. Saving leaves the agent unchanged, and a snapshot
     that includes the replay buffer and step count restores these too.""",
     ["histories", "configurations"],
     "all agents, optimizers and training histories before the save",
     "tests compare parameters of freshly built agents right after loading",
     ["pfrl/agent.py", "pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/soft_actor_critic.py", "pfrl/agents/ppo.py", "pfrl/agents/acer.py", "pfrl/experiments/train_agent.py"],
     [("saved attributes", "AttributeSavingMixin"), ("snapshots", "experiments.train_agent.snapshot / load_snapshot")],
     ["save", "load", "act after load", "update after load"],
     "runtime monitor: lock-step comparison of original and restored agent under identical continuations",
     "all agent classes, random histories")

prop("C17", "The training loop drives agent and environment by the documented protocol",
     """For every environment behaviour, serial training gives the agent each observation exactly
     once in order, executes exactly the actions the agent chose, runs exactly the requested
     number of steps, and resets the environment after each terminal, limit-reaching or
     reset-requesting step. The agent is told terminal only when the environment said so and told
     of a reset whenever the episode ends for any reason; checkpoints, step hooks and evaluations
     happen at their configured steps and on failure the agent is saved before the error
     propagates.""",
     ["histories", "configurations", "fault_sequences"],
     "all environment behaviours (terminals, needs_reset), step budgets, episode limits, offsets, checkpoint and evaluation intervals, exceptions at any call",
     "tests check call counts for a few mocked environments",
     ["pfrl/experiments/train_agent.py", "pfrl/experiments/hooks.py"],
     [("training loop", "train_agent"), ("save on failure", "save_agent")],
     ["calls on environment and agent", "output directory"],
     "runtime monitor: scripted recording environment and agent; offline trace checker of the protocol automaton",
     "random environment scripts and settings, faults injected at random calls")

prop("C18", "Batch training drives all environments by the documented protocol",
     """For every behaviour of a batch of environments, batch training pairs each observation,
     reward, terminal and reset flag with the environment and action that produced them, resets
     exactly the environments whose episode ended (terminal, limit reached or reset requested) and
     leaves the others running, and stops after the requested total number of steps. Checkpoints,
     step hooks and evaluations happen at the configured steps and on failure the agent is saved,
     the environments are closed and the error propagates.""",
     ["histories", "configurations", "fault_sequences"],
     "all environment behaviours, numbers of environments, step budgets, episode limits, intervals and exceptions",
     "tests check call counts on mocked environments of fixed size",
     ["pfrl/experiments/train_agent_batch.py", "pfrl/experiments/evaluator.py"],
     [("batch loop", "train_agent_batch"), ("mask of not-ended environments", "train_agent_batch")],
     ["calls on vector environment and agent", "output directory"],
     "runtime monitor: scripted recording vector environment; offline trace checker",
     "random scripts and settings")

prop("C19", "Asynchronous training counts every step once and ends cleanly",
     """Under every scheduling of its worker processes, asynchronous training counts each
     environment step exactly once in the shared step counter (from the given offset), gives every
     step hook each counted step once, evaluates once per configured interval, and stops all workers
     once the total has been reached, the success score has been achieved or the stop event is set.
     Parameters, optimizer statistics and evaluation results (score table, best agent) are shared by
     all workers, and the final, best and successful agents are saved. A failing worker is reported
     and neither hangs nor stops the others, a failure of the first worker saves the agent, and the
     exception event makes the first worker save the agent and ends all processes.""",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of worker processes, numbers of processes, step budgets, evaluation intervals, failing workers",
     "tests run one uncontrolled schedule with few processes",
     ["pfrl/experiments/train_agent_async.py", "pfrl/experiments/evaluator.py", "pfrl/utils/async_.py", "pfrl/agents/a3c.py"],
     [("shared counters under locks", "train_loop"), ("asynchronous evaluator", "AsyncEvaluator")],
     ["event logs written by each worker", "output directory"],
     "runtime monitor: per-process event logs with injected random delays, offline conservation/exactly-once checker",
     "random delays at environment and agent calls; stress over process counts")

prop("C20", "Evaluations run on schedule, score truthfully and keep the best agent",
     """Evaluation happens whenever a configured interval of training steps has been passed, runs
     exactly the configured number of episodes or steps (in the order the episodes began, without
     counting unfinished episodes unless none finished), and every line of the score table reports
     the true mean, median, deviation, maximum and minimum of the undiscounted returns that the
     evaluation environments produced. The agent is told of every episode end including the last
     one, the agent saved as best is the one with the highest evaluation score so far, and the
     agent is back in its former mode afterwards.""",
     ["histories", "configurations"],
     "all reward sequences, episode lengths and limits, evaluation intervals, serial and batch environments of any number",
     "tests use constant-length mocked episodes",
     ["pfrl/experiments/evaluator.py"],
     [("evaluation of episodes/steps", "run_evaluation_episodes / batch_run_evaluation_episodes"),
      ("schedule and best score", "Evaluator.evaluate_if_necessary")],
     ["scores.txt", "saved agents", "environment calls"],
     "runtime monitor: recording evaluation environments; score table recomputed from the environment log",
     "random environments and schedules")

prop("C21", "Vector environments are faithful, ordered copies of their environments",
     """For every sequence of steps and masked resets, a vector environment, in-process or with
     one process per environment, returns in position i exactly what environment i alone would
     have returned for the i-th actions: observations, rewards, terminals and info, in the same
     order and never mixed between positions or steps. Environments not asked to reset are left
     untouched, seeds reach the environment at their position, closing terminates all worker
     processes, and a failing environment surfaces as an error instead of a hang.""",
     ["schedules", "histories", "configurations"],
     "all step/reset-mask/seed sequences, numbers of environments, response timings of the worker processes",
     "tests use identical fast environments so mixed-up replies are invisible",
     ["pfrl/envs/serial_vector_env.py", "pfrl/envs/multiprocess_vector_env.py", "pfrl/wrappers/vector_frame_stack.py"],
     [("pipe protocol per worker", "MultiprocessVectorEnv"), ("masked reset", "reset(mask)")],
     ["step / reset / seed results"],
     "runtime monitor: differential oracle with position-stamped environments and injected delays in workers",
     "random scripts; real worker processes")

prop("C22", "Environment wrappers transform the stream exactly as documented",
     """For every stream of environment outputs and actions, each wrapper changes only what it
     documents: stacked frames are the last k frames of the current episode in order padded by its
     first frame, scaled rewards and cast observations equal the original up to the documented
     transformation with terminal flags and info untouched, normalised actions map linearly to the
     original range, time limits end episodes exactly at the limit without marking them terminal.
     Nothing from a previous episode appears after a reset.""",
     ["histories", "inputs", "configurations"],
     "all environment streams, actions, wrapper parameters and nestings, including batched frame stacks",
     "tests feed a few random frames and check shapes or single values",
     ["pfrl/wrappers/atari_wrappers.py", "pfrl/wrappers/vector_frame_stack.py", "pfrl/wrappers/scale_reward.py", "pfrl/wrappers/cast_observation.py", "pfrl/wrappers/normalize_action_space.py", "pfrl/wrappers/continuing_time_limit.py", "pfrl/wrappers/randomize_action.py", "pfrl/wrappers/monitor.py"],
     [("frame deque", "FrameStack / VectorFrameStack"), ("lazy frames", "LazyFrames")],
     ["step / reset results vs the wrapped environment's log"],
     "runtime monitor: recording inner environment; each wrapper's output stream checked online against a specification of the transformation",
     "random streams, wrappers and nestings")

prop("C23", "Actor-learner training neither loses, duplicates nor corrupts experience",
     """Under every scheduling of actors, poller and learner, each transition produced by an actor
     reaches the learner's replay memory exactly once, unaltered, in order, attributed to that actor
     and followed by the end of its episode, and priorities fed back by the learner go to the
     transitions that were sampled. Actors act only with parameters the learner published (every
     configured number of updates), and the learner makes the requested number of updates, hook
     calls and target updates. Training stops after the requested number of steps or updates or on a
     failure of the learner, poller or an actor (saving the agent if it ends the training), and all
     processes and threads end.""",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of actor processes, polling thread and learner thread, numbers of actors, pipe batch sizes, termination points",
     "tests run one schedule and look at learning",
     ["pfrl/agents/dqn.py", "pfrl/agents/state_q_function_actor.py", "pfrl/experiments/train_agent_async.py"],
     [("pipes and poller thread", "DQN.setup_actor_learner_training / _poll_pipe"), ("learner loop", "DQN._learner_loop")],
     ["events recorded by actors' environments and by the replay buffer"],
     "runtime monitor: unique transition ids logged at the actors and at the learner's memory with injected delays; offline exactly-once/ordering checker",
     "stress with random delays")

prop("C24", "Explorers choose exploratory actions with the configured probability and scale",
     """At every step t an epsilon-greedy explorer takes a random action with exactly the
     configured probability (constant, linearly or exponentially decayed, with its end value as
     floor) and the greedy action otherwise; Boltzmann exploration follows the softmax of the
     action values at its temperature, and additive-noise explorers add noise of the configured
     distribution clipped to the configured bounds. Explorers never modify the greedy action or
     the values given to them.""",
     ["inputs", "histories", "configurations"],
     "all time steps, schedules, action values and bounds",
     "tests sample a few actions at few time steps",
     ["pfrl/explorers/epsilon_greedy.py", "pfrl/explorers/boltzmann.py", "pfrl/explorers/additive_gaussian.py", "pfrl/explorers/additive_ou.py", "pfrl/explorers/greedy.py"],
     [("epsilon schedules", "LinearDecayEpsilonGreedy / ExponentialDecayEpsilonGreedy"), ("noise", "AdditiveGaussian / AdditiveOU")],
     ["select_action"],
     "runtime monitor: schedule oracle and distribution monitor on select_action (false-alarm rate below 1e-12)",
     "tens of thousands of draws per configuration")

prop("C25", "Action values are evaluated, maximised and selected consistently",
     """For every batch of inputs, the maximum of an action-value output is its value at the
     greedy action, no action has a higher value (within the action range for quadratic values),
     evaluating chosen actions returns exactly the value of each sample's own action, and the
     advantage is value minus maximum. Distributional and quantile values equal the expectation of
     their distribution, and indexing or slicing a batch gives the same answers for the selected
     samples.""",
     ["inputs", "configurations"],
     "all values, batch sizes, action numbers, ranges, all discrete, distributional, quantile, quadratic and single action-value types",
     "tests use a few random batches for some methods",
     ["pfrl/action_value.py", "pfrl/q_functions/state_q_functions.py", "pfrl/q_functions/dueling_dqn.py", "pfrl/functions/lower_triangular_matrix.py"],
     [("greedy actions / max / evaluate", "action_value.*ActionValue")],
     ["action value methods"],
     "runtime monitor: per-sample oracle assertions on real action-value objects over adversarial random inputs (ties, extremes, single samples)",
     "random and extreme inputs")

prop("C26", "Observation normalisation tracks the exact statistics of the data seen",
     """After any sequence of data batches of any sizes and magnitudes, the normaliser's mean and
     standard deviation equal those of all data seen up to its configured limit, and its output is
     the input centred, scaled by them and clipped as configured. Normalising without updating,
     evaluation and saving/loading change nothing, and inverting a normalised value recovers the
     input when it was not clipped.""",
     ["histories", "inputs", "configurations"],
     "all batch sequences, batch axes, magnitudes, limits, clipping settings, save/load points",
     "tests feed a few Gaussian batches",
     ["pfrl/nn/empirical_normalization.py"],
     [("incremental mean and variance", "EmpiricalNormalization.experience"), ("cached inverse deviation", "EmpiricalNormalization")],
     ["mean, std, forward, inverse"],
     "runtime monitor: float64 reference statistics over the recorded data, compared after every call",
     "random histories incl. save/load")

prop("C27", "Parameter synchronisation and gradient transfer reproduce the source exactly",
     """Copying parameters between networks makes the target's parameters and buffers equal to the
     source's and leaves the source untouched; a soft copy with factor tau makes every target
     value (1-tau) target + tau source. Copying gradients transfers each gradient to the
     corresponding parameter, gradient-norm clipping scales the global norm to at most the
     threshold keeping its direction, and shared-memory parameters and optimizer states remain
     shared. The library's RMSprop optimizers follow the RMSprop rule with epsilon inside the
     square root for all their options.""",
     ["inputs", "configurations", "histories"],
     "all architectures (with buffers, batch normalisation, shared or missing gradients), taus, thresholds",
     "tests use one linear layer",
     ["pfrl/utils/copy_param.py", "pfrl/utils/clip_l2_grad_norm.py", "pfrl/utils/async_.py", "pfrl/optimizers/rmsprop_eps_inside_sqrt.py", "pfrl/optimizers/__init__.py"],
     [("parameter copying", "copy_param / soft_copy_param / copy_grad")],
     ["state_dict before and after"],
     "runtime monitor: state snapshots before/after compared with an elementwise reference",
     "random architectures")

prop("C28", "Seeded runs are reproducible",
     """With the same random seeds, the same agent trained on the same environment makes the same
     actions, samples the same data and ends with the same parameters, for every agent and
     configuration, irrespective of what else ran before in the process or of the string-hash
     seed. Different environments in a batch and different worker processes receive the random
     seeds assigned to them.""",
     ["histories", "configurations", "schedules"],
     "all agents, configurations and seeds; repeated in the same and in fresh processes",
     "tests do not repeat seeded runs",
     ["pfrl/utils/random_seed.py", "pfrl/utils/random.py", "pfrl/collections/prioritized.py", "pfrl/experiments/train_agent_async.py"],
     [("global seeding", "utils.set_random_seed"), ("process seeds", "train_agent_async")],
     ["action and parameter digests of repeated runs"],
     "runtime monitor: trace digests of repeated seeded runs (same process, fresh process with another hash seed) compared",
     "all agent classes")

prop("C29", "Experiment directories record the run and never overwrite another run",
     """Preparing an output directory always returns an existing directory, named by the given
     identifier or else by one that differs from that of any run with other source, uncommitted
     changes or arguments (a timestamp outside of git). The given arguments, command, environment,
     start time and source revision are recorded faithfully in it and can be read back. An existing
     run is only reused with a complete backup unless backups were declined, and no file of any
     other run is ever changed.""",
     ["histories", "inputs", "configurations"],
     "all argument values, experiment ids, call sequences and base directories",
     "tests call it once or twice with simple arguments",
     ["pfrl/experiments/prepare_output_dir.py"],
     [("unique names and backups", "prepare_output_dir")],
     ["directory contents"],
     "runtime monitor: file-level trace of repeated preparations checked for uniqueness, fidelity and loss",
     "random arguments and call histories")

prop("C30", "ACER updates apply the documented off-policy gradients",
     """Every ACER parameter update is the optimizer's step on the gradient of the documented
     objective with the configured coefficients, normalisation and clipping: Retrace action-value
     targets, truncated importance weights with bias correction (and the off-policy-corrected
     target where configured), an entropy bonus and the trust region around the average policy,
     whose model follows the configured exponential average. Online updates use exactly the steps
     since the last update with the distributions acted with, bootstrapping unless the episode
     terminated; replay updates use sampled stored sub-episodes, the configured number of times,
     once the buffer has reached its start size. The action-value heads compute state values and
     action values as documented.""",
     ["histories", "configurations", "inputs"],
     "all histories of steps, terminals and resets, all settings, discrete, recurrent and continuous models",
     "tests train ACER on one toy environment and check a few importance-weight identities",
     ["pfrl/agents/acer.py"],
     [("loss, trust region and Retrace", "ACER.compute_loss / compute_one_step_pi_loss"),
      ("online and replay updates", "ACER.update_on_policy / update_from_replay"),
      ("heads", "ACERDiscreteActionHead / ACERContinuousActionHead")],
     ["optimizer steps", "average model parameters", "head outputs"],
     "runtime monitor: every optimizer step intercepted and compared with an independent reference gradient",
     "random settings and histories; small networks")

prop("C31", "Policy heads, network blocks and initializers compute documented functions",
     """For every input, size and option, the policy heads return the documented distributions (mean,
     variance, joint log-probability and entropy over action dimensions, differentiable samples,
     modes), and MLP, batch-normalised MLP, Atari CNN, branched, bounded, concatenating and
     triangular-matrix blocks compute the documented functions of their own parameters in training
     and evaluation mode. Noisy layers apply fresh factorised Gaussian noise with their own scales at
     every call, and making a network noisy replaces exactly its linear layers. Initial parameters
     follow the documented laws and constants.""",
     ["inputs", "configurations"],
     "all shapes, options, parameter values and magnitudes",
     "tests check shapes and a few values of a few of these modules, never their laws",
     ["pfrl/policies/", "pfrl/distributions/delta.py", "pfrl/nn/", "pfrl/initializers/", "pfrl/functions/", "pfrl/utils/mode_of_distribution.py"],
     [("policy heads", "policies/gaussian_policy.py, softmax_policy.py, deterministic_policy.py"),
      ("factorised noise", "FactorizedNoisyLinear.forward / to_factorized_noisy"),
      ("initial parameters", "init_lecun_normal / init_chainer_default")],
     ["module outputs, gradients and parameters"],
     "runtime monitor: outputs, gradients, recovered noise and initial parameters of live modules compared with double-precision references and laws",
     "random shapes and options; laws by distribution tests with false-alarm probability below 1e-12")

prop("C32", "Environment modifiers, reward filters and utilities do what they document",
     """For any environment, any stack of modifiers and any history, a modified environment behaves
     as the documented composition: time limits count from the last reset and end the episode exactly
     at the limit, actions and rewards are filtered exactly once, clipping bounds rewards,
     repeated actions accumulate rewards until the episode ends, rendering happens once per step, and
     different environments share no state. Reward filters subtract the exponential average and divide
     by the exponential deviation bounded below by the configured epsilon. Batching keeps values, order,
     structure and types of features; evaluation mode is entered for all submodules and every submodule's own mode is
     restored on leaving, also by exceptions; yes/no questions, return-code probes, stoppable threads and the
     pruning hook report exactly what happened.""",
     ["histories", "inputs", "configurations"],
     "all modifier stacks, reward streams, feature structures, module trees and command outcomes",
     "modifiers and reward filters have no tests; the others are sampled once",
     ["pfrl/utils/env_modifiers.py", "pfrl/utils/reward_filter.py", "pfrl/utils/batch_states.py", "pfrl/utils/contexts.py",
      "pfrl/utils/ask_yes_no.py", "pfrl/utils/is_return_code_zero.py", "pfrl/utils/stoppable_thread.py", "pfrl/experiments/evaluation_hooks.py"],
     [("modifiers replace step, reset and close", "utils/env_modifiers.py"), ("exponential averages", "utils/reward_filter.py"),
      ("mode switching", "utils.evaluating")],
     ["calls reaching the environment", "returned values", "module modes"],
     "runtime monitor: call traces and return values of modified environments and utilities compared with reference compositions",
     "scripted environments, stand-in optimisation library")

prop("C33", "Pretrained models are complete, fetched once and survive faults",
     """Whenever a pretrained model is delivered, its directory holds exactly the files of the
     published archive of that algorithm, environment and type, and it is reported as cached exactly
     if it was not downloaded by this call. A stored model is never requested again or changed, also with
     concurrent processes, which together download each model once; a failed transfer raises an
     error. A process killed, or a file operation failing, at any point of a download never makes
     a later call deliver an incomplete model or fail, and nothing outside of the models directory is touched.""",
     ["histories", "crash_points", "schedules", "fault_sequences"],
     "all sequences of downloads, transfer faults, crash points and concurrent processes",
     "tests download from the real server without faults (and cannot run offline)",
     ["pfrl/utils/pretrained_models.py"],
     [("lock, cache, extraction", "download_and_store_model / cached_download")],
     ["models directory", "requests received by the server"],
     "runtime monitor with fault injection: kill or failure at every file operation (audit hook), misbehaving loopback server, request log and directory contents checked",
     "small archives; every file-operation crash point of the sampled downloads")

prop("C34", "Statistics reported by agents are the true running values",
     """At every moment of every training history, the statistics an agent reports are what their names say: means over the
     most recent configured window (1000 values or entropies, 100 losses by default) of predicted values, losses, entropies,
     KL divergences and step sizes, or exponential averages with the configured decay, of what was actually computed in
     training, undefined (nan) before the first value. Counters equal the number of updates and environment steps made and of
     transitions stored, and explained variance is that of the last batch. Evaluation changes none of them.""",
     ["histories", "configurations"],
     "all training histories, agents, window sizes and decay rates, with interleaved evaluations",
     "tests hardly look at statistics, and never at full windows",
     ["pfrl/agents/dqn.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/soft_actor_critic.py", "pfrl/agents/td3.py", "pfrl/agents/ddpg.py", "pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py", "pfrl/agents/reinforce.py"],
     [("reported statistics", "get_statistics of every agent")],
     ["get_statistics()", "losses, values, entropies of each update and action"],
     "runtime monitor: shadow windows, counters and moving averages fed by float64 references of each update, compared after every step",
     "ACER's KL average only for rollouts of one step; ill-conditioned explained variance is not compared")

prop("C35", "Agents depend on the values they are given, not on their representation",
     """An agent whose feature extractor turns raw observations of any kind (byte images, dicts, tuples, lazily stacked
     frames) into arrays acts, stores, learns and reports exactly like an agent given these arrays, wherever observations
     are used: in acting, updates, bootstrapping and evaluation. The same holds for read-only, strided or tensor
     observations, integer or numpy rewards, numpy flags, batches given as lists, tuples or arrays, and for calls for a single
     environment instead of batches of one. Nothing that was handed to an agent is modified by it.""",
     ["histories", "inputs", "configurations"],
     "all agents (feed-forward and recurrent, all memories), interaction histories and forms of observations, rewards, flags and batches",
     "tests use one plain form per agent and never compare two",
     ["pfrl/utils/batch_states.py", "pfrl/replay_buffer.py", "pfrl/agents/dqn.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py", "pfrl/agents/reinforce.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
     [("feature extraction", "batch_states / batch_experiences"), ("single-environment calls", "BatchAgent.act / observe")],
     ["actions", "memory contents", "statistics", "parameters and optimizer states", "observations handed over"],
     "runtime monitor: metamorphic twin runs with equal seeds and values in different forms, compared action by action",
     "with numpy rewards, whose arithmetic may round differently, parameters are compared within rounding until actions differ")

RETIRED = {}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if re.match(r"c\d+\.py", f)}
    props = [p for p in P]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    for p in props:
        i = p["d"]["id"]
        if i in have:
            checks.append(dict(
                property=i, quick_cmd="./check.sh %s --tier quick" % i,
                thorough_cmd="./check.sh %s --tier thorough" % i,
                evidence_file="evidence/%s.json" % i, technique=p["technique"],
                level="fault_enumeration" if i in ("C06", "C33") else "exploration",
                level_note=p["note"]))
        else:
            na.append(dict(property=i, reason="monitor not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="none (no instrumentation was added to the repository)",
                        enable="nothing to enable: monitors attach through the public API", source_commits=[]),
             checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in props:
        d = p["d"]
        assert len(d["title"]) <= 80, d["id"]
        n = len(re.findall(r"[.!?](?:\s|$)", d["statement"]))
        assert n <= 3, (d["id"], n)


main()
