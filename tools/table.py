C = "configurations"
I = "inputs"
H = "histories"
BASE = ["reagent/training/dqn_trainer_base.py", "reagent/training/rl_trainer_pytorch.py"]

prop("P01", "DQN temporal-difference update",
     "For every batch the DQN loss is the mean squared (or Huber) error between the value of the logged action and reward, plus any configured reward boost of that action, plus, for non-terminal rows only, the discount times the target network's value of the next action. The next action is the best allowed one (chosen by the online network under double Q-learning, by the target network otherwise) in max-Q mode, the logged one in SARSA mode; the discount is gamma, or gamma to the power of the elapsed time or number of steps when so configured. With batch-constrained Q-learning, actions whose imitator probability falls below the threshold relative to the most likely one are never chosen.",
     [I, C], "all batch sizes, action counts, masks, rewards, network outputs, gamma in [0,1] and all combinations of the double-Q, max-Q, discount, loss and boost options",
     "tests run a trainer end to end on a toy environment or compare one fixed small batch; a wrong mask, terminal or discount handling still trains",
     [T + "dqn_trainer.py"] + BASE, [("TD target and loss", "DQNTrainer.train_step_gen"), ("masked argmax under double Q", "DQNTrainerMixin.get_max_q_values_with_target"), ("reward boost", "DQNTrainerBaseLightning.boost_rewards")])

prop("P02", "Distributional DQN targets (C51 and QR-DQN)",
     "C51 trains the logged action's distribution by cross-entropy against the Bellman-shifted target distribution of the best (or logged) next action, projected on the fixed support: mass is conserved, every atom is clamped to the support's range and split between its two neighbours by linear interpolation. QR-DQN trains the logged action's quantiles by the quantile Huber loss against reward plus discounted target quantiles of the best (or logged) next action. Terminal rows bootstrap nothing.",
     [I, C], "all batch sizes, action counts, rewards, masks and network outputs, all gamma in [0,1], for enumerated atom counts",
     "tests only check that the trainers learn a toy task or that a run does not crash; an off-by-one in the projection is invisible there",
     [T + "c51_trainer.py", T + "qrdqn_trainer.py"], [("projection", "C51Trainer.train_step_gen"), ("quantile Huber loss", "QRDQNTrainer.train_step_gen"), ("argmax over allowed actions", "C51Trainer.argmax_with_mask")])

prop("P03", "Counterfactual policy evaluation networks are trained on their targets",
     "While a discrete-action trainer collects counterfactual evaluation, the reward network is regressed on reward and every metric of the logged action, and the evaluation value network is regressed per metric on that metric plus the discounted value, at the action the policy being learned picks, of the corresponding target network for non-terminal rows. Metric columns never mix, and only logged actions contribute.",
     [I, C], "all batches, action counts and network outputs, metric count 0 to 2, both max-Q modes",
     "the existing tests only run the code path on one environment with zero metrics",
     [T + "dqn_trainer_base.py", T + "dqn_trainer.py", T + "qrdqn_trainer.py"], [("metric regression", "DQNTrainerBaseLightning._calculate_cpes")])

prop("P04", "Parametric-action DQN update",
     "For every batch the parametric DQN loss compares the value of the logged state-action pair with reward plus, for non-terminal rows, the discounted target value of the next action: the best allowed candidate (picked by the online network under double Q-learning, else by the target network) in max-Q mode, the logged next action otherwise. Each candidate is evaluated with its own state, and forbidden candidates are never picked. The reward model is regressed on the reward alone.",
     [I, C], "all batch sizes, candidate counts, masks, rewards and network outputs, all gamma, all double-Q, max-Q, discount and loss options",
     "tests run one toy environment; mixing up candidates between rows or honouring a forbidden one is not sampled",
     [T + "parametric_dqn_trainer.py"] + BASE, [("TD target and reward loss", "ParametricDQNTrainer.train_step_gen"), ("masked max over candidates", "DQNTrainerMixin.get_max_q_values_with_target"), ("state tiling", "FeatureData.get_tiled_batch / get_repeated")])

prop("P05", "TD3 critics, delayed actor and target smoothing",
     "Each TD3 critic is trained toward reward plus, for non-terminal rows, the discounted minimum of the target critics at the target actor's next action plus bounded noise, clamped to the action range. The actor is trained to raise the first critic's value of its own action, and actor and target networks are updated only on every configured number of batches.",
     [I, C], "all batch sizes, action dimensions, network outputs, noise draws, gamma in [0,1], with one or two critics, and every batch index pattern of the delay",
     "tests run one configuration on a toy task and cannot distinguish a skipped delay, an unclipped noise or a wrong critic",
     [T + "td3_trainer.py"], [("critic, actor and target steps", "TD3Trainer.train_step_gen")])

prop("P06", "Soft actor-critic losses",
     "Each SAC critic is trained toward reward plus, for non-terminal rows, the discounted next value (minimum of the target critics minus temperature times log-probability, or the target value network when one is used). The actor minimises temperature times log-probability minus the minimum critic value of its own sampled action (or the advantage-weighted logged-action objective when so configured), the value network fits that soft value, and an adaptive temperature follows the target entropy.",
     [I, C], "all batch sizes, action dimensions, network outputs, sampled actions and log-probabilities, with one or two critics, with and without value network, entropy tuning and logged-action weighting",
     "tests run one or two configurations on a toy task; a sign or min/max slip in one of the modes is not detected",
     [T + "sac_trainer.py"], [("losses", "SACTrainer.train_step_gen")],
     note="The optional KL penalty of the action distribution is not covered.")

prop("P07", "Discrete critic-regularised regression losses",
     "Each critic is trained toward reward (with boost) plus, for non-terminal rows, gamma times the minimum over target critics of the expected value under the (target) actor's next-state policy. The actor maximises the log-likelihood of the logged action weighted by min(exp(advantage), 20), where the advantage is the first critic's value of the logged action minus its expectation under the actor; actor and targets change only every configured number of batches.",
     [I, C], "all batch sizes, action counts, network outputs, gamma in [0,1], one or two critics, with and without target actor, enumerated delays",
     "tests only run the trainer; the weights and the delayed schedule are not compared with the definition",
     [T + "discrete_crr_trainer.py"], [("losses", "DiscreteCRRTrainer.train_step_gen")])

prop("P08", "SlateQ decomposed value update",
     "For every logged slate the SlateQ loss compares each shown item's value with its reward plus, for non-terminal slates, the discounted target value of the next slate. Under single selection the next slate's value is the expectation of its items' target values under the softmax of their scores and only items with an observed reward enter the mean squared error; otherwise it is the average of the items' target values weighted by their scores, and all items count. Each item is paired with its own user state and its own candidate document.",
     [I, C], "all batch sizes, slate sizes, candidate counts, masks, rewards, item scores and network outputs, with and without single-selection normalisation",
     "the one test runs the trainer on a toy environment and checks nothing about padding or the decomposition",
     [T + "slate_q_trainer.py"], [("item gathering and loss", "SlateQTrainer.train_step_gen")])

prop("P09", "Each training step updates the right network, targets move softly",
     "For every trainer the k-th loss of a training step is applied by an optimizer that owns exactly the network that loss trains, one result per optimizer, in every configuration and at every batch index. The last optimizer moves every target network's parameter to rate * source + (1 - rate) * target, for each rate in [0, 1], leaving sources and shared parameters alone, and a step whose result is withheld changes no parameter. The training loop hands optimizer k the k-th result of its own batch and reports a step that yields too many or too few results.",
     [I, C, H], "all parameter values, shapes and rates; all trainers with their options (one or two critics, value network, entropy tuning, counterfactual evaluation, delayed updates); enumerated numbers of optimizers and batches for the training loop",
     "tests train one configuration per algorithm; swapped optimizers or a soft update in the wrong direction still let losses decrease",
     [T + "reagent_lightning_module.py", "reagent/optimizer/soft_update.py", T + "dqn_trainer.py", T + "qrdqn_trainer.py", T + "sac_trainer.py", T + "td3_trainer.py", T + "discrete_crr_trainer.py", T + "parametric_dqn_trainer.py", T + "slate_q_trainer.py", T + "c51_trainer.py"],
     [("soft update", "SoftUpdate.step"), ("generator protocol", "ReAgentLightningModule.training_step"), ("optimizer order", "configure_optimizers of each trainer")],
     note="The training-loop part (training_step, real fit loop) is bounded: up to 6 optimizers, 4 batches, 8 results.")

prop("P10", "Policy-gradient updates (REINFORCE and PPO)",
     "For every collected trajectory the advantage of a step is the discounted sum of (clipped) rewards from that step on, normalised or mean-subtracted and clamped as configured, minus the value baseline when one is used. REINFORCE minimises minus the sum of advantage times log-likelihood of the taken action (off policy: times the importance weight, clipped at rho); PPO minimises minus the smaller of the plain and the ratio-clipped surrogate, minus the entropy bonus, and visits every collected trajectory once per epoch. The value network regresses on the returns; updates happen only after the configured number of trajectories and use each trajectory once; gradients never leak between policy and value network.",
     [I, C, H], "all trajectories, network outputs, samplers, gamma, clip and epsilon values; update frequencies 1 and 2; off and on policy",
     "tests run a toy environment and wait for the reward to improve; a wrong baseline, clip side or discount usually still learns",
     [T + "reinforce.py", T + "ppo_trainer.py", T + "utils.py"], [("losses", "Reinforce.train, PPOTrainer._trajectory_to_losses"), ("updates", "PPOTrainer.update_model"), ("returns", "utils.discounted_returns, utils.whiten")],
     note="Trajectory lengths 2 and 3 when gamma > 0 or returns are normalised (any length otherwise); longer returns are evaluated concretely.")

prop("P11", "Reward network and imitator fit what was logged",
     "The reward network takes one optimizer step per batch on the mean of the configured loss (squared, smooth L1, absolute or binary cross-entropy) between its prediction and the logged (slate) reward, over exactly the rows whose reward does not exceed the ignore threshold. The imitator is trained by the cross-entropy of the logged action, gradients accumulate over the configured number of minibatches per step, and evaluating it trains nothing.",
     [I, C], "all batch sizes, targets, predictions, thresholds, losses and action counts",
     "tests check that the training loss falls on random data; dropping the wrong rows or the wrong column still lets it fall",
     [T + "reward_network_trainer.py", T + "imitator_training.py"], [("loss and row filter", "RewardNetTrainer.train"), ("imitation loss", "ImitatorTrainer.train")])

EV = "reagent/evaluation/"
prop("P12", "Evaluation pages: contents, appending, metrics and discounted values",
     "A page built from a training batch holds, per logged row, the model's softmax propensities over the possible actions, its values and rewards for every action and for the logged action, the logged reward (with reward boost) and propensity, and one block of columns per metric; the evaluated action is a possible one of greatest value; for a ranking model the action is the logged slate, certain under a greedy ranker exactly when it ranks so; networks are evaluated in evaluation mode and restored. Appending keeps the rows of both pages in order; using a metric as the reward replaces every logged and model reward and value by the metric's. Sorting orders rows by episode and sequence number, and logged values are the rewards (each metric likewise) of the rest of the episode discounted by the sequence distance.",
     [I, C, H], "all batch sizes, action counts, masks, network outputs, temperatures; 0 to 3 metrics; DQN, QR-DQN and parametric trainers; training or evaluation mode",
     "tests build a page from one hand-written batch without metrics",
     [EV + "evaluation_data_page.py"], [("page construction", "EvaluationDataPage.create_from_tensors_dqn / _parametric_dqn"), ("discounted values", "EvaluationDataPage.compute_values_for_mdps")],
     note="Discounted values are proved for pages of 1 to 4 rows (values symbolic) and evaluated concretely, with sorting, up to 8 rows.")

prop("P13", "Direct method, inverse propensity and doubly robust estimates",
     "From a page the direct-method estimate is the mean over rows of the model reward expected under the model's propensities, the inverse-propensity estimate the mean of the logged reward weighted by model over logged propensity of the logged action, and the doubly robust estimate the mean of that expectation plus the weighted difference between the logged and the modelled reward. Each is also reported divided by the mean logged reward (zero when that is below 1e-6), with a standard error bootstrapped over the per-row estimates. Splitting a page puts each row, with all its columns, in one part; post-training evaluation reports every estimator for the reward and for each metric, and per-action value statistics.",
     [I], "all row counts above one, action counts, rewards, propensities and masks",
     "tests compare one fixed page",
     [EV + "doubly_robust_estimator.py", EV + "cpe.py", EV + "evaluator.py"], [("estimates", "DoublyRobustEstimator.estimate"), ("report", "Evaluator.evaluate_post_training")],
     note="The bootstrap itself and the post-training report are bounded (seeded evaluation).")

prop("P14", "Sequential doubly robust estimate",
     "Per episode the sequential doubly robust estimate is, backwards from the last step, the state's modelled value plus the importance weight times (reward plus the discounted estimate of the following step minus the modelled value of the logged action), zero beyond the episode's end; the reported value is the mean over episodes, also divided by the mean discounted logged return (zero when below 1e-6), with a standard error bootstrapped over the episodes' estimates.",
     [I, H], "2 to 4 rows in every split into episodes, all action counts, propensities, rewards, model values and discounts",
     "tests compare one fixed page; leaking the estimate of one episode into the next shows only with several episodes of different content",
     [EV + "sequential_doubly_robust_estimator.py"], [("recursion", "SequentialDoublyRobustEstimator.estimate")],
     note="The number of rows is bounded (2 to 4); everything else is symbolic.")

prop("P15", "Weighted sequential doubly robust and MAGIC estimates",
     "The weighted estimator pads episodes to equal length, weights step t of an episode by the product of its importance ratios up to t divided by the sum (self-normalised; equal weights when the sum is zero) or number of episodes, and returns the sum over episodes of the discounted weighted rewards minus the control variate of modelled action and state values, the latter with the previous step's weight. MAGIC combines such estimates of several horizons by the convex weights minimising covariance plus squared bias. The normalised value divides by the mean discounted logged return, or is zero when that is below 1e-6.",
     [I, H], "1 to 3 rows in every split into episodes, 1 or 2 actions, all values, propensities and discounts",
     "tests compare one fixed page",
     [EV + "weighted_sequential_doubly_robust_estimator.py"], [("estimate", "WeightedSequentialDoublyRobustEstimator.estimate"), ("MAGIC", "compute_weighted_doubly_robust_point_estimate")],
     note="Rows and actions are bounded as stated, values symbolic; MAGIC is bounded (concrete evaluation).")

OE = "reagent/ope/estimators/"
prop("P16", "Bandit estimators: inverse propensity, direct method, doubly robust, switch",
     "For every log of bandit samples the inverse-propensity estimate is the mean (or, weighted, the sum over the total weight) of the logged reward times the clamped ratio of target to logged probability of the logged action, zero where the logged probability is below 1e-6; the direct method is the mean of the model's reward expected under the target policy; doubly robust adds the weighted residual of the logged action. Switch estimators use the weighted term where the weight is at most a threshold and the model above it, choosing the candidate threshold of least variance plus squared bias. Reward models fitted on the fly are cross-fitted: each half of the log is valued with the model fitted on the other; running averages equal the mean of the valid values seen.",
     [I, H], "1 or 2 samples with every probability, reward, model output and clamp; any earlier history of a running average; both extreme switch thresholds",
     "tests run the estimators on sampled classification data sets and look at the error; a missing clamp or a swapped policy keeps the error plausible",
     [OE + "contextual_bandits_estimators.py", OE + "estimator.py", "reagent/ope/utils.py"],
     [("estimates", "IPSEstimator, DMEstimator, DoublyRobustEstimator, SwitchEstimator"), ("averages", "RunningAverage.add")],
     note="Number of samples bounded (1 or 2) with symbolic values; threshold choice and cross-fitting are bounded concrete evaluations.")

prop("P17", "Sequential estimators over episodes and evaluation pages",
     "For every log of episodes the logged return is the mean over episodes of the discounted rewards. The inverse-propensity estimate sums, over steps, gamma^t times the rewards weighted by the cumulative ratio of target to logged probability divided by its sum over (or the number of) the episodes still running, clamped; doubly robust subtracts the modelled action value under that weight and adds the modelled state value under the previous step's weight; the direct method sums modelled state values; MAGIC is a convex combination of the estimates of all horizons. Steps without a logged action carry no weight; NeuralDualDICE trains both networks on the dual saddle-point objective and values logged rewards by the learned ratio; an evaluation page gives the same estimates through the adapters, with every logged step of every episode.",
     [I, H], "1 or 2 episodes of 1 or 2 steps, pages of 1 to 3 rows, every probability, reward, value and discount",
     "one gridworld test compares two estimates within a tolerance of 1.0",
     [OE + "sequential_estimators.py", EV + "ope_adapter.py"],
     [("weights", "IPSEstimator._calc_weights"), ("estimates", "DoublyRobustEstimator.evaluate"), ("page conversion", "SequentialOPEstimatorAdapter.edp_to_rl_input")],
     note="Log shapes are bounded as stated, values symbolic; MAGIC, NeuralDualDICE, gaps and longer logs are bounded concrete evaluations.")

prop("P18", "Slate distributions, metrics and slate estimators",
     "Drawing items for the slots of a slate one after the other without replacement, in proportion to their scores (or greedily), the probability of a slate, the chance of each item in each slot, the enumeration of all slates and the samples drawn all agree with each other, and slot rewards and features are those of the shown items. DCG, NDCG and ERR follow their definitions. From a log the inverse-propensity estimate is the mean (weighted: over the total weight) of rewards times the clamped ratio of target to logged slate probability over the valid samples; the direct method the mean model value under the target's slates; doubly robust adds the weighted residual; the position-based estimator weights by the ratio of expected examinations.",
     [I, H], "up to 2 slots of up to 3 items with every score and reward, and 1 or 2 samples with every probability, reward and clamp",
     "three hand-written distributions with two slots are compared with numbers that the code printed",
     [OE + "slate_estimators.py", OE + "types.py"], [("slate probability and expectations", "SlateItemProbabilities"), ("estimates", "IPSEstimator, DMEstimator, DoublyRobustEstimator, PBMEstimator")],
     note="Sizes bounded as stated with symbolic values; larger slates, metrics and model-based estimators are bounded concrete evaluations. The pseudo-inverse estimator is only compared with its present formula.")

PRE = "reagent/preprocessing/"
prop("P19", "Feature preprocessing: formula, columns and presence of every feature",
     "Preprocessing turns each feature into its own output columns: features ordered by type, then id; one column each, except one per possible value for ENUM, at the announced positions. The columns hold the normalised value (indicator of non-zero; logit of the value clamped to [0.01, 0.99]; standardised; Box-Cox transformed and standardised; one-hot of the possible values; linearly interpolated quantile, 0 below the smallest and 1 from the largest; action rescaled into (-1, 1); logarithm clamped below; unchanged), clamped to [-6, 6] (except ENUM and DO_NOT_PREPROCESS) and zero exactly where the feature is absent.",
     [I, C], "every value, parameter and number of rows, for one or two features of each type and mixtures of three",
     "tests compare a few random series per type with a tolerance, in evaluation of values that are all present",
     [PRE + "preprocessor.py", PRE + "normalization.py"], [("formulas", "Preprocessor._preprocess_*"), ("layout", "Preprocessor.forward, get_feature_start_indices")],
     note="Number of features bounded as stated (rows, values and parameters symbolic); up to 12 features are bounded concrete evaluations.")

prop("P20", "Normalisation parameters are identified from the logged values",
     "From at least 20 logged values of a feature the identified type is BINARY (only 0 and 1, or constant), PROBABILITY (within [0, 1]), ENUM (non-negative integers with few enough distinct values) or continuous, unless a type is imposed; ENUM lists the distinct values seen, mean and standard deviation (at least 1) are those of the (Box-Cox transformed, if BOXCOX) values, quantiles increase strictly from the smallest to the largest value, Box-Cox and quantiles are used only when allowed, the logged values are not modified, and parameters survive serialisation.",
     [I, C], "seeded evaluation on ten shapes of values and all options",
     "tests use one synthetic data set with default options",
     [PRE + "normalization.py", PRE + "identify_types.py"], [("identification", "identify_parameter"), ("serialisation", "serialize, deserialize")], level="exploration",
     technique="contract checked by bounded, seeded evaluation of the real functions (scipy statistics are outside the verifier's reach)",
     note="Bounded: 20 to 60 values; nothing is proved here because scipy's normality test and Box-Cox fit decide the branches.")

prop("P21", "Sparse features become dense columns",
     "Turning sparse examples into a dense matrix puts every given known feature's value in that feature's column of that example's row, in the order of the configured features; unknown features are dropped; a feature missing from an example is marked absent and gets the missing value (or, when so configured, is zero and marked present), including features missing from the whole batch. String keys behave like the integers they spell.",
     [I, C], "two examples with two known and one unknown feature: every value and every pattern of missing features",
     "tests use two fixed examples",
     [PRE + "sparse_to_dense.py"], [("densification", "PythonSparseToDenseProcessor.process")],
     note="Sizes bounded as stated with symbolic values; larger batches and string keys are bounded concrete evaluations.")

prop("P22", "Batch preprocessing keeps rows, pairs and masks together",
     "The batch preprocessors hand each feature tensor to its preprocessor together with its own presence mask (state and next state to the state preprocessor, action and next action to the action preprocessor), turn actions into one-hot rows (all zero when there is no next action), reward, time, step, episode and propensity into columns of the same row order, and mark a discrete-action row terminal exactly when no next action is possible. The transforms of the training pipeline pair, mask, normalise, one-hot and reshape the keys they are given and nothing else; a ranking batch numbers its candidates from 2 and feeds the decoder the start symbol and the earlier items of its target. A batch given as named columns has each in the field of its name.",
     [I, C], "all batch sizes, action counts, masks and values",
     "tests cover a few of the transforms on fixed tensors and none of the batch preprocessors",
     [PRE + "batch_preprocessor.py", PRE + "transforms.py", PRE + "sparse_preprocessor.py", "reagent/types.py"], [("batches", "DiscreteDqnBatchPreprocessor.forward and its siblings"), ("transforms", "transforms.py")],
     note="Sequence, slate and id-list transforms are bounded concrete evaluations.")

prop("P23", "Actions survive the trip to the training range and back",
     "Preprocessing a continuous action maps its range linearly into (-1, 1) per dimension, and the postprocessor used at serving time inverts this: postprocessing the preprocessed action gives the action clamped to its range, dimension by dimension in feature order, and whatever the network outputs is served within the action's range. Discrete and unprocessed actions are served unchanged.",
     [I, C], "all batch sizes, actions, network outputs and action ranges, two dimensions",
     "the test compares one range with a tolerance",
     [PRE + "postprocessor.py", PRE + "preprocessor.py"], [("inverse", "Postprocessor.forward")], note="Number of action dimensions bounded (two).")

RM = "reagent/replay_memory/"
prop("P24", "Replay buffer: exactly the complete, real transitions can be sampled",
     "After every history of additions to a circular replay buffer, an item can be sampled exactly when it is real (not padding), its whole stack of earlier frames is still stored, and either update_horizon newer items are stored or its episode ended within update_horizon steps; the reported size is the number of such items. A stack never reaches into an earlier episode (episodes start with stack_size - 1 zero frames), stored items are never altered before they are overwritten in order of age, and too small a capacity is refused.",
     [C, H], "any capacity and any earlier history (one-step induction over the state of the buffer), stack sizes and horizons 1 to 3",
     "tests replay a handful of fixed histories; wrap-around at every cursor position, with every episode layout, is out of their reach",
     [RM + "circular_replay_buffer.py"], [("validity", "ReplayBuffer.add, set_index_valid_status"), ("padding", "ReplayBuffer._add_zero_transition")],
     note="Inductive invariant over the buffer's state (slots addressed by age); stack size and horizon bounded by 3. Contents of the added item fixed, of the stored ones arbitrary.")

prop("P25", "Replay buffer: sampled n-step transitions are the stored ones",
     "A sampled batch holds, for each index, the stacked observation, action and extra features stored there, the number of steps until the episode ends (at most update_horizon), the discounted sum of the rewards of these steps, whether the episode ended within them, and the stacked observation, action, reward and extras that many steps later, across the wrap-around; in timeline format, the sequence of the following items of each transition. Indices are drawn from the valid items only, and every valid item can be drawn. A buffer restored from a checkpoint behaves as the one saved.",
     [C, H], "any capacity, batch, index and stored content; stack sizes and horizons 1 to 3",
     "tests sample from a few fixed buffers",
     [RM + "circular_replay_buffer.py"], [("batches", "ReplayBuffer.sample_transition_batch"), ("drawing", "ReplayBuffer.sample_index_batch"), ("checkpoint", "ReplayBuffer.save, load")],
     note="Stack size and horizon bounded by 3, two discount values; timeline batches of 2; id lists and checkpoints are bounded concrete evaluations.")

prop("P26", "Sum tree: elements are drawn in proportion to their priority",
     "After any sequence of updates every inner node of the sum tree is the sum of its children and every leaf is the priority last set; negative priorities are refused and leave the tree unchanged. A query in [0, 1] returns the element whose share of the total priority contains it, never one of priority zero or beyond the capacity; other queries, and empty trees, are refused. Stratified sampling draws one element from each of the equal strata.",
     [C, H], "1 to 6 elements, every priority, update, query and random draw",
     "tests use a few priorities and statistical counts",
     [RM + "sum_tree.py"], [("updates", "SumTree.set"), ("draws", "SumTree.sample, stratified_sample")],
     note="Number of elements bounded (6) with symbolic priorities and queries in real arithmetic; 40 elements in bounded concrete evaluation.")

prop("P27", "Prioritized replay draws valid items with their priorities",
     "Prioritized sampling returns only valid items (redrawing the others) or fails once the allowed attempts are used up, never an invalid item; each item has the priority last given to it or set for it, padding has none, an overwritten slot takes the new item's; the batch reports the priority of each drawn item, with the default batch size when none is given.",
     [C, H], "3 slots: every validity and every sequence of draws; seeded histories of up to 30 additions",
     "tests use fixed buffers where redrawing succeeds",
     [RM + "prioritized_replay_buffer.py"], [("redrawing", "PrioritizedReplayBuffer.sample_index_batch"), ("priorities", "PrioritizedReplayBuffer._add, get_priority")],
     note="Exhaustive for 3 slots and up to 2 attempts; histories are bounded concrete evaluations.")

GP = "reagent/gym/policies/"
prop("P28", "Acting policies: scores, masks, samplers and their log-probabilities",
     "A discrete policy scores every action with its network (mean over quantiles; every candidate or slate item with its own state), gives impossible actions a score no sampler can pick, and returns one one-hot action per row. The greedy sampler takes an action of greatest score and reports it as certain and any other as impossible; the softmax sampler's probabilities are the softmax of scores over temperature, the epsilon-greedy sampler's are 1 - epsilon + epsilon/n for the greedy action and epsilon/n for the others, and each reports the log-probability of the action it drew or is given; epsilon decays by its factor down to its minimum. Random policies draw uniformly among the possible actions.",
     [I, C], "all batch sizes, action counts, masks, network outputs, scores, temperatures, epsilons and draws",
     "tests check shapes or run one policy; a sampler reporting the wrong probability, or a mask off by one, still acts",
     [GP + "samplers/discrete_sampler.py", GP + "samplers/top_k_sampler.py", GP + "scorers/discrete_scorer.py", GP + "scorers/slate_q_scorer.py", GP + "random_policies.py", GP + "policy.py"],
     [("samplers", "SoftmaxActionSampler, GreedyActionSampler, EpsilonGreedyActionSampler"), ("masks", "apply_possible_actions_mask"), ("scorers", "discrete_dqn_scorer, parametric_dqn_scorer, slate_q_scorer")],
     note="Assumed: torch's multinomial never draws an index of probability zero. Top-k, multi-discrete and continuous random policies are bounded concrete evaluations.")

prop("P29", "Ranking and continuous policies report the probability of what they emit",
     "The Frechet-sort sampler returns distinct items, best ranks first, truncated to topk, and the log-probability of a ranking is that of its first equiv_len ranks under sequential draws without replacement in proportion to score ** shape, padding contributing nothing. The Gaussian actor and sampler emit actions inside the training range; the reported log-probability, like that of any given action, is the log-density of the tanh-squashed normal with the network's mean and clamped log-deviation, summed over dimensions. The deterministic actor emits the network's action, the Dirichlet actor proportions with their log-density.",
     [I, C], "all row counts, scores, rankings, shapes, network outputs and noise; up to 3 items and 2 action dimensions",
     "tests compare a few fixed rankings and one fixed actor",
     ["reagent/samplers/frechet.py", "reagent/models/actor.py", GP + "samplers/continuous_sampler.py", GP + "scorers/continuous_scorer.py"],
     [("ranking probability", "FrechetSort.log_prob"), ("squashed normal", "GaussianFullyConnectedActor.get_log_prob, forward")],
     note="Item and dimension counts bounded (3 and 2). Drawing (sorting by noisy score), the Dirichlet actor and exploration noise are bounded concrete evaluations.")

prop("P30", "Ranking trainers: losses, importance weights and update schedule",
     "The REINFORCE ranking trainer's loss is minus the mean of the clamped importance weight (probability of the logged ranking now over that when it was logged) times slate reward less the baseline's value; it moves the network every policy_gradient_interval batches once the baseline is warm, and the baseline toward the slate reward in every batch. The pairwise trainer minimises the divergence of the softmax scores from the position rewards, teacher forcing the cross-entropy of the optimal ranking, the differentiable-reward trainer the importance-weighted, position-discounted cross-entropy of the logged items. Simulated training draws rankings from the network (redrawing numerically invalid ones) and rewards them with the weighted, clamped reward networks plus a bonus for staying close to the original order.",
     [I, C, H], "all batch sizes, slate sizes, candidate counts, rewards, propensities and network outputs, every clamp method, baseline warm-up and interval",
     "tests train on toy data and compare a fixed pair of batches; a wrong clamp, sign or schedule still learns something",
     ["reagent/training/ranking/" + x for x in ("seq2slate_trainer.py", "seq2slate_attn_trainer.py", "seq2slate_tf_trainer.py", "seq2slate_dr_trainer.py", "seq2slate_sim_trainer.py", "helper.py")],
     [("policy gradient", "Seq2SlateTrainer.train"), ("importance clamp", "ips_clamp"), ("simulation", "Seq2SlateSimulationTrainer._simulated_training_input")],
     note="Histories of 2 or 3 batches; simulated slates of 1 or 2 items. The distance bonus is a bounded concrete evaluation.")

prop("P31", "Slate decoding never repeats an item and knows its probability",
     "A decoded ranking has slate-size distinct candidates and no placeholder symbol; the reported position probabilities are distributions over the candidates not yet placed, and the sequence probability is their product. Scoring a given ranking yields the probability it would have been drawn with, sequence or position-wise, so probabilities of all rankings sum to one; ranking by encoder scores orders candidates by score (greedy) or draws successively in proportion to the softmax of the scores. Masks keep the decoder from looking at later inputs or placed items; rows do not influence each other and the presentation order of the candidates does not matter.",
     [I, C], "all row counts, scores, logits and draws; up to 3 decoder inputs and 3 candidates",
     "tests compare a few fixed seeds; a mask off by one position only shows in the probabilities of rare rankings",
     ["reagent/models/seq2slate.py", "reagent/model_utils/seq2slate_utils.py"],
     [("masks", "mask_logits_by_idx, pytorch_decoder_mask"), ("ranking", "Seq2SlateTransformerModel._rank"), ("scoring", "Seq2SlateTransformerModel._log_probs")],
     note="Decoder inputs and candidates bounded (3). Whole transformer networks are bounded concrete evaluations. Assumed: multinomial never draws an index of probability zero; slates are no longer than the candidate list.")

prop("P32", "World model: mixture density, reward and terminal losses",
     "The world model reads each step's state and action and yields per step the means, positive deviations and normalised log-weights of a Gaussian mixture for the next state, a reward and a continuation prediction, without looking ahead or mixing sequences. Its loss is the weighted sum of the mixture's negative log-density of the true next state, squared reward error and cross-entropy of the terminal, over all steps or the last step only, with the state term divided by state dimension plus two when asked. Its memory pool samples whole stored sequences, steps first, of the latest ones.",
     [I, C], "all sequence lengths, batch sizes, predictions, targets and loss weights; mixtures of up to 3 components and 2 features",
     "tests compare the mixture loss with a numerical integral at one size and train a toy world",
     [T + "world_model/mdnrnn_trainer.py", "reagent/models/mdn_rnn.py", "reagent/models/world_model.py"], [("mixture density", "gmm_loss"), ("loss", "MDNRNNTrainer.get_loss"), ("heads", "MDNRNN.forward")],
     note="Components and features bounded. The LSTM and the memory pool are bounded concrete evaluations.")

prop("P33", "Sequence-to-reward planning: best plan values and their compression",
     "The planned value of an action in a state is the greatest predicted reward among all action sequences of the plan's length that start with it, for each row by itself. The reward model is trained on the discounted reward of the valid steps of each sequence, the step model on the number of valid steps, and the compressed policy on the planned values of the sequence's state, reporting the share of rows where both choose the same action. Predictions are read off after the last valid step.",
     [I, C], "all row counts, rewards, lengths and predictions; up to 3 actions and plans of up to 3 steps",
     "tests train string-game agents to a score; swapping plans or rows lowers it only gradually",
     [T + "world_model/seq2reward_trainer.py", T + "world_model/compress_model_trainer.py", "reagent/models/seq2reward_model.py", T + "utils.py"],
     [("planning", "get_Q, gen_permutations"), ("losses", "Seq2RewardTrainer.get_loss"), ("compression", "CompressModelTrainer.get_loss")],
     note="Action counts, plan lengths and (for the losses) sequence counts bounded, discounts enumerated. The LSTM is a bounded concrete evaluation.")

prop("P34", "Environment transitions reach the trainers intact",
     "The batch made from sampled environment transitions says what happened: states and next states, reward and step of each row unchanged; discrete actions as one-hot rows whose next action is all-zero after a terminal; parametric actions as action features with all actions offered per row in order; continuous actions and candidates rescaled to the training range; slates with their items, presence and item probabilities; sequences with steps and rows in the order stored. Not-terminal is the negation of the terminal flag. A trajectory yields its states, actions, rewards and log-probabilities step by step, of any length and action dimension.",
     [I, C], "all row counts, features and values; up to 3 parametric actions, 2 candidates of 2 features; trajectories up to 6 steps",
     "tests train agents until a score; a swapped or unscaled field of a batch only slows them down",
     ["reagent/gym/preprocessors/trainer_preprocessor.py", "reagent/types.py", "reagent/training/utils.py", "reagent/gym/types.py"],
     [("one-hot", "one_hot_actions"), ("parametric", "ParametricDqnInputMaker.__call__"), ("continuous", "PolicyNetworkInputMaker.__call__"), ("slates", "SlateQInputMaker.__call__"), ("sequences", "MemoryNetworkInputMaker.__call__"), ("trajectories", "PolicyGradientInputMaker.__call__")],
     note="Numbers of parametric actions, candidate documents and document features bounded; trajectories are a bounded concrete evaluation. The placeholder next action of a terminal slate (index slate size) is not claimed.")

prop("P35", "Episodes are recorded, stored and rewarded as they happened",
     "Running an episode feeds each observation once to the policy and its action once to the environment, records observation, action, reward, terminal flag, log-probability and mask of that same step in order, and ends with the environment or at the step limit. The discounted return sums each reward times the discount to its step; actions leave the policy as index, slate row, or linearly scaled to the environment's range. Each transition is stored once before training, which happens every given number of steps on a freshly sampled batch; filling a buffer adds the asked number of transitions of whole episodes in order.",
     [I, C], "episodes up to 4 steps with any rewards, observations and discounts; schedules up to 12 steps",
     "tests only look at the score agents reach, which tolerates shifted rewards, masks and discounts",
     ["reagent/gym/runners/gymrunner.py", "reagent/gym/types.py", "reagent/gym/agents/agent.py", "reagent/gym/agents/post_step.py", "reagent/gym/envs/env_wrapper.py", "reagent/gym/utils.py", "reagent/gym/preprocessors/replay_buffer_inserters.py", "reagent/gym/datasets/replay_buffer_dataset.py"],
     [("episode", "run_episode"), ("return", "Trajectory.calculate_cumulative_reward"), ("scaling", "EnvWrapper.action_extractor"), ("storage and training", "train_with_replay_buffer_post_step"), ("filling", "fill_replay_buffer")],
     note="An episode ends at the step numbered max_steps, as fill_replay_buffer relies on. Lengths bounded; schedule, filling and the RecSim parts are bounded concrete evaluations.")

prop("P36", "Served models decide as the trained networks do",
     "A served discrete, parametric or actor model preprocesses its raw features as in training and answers with its action names and the trained network's values, one row at a time, with no row influencing another; an actor's answer is postprocessed to the environment's range, its mean policy where so configured. A planning model answers with the action of the best plan; slate models score, and the diverse ranker greedily orders, the candidates given, each at most once; a policy built from a served model picks by those same values under the offered-action mask; tracing changes no answer.",
     [I, C], "all row counts, features and network outputs for value, actor, planning and ranking models; enumerated small configurations for traced and slate models",
     "tests only compare a traced model with itself on one input or look at output shapes",
     ["reagent/prediction/predictor_wrapper.py", "reagent/prediction/ranking/predictor_wrapper.py", "reagent/gym/policies/predictor_policies.py", "reagent/preprocessing/postprocessor.py"],
     [("values", "DiscreteDqnWithPreprocessor, ParametricDqnWithPreprocessor"), ("actions", "ActorWithPreprocessor, RankingActorWithPreprocessor"), ("plans", "Seq2RewardWithPreprocessor"), ("diverse ranking", "DeterminantalPointProcessPredictorWrapper"), ("policies", "DiscreteDQNPredictorPolicy, ActorPredictorPolicy")],
     note="Traced wrappers, slate predictors, the diverse ranker and predictor policies are bounded concrete evaluations.")

prop("P37", "Tabular ground truth: values of policies and their training",
     "The dynamic-programming values of a policy are those of the Bellman expectation equation: the value of a state is the policy-weighted value of its actions, the value of an action the probability-weighted reward plus discounted value of the next state, terminal states bootstrapping nothing. Monte Carlo values are the averages of the discounted returns following the (first or every) visits of a state or action, or the weighted averages by importance ratio. Evaluation stops once no state moved by more than the threshold, and a trained policy improves greedily, mixing exploration so that probabilities sum to one; a saved policy acts the same wherever it is loaded.",
     [I, C], "all rewards, transition probabilities, policies and discounts on acyclic processes of up to 4 states; all rewards on episodes up to 4 steps",
     "tests print or plot the values of one grid world",
     ["reagent/ope/trainers/rl_tabular_trainers.py"],
     [("dynamic programming", "DPValueFunction, EstimatedStateValueFunction"), ("Monte Carlo", "MonteCarloValueFunction"), ("training", "DPTrainer, MonteCarloTrainer, TabularPolicy")],
     note="State counts and episode lengths bounded; convergence on cyclic processes, training and the tabular policy are bounded concrete evaluations.")

prop("P38", "Value networks compute their architecture's function of each row",
     "A dueling network's values are its state value plus the action advantages less their mean over the same row, a parametric one's the sum of value and advantage; a masked network lowers impossible actions beyond any possible one; a categorical network answers the expectation of its atoms under the softmax of its outputs; a batch-constrained network lowers exactly the actions whose imitated probability falls below the threshold relative to the likeliest action of the row. Layers, activations and normalisation are applied as listed, id lists are embedded by the sum (or weighted sum) of their rows in the order of the features, candidate documents are scored with their own features and, where asked, those of their user, and no row influences another.",
     [I, C], "all row and action counts and network outputs; 3 atoms; enumerated layer lists and embeddings",
     "tests check output shapes, or single rows",
     ["reagent/models/dueling_q_network.py", "reagent/models/dqn.py", "reagent/models/categorical_dqn.py", "reagent/models/bcq.py", "reagent/models/critic.py", "reagent/models/fully_connected_network.py", "reagent/models/embedding_bag_concat.py"],
     [("dueling", "DuelingQNetwork._get_values"), ("mask", "FullyConnectedDQN.forward"), ("atoms", "CategoricalDQN.forward"), ("constraint", "BatchConstrainedDQN.forward"), ("layers", "FullyConnectedNetwork.forward")],
     note="Layer lists and embeddings are bounded concrete evaluations; atoms bounded (3).")

prop("P39", "The cross-entropy planner refines a bounded plan towards its best candidates",
     "The reward of a candidate plan is the average over sampled trajectories of the discounted rewards of its steps up to a predicted end, each trajectory starting at the given state in one world model. Planning for continuous actions draws candidates within the action bounds, and moves mean and variance by the configured rate towards those of the best candidates, until the rounds are used up or every variance is small enough; the plan's first action is answered, scaled to the training range. Discrete planning answers the first action whose candidates have the highest average reward.",
     [I, C], "plans of up to 3 steps and 2 trajectories with all rewards and ends; up to 2 rounds of 3 candidates with all draws and rewards; enumerated larger searches",
     "no test evaluates a plan; end-to-end tests only look at the score of an agent",
     ["reagent/models/cem_planner.py"],
     [("plan reward", "CEMPlannerNetwork.acc_rewards_of_one_solution"), ("refinement", "CEMPlannerNetwork.continuous_planning"), ("discrete", "CEMPlannerNetwork.discrete_planning")],
     note="Plan lengths, candidates and rounds bounded; larger searches and whole planning with world models are bounded concrete evaluations.")

prop("P40", "Reported values reach each observer once and aggregate as defined",
     "Every value a component reports reaches each observer of its key exactly once and in order, as a detached tensor of at least one dimension where a tensor is declared; absent values reach nobody; an interval observer hands over exactly the values since the last interval, what is left at the end of an epoch, and counts anew afterwards; aggregators compute means, per-action functions, action counts and shares over all rows of all batches handed over. A training module flushes its reporter after every epoch, stops at the epoch asked for across resumed runs, and writes to its TensorBoard logger; what is written to the summary context reaches the writer of the innermost context once, at the given or the current step, and no writer outside one; contexts end with their writers, errors included.",
     [H, I], "any number of earlier reports and any interval (inductive step with up to 3 pending values); all values of 2 batches of any size; enumerated histories of 30 reports",
     "tests report a handful of values in one epoch",
     ["reagent/core/tracker.py", "reagent/core/observers.py", "reagent/core/aggregators.py", "reagent/workflow/reporters/reporter_base.py"],
     [("interval", "IntervalAggregatingObserver.update"), ("aggregation", "MeanAggregator, FunctionsByActionAggregator, ActionCountAggregator"), ("notification", "ObservableMixin.notify_observers")],
     note="Histories and reporters are bounded concrete evaluations.")

prop("P41", "Evaluators measure held-out batches and leave the models as they were",
     "An evaluator reports the losses of the batch it is given, in evaluation mode, and puts the mode back; evaluation never changes parameters or the batch. Sequence models report the mean planned value of each action and the share of rows planning it, reward models mean loss, rewards and predictions of all batches and keep the model of the lowest loss as it was then, ranking policies slate probabilities, advantages over the baseline and data pages of every batch of this evaluation, and world models the loss increase when one feature is replaced by its typical value and the deviation of predictions under exchanged actions.",
     [I, H], "enumerated: up to 5 rows, 3 steps, 3 actions, features of up to 3 columns, 4 evaluation rounds",
     "tests run evaluators in training loops without looking at what they report",
     ["reagent/evaluation/seq2reward_evaluator.py", "reagent/evaluation/compress_model_evaluator.py", "reagent/evaluation/reward_net_evaluator.py", "reagent/evaluation/ranking_policy_gradient_evaluator.py", "reagent/evaluation/world_model_evaluator.py", "reagent/training/cem_trainer.py"],
     [("sequences", "Seq2RewardEvaluator.evaluate"), ("best model", "RewardNetEvaluator.evaluate_post_training"), ("rankings", "RankingPolicyGradientEvaluator.evaluate"), ("features", "FeatureImportanceEvaluator.evaluate")],
     level="exploration", technique="contracts on the real code, decided by bounded concrete evaluation of their pre- and postconditions (stated bound; not counted as proved)",
     note="Bounded: contracts evaluated on enumerated and random inputs within the stated bound. World-model evaluators always leave the model in training mode; sklearn-based listwise metrics cannot be imported here.")

prop("P42", "Configurations select and build what they say",
     "A configuration class has one field per configurable parameter of its constructor with its default, reaches the constructor unchanged, is equal and hashes alike when its values are, and mutable defaults are never shared. A union offers exactly the registered classes and yields the one selected, refusing none or several. Optimisers are built with the configured arguments on exactly the given parameters, each step followed by every schedule once; network builders build the configured layers, activations, normalisation, dropout and output size for the normalised input width; serialised parameters, with objects within objects, read back equal; a model's features are looked up by their own ids and names, each used once.",
     [I, C], "enumerated: 7 optimisers, 13 network builders with up to 2 layers, registries of 5 classes, constructors of 7 parameters",
     "tests build default configurations and check types or shapes",
     ["reagent/core/configuration.py", "reagent/core/registry_meta.py", "reagent/core/tagged_union.py", "reagent/optimizer/optimizer.py", "reagent/optimizer/union.py", "reagent/net_builder/discrete_dqn/fully_connected.py", "reagent/net_builder/quantile_dqn/quantile.py", "reagent/net_builder/continuous_actor/fully_connected.py", "reagent/json_serialize.py"],
     [("configuration", "make_config_class, resolve_defaults"), ("union", "RegistryMeta.fill_union, TaggedUnion.value"), ("optimiser", "OptimizerConfig.make_optimizer, Optimizer.step"), ("networks", "build_q_network, build_actor, build_value_network")],
     level="exploration", technique="contracts on the real code, decided by bounded concrete evaluation of their pre- and postconditions (stated bound; not counted as proved)",
     note="Bounded: contracts evaluated on enumerated and random inputs within the stated bound. Built networks are compared with the directly constructed architecture, whose own function P38 and P29 decide. Configured torch schedules cannot be built with the installed torch (its schedule base class was renamed), nor Adamax and SparseAdam.")

prop("P43", "Evolution strategies follow reward-weighted perturbations, alike on all machines",
     "Each generation's children are the parent plus normal perturbations of the mutation power, drawn alike on every machine with the same seed and iteration. The gradient handed to the optimiser is minus the mean over children of standardised reward times perturbation over the mutation power, and no step is made when all rewards are alike. Rewards are averaged over the machines, so their parents stay equal.",
     [I, H], "all rewards, parents, perturbations, tensor sizes and mutation powers with populations of 2 and 3; enumerated runs of 3 machines",
     "the module cannot even be imported by tests outside the company",
     ["reagent/training/gradient_free/evolution_pool.py", "reagent/training/gradient_free/es_worker.py"],
     [("gradient", "EvolutionPool.apply_global_reward"), ("children", "EvolutionPool.populate_children"), ("averaging", "EsWorker.run_epoch")],
     note="Populations bounded (2 and 3); rewards whose deviation is within 0.05 percent of the threshold 1e-6 are excluded. Multi-machine runs are bounded concrete evaluations with a stand-in for all_reduce; an internal package the module imports but never uses is stubbed.")

prop("P44", "Slate reward models see the shown items in order, the rest, and their own state",
     "A slate reward model predicts one reward per row from that row alone: its state, its candidates and the shown items in the order shown, with no item lost, repeated or moved, and without altering its input. The recurrent model reads the shown items, then the remaining candidates in order, then an end vector; the attention model reads a start vector and the shown items with attention to the candidates the mask allows. Wrapped or served models answer as the model itself on the normalised input, serving showing the first candidates in order.",
     [I, C], "any number of rows and features for what wrapped and served models are given (up to 3 candidates); random networks of up to 2 layers and 5 candidates",
     "tests never run these models on more than a prototype",
     ["reagent/models/seq2slate_reward.py", "reagent/models/seq2slate.py", "reagent/prediction/predictor_wrapper.py", "reagent/net_builder/slate_reward/slate_reward_gru.py"],
     [("reading order", "Seq2SlateGRURewardNet._convert_seq2slate_to_reward_model_format"), ("attention", "MultiHeadedAttention.forward, attention"), ("serving", "Seq2SlateRewardWithPreprocessor.forward")],
     note="What wrapped and served models are given is proved for up to 3 candidates; the networks are bounded concrete evaluations against an independent per-row recomputation from their weights.")

prop("P45", "Off-policy evaluation records every experiment, over maps that stay consistent",
     "An evaluator records for every estimator one result of each experiment it takes part in, leaving out estimates that are not finite, and the same results with any number of workers as with none; a report gives the means of what was recorded and the root mean square, mean and variance of its differences. The maps of actions and items to values that estimators share agree with themselves however they were built and after every change: value, place, order, iteration, probability and sampling of a key say the same; replacing values makes a new map and leaves the old one; equal keys are one key.",
     [I, H], "maps of up to 3 keys with any values; evaluations of up to 6 experiments, 4 estimators and 4 workers",
     "tests build a few maps by hand and never use workers",
     ["reagent/ope/estimators/estimator.py", "reagent/ope/estimators/types.py"],
     [("evaluator", "Evaluator.evaluate, run_evaluation"), ("maps", "Values, Objects, Items"), ("keys", "TypeWrapper")],
     note="Maps of values are proved for any values and up to 3 keys; evaluators, reports and spaces of actions are bounded concrete evaluations, with the workers run in the checking process.")

prop("P46", "Replayed experience exported for offline training is every transition, once",
     "Exporting a replay buffer as a table for the offline pipelines writes every transition the buffer holds exactly once, none invented, each row with its own state features, action, reward, probability, episode and sequence number; with discrete actions a row offers every action seen, or none when its episode ends there.",
     [I, H], "up to 6 episodes of up to 5 steps, finished or not, in buffers that keep all of them or only the last few",
     "no test exports a buffer",
     ["reagent/replay_memory/utils.py"],
     [("export", "replay_buffer_to_pre_timeline_df")],
     note="Bounded concrete evaluations against the log of what was stored; the export goes through pandas, whose frames the symbolic phase cannot carry.")

prop("P47", "A saved trainer restores everything it learned",
     "The state a trainer saves holds every network it trains or follows - critics, actors, their targets, baselines and evaluation networks, where it has them - and every parameter it learns besides. Loaded into another trainer of the same configuration it makes every one of them as it was saved, leaves the saved trainer alone, and shares nothing with it; a state that lacks a part is refused.",
     [I, C], "16 trainers with and without their optional networks; random parameters and statistics",
     "no test saves and loads a trainer",
     ["reagent/training/trainer.py", "reagent/training/reinforce.py", "reagent/training/ppo_trainer.py", "reagent/training/ranking/seq2slate_sim_trainer.py"],
     [("saving", "Trainer.state_dict, load_state_dict, warm_start_components"), ("networks", "the trainers' constructors")],
     note="Bounded concrete evaluations: what a constructor stores and what a state dictionary holds is looked up by name at run time, in torch modules.")

prop("N01", "Offline data pipelines produce the logged transitions",
     "The Spark pipelines and workflow jobs that join logged events into timelines, sample them and split training from evaluation data deliver every logged transition once, with its own next state and next action.",
     [I, H], "all event logs and table partitions", "tests need a Spark cluster",
     ["reagent/workflow/training.py", "preprocessing/src/main/scala/com/facebook/spark/rl/Timeline.scala"], [("timeline", "Timeline.scala")],
     na="The code is Scala and PySpark; neither a Scala compiler nor pyspark is installed, so nothing of it can be executed or annotated here, and a re-written look-alike would be a model.")

prop("N02", "The serving platform routes decisions and joins rewards",
     "The decision service applies its operator graph in dependency order, and joins each reward to the decision that caused it.",
     [I, H], "all decision plans, requests and feedback orders", "tests need the platform's third-party libraries",
     ["serving/reagent/serving/core/DecisionService.cpp"], [("operators", "DecisionService.cpp")],
     na="The C++ service depends on Folly, Thrift and libtorch headers that are not installed; it does not compile here, and no deductive verifier for C++ of this kind is available offline.")
