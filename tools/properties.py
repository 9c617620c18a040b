TRUST = 'Exploration, not proof: it covers the generated inputs counted in the evidence. Trusts NumPy/SciPy/scikit-learn, Hypothesis, and the reference model of the check.'

prop('C01', 'The dataset partitions stay a partition, each point with its own row',
     'After any sequence of moves (to labeled, to inferred, to unknown, removal of all inferred points, reset), accepted or rejected, every data point is in exactly one of the labeled, '
     'inferred and unknown sets, where the moves put it. Every view (whole data, labeled, unlabeled, inferred, unknown, selections by index, samples) shows each point under its own index with its own row. '
     'A point which may not be moved is rejected with an error, without damaging the dataset.',
     ['histories', 'inputs'], 'all sequences of moves, valid and invalid, over any data, own or default indexes, copied or in-place data',
     'tests/test_partitioned.py replays a few fixed sequences of moves on one dataset; in-place swaps and index bookkeeping go wrong only after particular histories.',
     ['aideme/explore/partitioned.py', 'aideme/explore/index.py'],
     [('swap of rows and positions', 'aideme/explore/partitioned.py'), ('partition boundaries', 'aideme/explore/partitioned.py')],
     'model-based property testing: random histories against a dictionary model', TRUST)

prop('C02', 'Labels stay with the points they were given to',
     'Whatever points are moved, relabeled or rejected, the labels and partial labels of the labeled set, of the training sets (all, or last batch) and of the predicted user labels are '
     'those which the user gave to the same index, paired with the row of that index. Points which are not labeled get the prediction of the learner, and points moved out of the labeled set lose their label.',
     ['histories', 'inputs'], 'all histories of moves with final and partial labels, including relabeling and rejected batches',
     'Existing tests check labels after one or two moves; misalignment needs a point leaving the labeled set, a relabel, or a rejected batch in the middle of a history.',
     ['aideme/explore/partitioned.py', 'aideme/explore/labeledset.py'],
     [('label storage beside the partition', 'aideme/explore/partitioned.py'), ('predict_user_labels', 'aideme/explore/partitioned.py')],
     'model-based property testing: random histories against a dictionary of labels', TRUST)

prop('C03', 'A reset is a fresh start, and callers keep their data',
     'After clearing a dataset or an exploration manager, everything behaves as on a newly built one. Neither data (when copied), indexes, label sets, nor lists of callbacks or '
     'criteria given by the caller are modified, and later changes of them by the caller have no effect.',
     ['histories', 'inputs', 'configurations'], 'all histories before and after the reset, and all exploration configurations',
     'Tests never compare a reset object with a new one after an arbitrary history, nor look at the arguments after an exploration.',
     ['aideme/explore/partitioned.py', 'aideme/explore/manager.py', 'aideme/explore/explore.py', 'aideme/utils/validation.py'],
     [('clear', 'aideme/explore/partitioned.py'), ('clear', 'aideme/explore/manager.py'), ('copy', 'aideme/explore/explore.py')],
     'differential property testing: reset object versus new object over random histories; snapshots of arguments', TRUST)

prop('C04', 'Label collections answer lookups by index and combine consistently',
     'A collection of labels keeps final label, partial labels and index of each entry together under selection by index or position, concatenation, conversion and iteration. '
     'Shapes, defaults (partial labels default to the final one, indexes to positions) and statistics follow from the content, and inconsistent input is rejected.',
     ['inputs', 'histories'], 'all label vectors, numbers of subspaces, indexes, and accepted container types',
     'Tests use a few literal label sets, mostly with default indexes.',
     ['aideme/explore/labeledset.py', 'aideme/explore/index.py'],
     [('LabeledSet', 'aideme/explore/labeledset.py')],
     'property-based testing against dictionaries', TRUST)

prop('C05', 'An exploration asks each point at most once and records its true labels',
     'During a run no point is ever asked twice, each batch has the requested size as long as enough points are left, and, if nothing stops it, the run goes on until everything is labeled. '
     'With subsampling, the learner chooses among a subsample of the unlabeled points of the requested size, otherwise among all of them. The recorded user labels are the true labels of the asked indexes, and the learner is trained on exactly the labels given so far, each with its own row.',
     ['histories', 'configurations', 'inputs'], 'all explorations: pools, samplers, batch sizes, subsampling, own indexes, partial labels, noise, stopping rules',
     'There is no end-to-end test of the exploration loop.',
     ['aideme/explore/explore.py', 'aideme/explore/manager.py', 'aideme/explore/partitioned.py', 'aideme/active_learning/active_learner.py'],
     [('run loop', 'aideme/explore/explore.py'), ('get_next_to_label / update', 'aideme/explore/manager.py')],
     'property-based testing of whole runs with recording doubles, judged by an independent recomputation', TRUST)

prop('C06', 'Phases, callbacks and stopping follow the configuration',
     'Initial sampling lasts exactly until both labels were seen (or does not happen without sampler), the learner is only trained in the exploration phase, and noise is only injected there. '
     'Callbacks run at the first iteration, every callback_skip iterations, and at the last one, and their metrics are reported at those iterations only. '
     'A run stops at the first iteration at which all points are labeled or one of the criteria holds, and not before.',
     ['configurations', 'histories', 'inputs'], 'all explorations and all sequences of calls to an exploration manager',
     'Phase changes, skipped callbacks and stopping interact; the tests check the manager with a single fixed configuration.',
     ['aideme/explore/manager.py', 'aideme/explore/explore.py', 'aideme/utils/convergence.py'],
     [('phase', 'aideme/explore/manager.py'), ('convergence', 'aideme/utils/convergence.py'), ('callbacks', 'aideme/explore/manager.py')],
     'property-based testing of whole runs, recomputing phases, callbacks and stop from the record', TRUST)

prop('C07', 'Runs are reproducible and independent of each other',
     'A run with a given seed yields the same points, labels and metrics (except execution times) whatever ran before with the same learner or the same exploration object, complete or '
     'abandoned, whatever the global random state, and at whatever place among the repeats. The number of seeds must match the number of repeats.',
     ['histories', 'configurations', 'inputs'], 'all learners exported by the library, explorations, seeds, orders of runs',
     'No test runs the same exploration twice; state left in a learner, cache or criterion only shows in a second run.',
     ['aideme/explore/explore.py', 'aideme/utils/random.py', 'aideme/active_learning/'],
     [('set_random_state', 'aideme/utils/random.py'), ('clear of every learner', 'aideme/active_learning/'), ('metric flush', 'aideme/explore/explore.py')],
     'metamorphic property testing: run versus re-run in other contexts', TRUST)

prop('C08', 'Injected noise flips labels consistently, at the rate and time configured',
     'Noise injection keeps the points and their order, yields 0/1 labels whose final label is positive exactly if all partial labels are, and leaves the user labels untouched. '
     'Each label is flipped with the configured probability, never before the configured iteration, and the run trains on the noisy labels while recording both.',
     ['inputs', 'configurations', 'histories'], 'all label sets, numbers of subspaces, probabilities and iterations',
     'Random behaviour: a single sample cannot tell a wrong rate or an occasional inconsistent row.',
     ['aideme/utils/noise.py', 'aideme/explore/explore.py'], [('random_noise_injector', 'aideme/utils/noise.py')],
     'property-based testing with per-case invariants and a binomial test with vanishing false alarm rate', TRUST)

prop('C09', 'Initial samplers return what they promise',
     'The stratified sampler returns distinct indexes with exactly the requested numbers of positive and negative points (negative in every subspace if requested), each candidate being possible; the random '
     'sampler returns distinct unlabeled points, and fixed samplers exactly the given points. Impossible requests are rejected.',
     ['inputs', 'configurations', 'histories'], 'all label sets, requests and dataset partitions',
     'The samplers have no tests; a candidate excluded or included wrongly is only visible over many draws.',
     ['aideme/initial_sampling.py'], [('stratified_sampler', 'aideme/initial_sampling.py'), ('random_sampler', 'aideme/initial_sampling.py')],
     'property-based testing against hand counted candidates, sampled repeatedly', TRUST)

prop('C10', 'Metrics are what their names say, and the three-set metric is a lower bound',
     'Classification metrics and training metrics equal the scores counted by hand from the true and predicted labels of the same points, the prediction entropy is the mean binary entropy, and scores with zero denominators are zero. '
     'The three-set metric counts the points known and unknown to a polytope model, and never exceeds its F-score when the user region is convex.',
     ['inputs', 'histories', 'configurations'], 'all predictions, probabilities, partitions; all explorations of convex regions with the dual space model',
     'Metrics are not tested; index misalignment between truth and predictions needs a shuffled partition, and the bound holds at every iteration of every run.',
     ['aideme/utils/metrics.py'], [('classification_metrics', 'aideme/utils/metrics.py'), ('three_set_metric', 'aideme/utils/metrics.py')],
     'property-based testing against hand computed scores; inequality between metrics of whole runs', TRUST)

prop('C11', 'The metric logger accumulates values per key until it is flushed',
     'Values logged under a key are overwritten, summed or appended as requested, and measuring the execution time of a function changes neither its result nor its exceptions. '
     'A flush forgets everything logged before, without changing metrics which were read earlier.',
     ['histories'], 'all sequences of log, time, read and flush operations',
     'The logger is global state shared by all components; leaks only show across sequences of operations.',
     ['aideme/utils/metric_logger.py'], [('log_metric / flush', 'aideme/utils/metric_logger.py')],
     'model-based property testing of operation sequences', TRUST)

prop('C12', 'The polytope model is certain exactly where convexity implies the label',
     'After any sequence of labeled batches, points in the convex hull of the positive points are predicted positive, points from which a negative point is shadowed by the positive hull are predicted negative, '
     'all others unknown (up to the tolerance the model was given). The order and grouping of labels do not matter, contradictions are reported, and copies or restored pickles behave like the original.',
     ['inputs', 'histories'], 'all labeled points in any dimension up to 5, including degenerate ones, and all orders of updates',
     'tests/test_polytope.py, test_convex.py use a dozen points in one and two dimensions; degenerate hulls, scales and orders of updates are not reached.',
     ['aideme/active_learning/dsm/polytope.py', 'aideme/active_learning/dsm/convex/convex.py', 'aideme/active_learning/dsm/convex/geometry.py', 'aideme/active_learning/dsm/convex/one_dim_convex.py'],
     [('Polytope', 'aideme/active_learning/dsm/polytope.py'), ('ConvexHull / ConvexCone', 'aideme/active_learning/dsm/convex/convex.py')],
     'differential property testing against a linear programming oracle', TRUST + ' Points within about 1e-6 of a boundary may get either label.')

prop('C13', 'Negative-convex and persistent polytopes mirror and switch as documented',
     'The model for convex negative regions is the mirror image of the positive one with labels swapped. The persistent model tries both hypotheses, follows the one not contradicted, and fails exactly if both are contradicted.',
     ['inputs', 'histories'], 'all labeled points and orders of updates, convex, co-convex or neither',
     'The switch happens in the middle of a history and depends on the order of batches.',
     ['aideme/active_learning/dsm/polytope.py'], [('FlippedPolytope', 'aideme/active_learning/dsm/polytope.py'), ('PersistentPolytope', 'aideme/active_learning/dsm/polytope.py')],
     'differential property testing against a linear programming oracle', TRUST + ' Points within about 1e-6 of a boundary may get either label.')

prop('C14', 'Categorical and multi-set models know exactly what the labels imply',
     'For one-hot encoded values and for sets of elements (positive iff all elements are), after any consistent labels a model answers positive, negative or unknown exactly as implied by them, contradictions are reported, '
     'and the learners built on them count unknowns as probability one half and see all labels given so far.',
     ['inputs', 'histories'], 'all histories of labeled values and sets over up to 5 elements',
     'Elimination chains need several labels in a particular order; the tests hold two or three fixed ones.',
     ['aideme/active_learning/dsm/polytope.py', 'aideme/active_learning/version_space/categorical.py'],
     [('CategoricalPolytope / MultiSetPolytope', 'aideme/active_learning/dsm/polytope.py'), ('learners', 'aideme/active_learning/version_space/categorical.py')],
     'property-based testing against enumeration of all possible sets of positive elements', TRUST)

prop('C15', 'The factorized polytope is the conjunction of its subspaces',
     'With a factorization, a point is predicted positive iff positive in all subspaces, negative iff negative in some, unknown otherwise; each subspace learns from its own partial labels and attributes whatever happens in the others, '
     'and an update reports failure iff some subspace contradicts. Lengths of modes and partitions must match.',
     ['inputs', 'configurations', 'histories'], 'all partitions, modes per subspace, and batches of partial labels',
     'There are no tests of the factorized model; misassigned columns or skipped subspaces need several subspaces and a conflict in some of them.',
     ['aideme/active_learning/dsm/model.py'], [('FactorizedPolytopeModel', 'aideme/active_learning/dsm/model.py')],
     'differential property testing against one separate model per subspace', TRUST)

prop('C16', 'The dual space model trusts its polytope and asks only about the unknown',
     'The dual space model predicts with the polytope wherever it is certain and with its learner elsewhere; inferred points are those with certain labels, and its learner is trained on the user labels plus the inferred labels. '
     'The next points asked are never inferred ones, and after an irreparable contradiction the model falls back to its learner alone.',
     ['inputs', 'configurations', 'histories'], 'all pools, convexity modes, factorizations, batches, subsample sizes and contradictions',
     'No test runs a dual space model; what is inferred depends on the whole history.',
     ['aideme/active_learning/dsm/base.py', 'aideme/active_learning/dsm/dsm.py', 'aideme/active_learning/dsm/model.py'],
     [('fit_data / next_points_to_label', 'aideme/active_learning/dsm/base.py')],
     'model-based property testing with a recording inner learner', TRUST)

prop('C17', 'Inference derives exactly the partial labels the answers imply',
     'After any sequence of labeled points over categorical subspace values, the inference engine knows the partial labels implied by the answers (a positive point is positive in all subspaces; a negative point positive in all but one is negative in that one), '
     'the labels it gives to other points follow from them, and contradictions are reported.',
     ['inputs', 'histories'], 'all histories of labels over up to 3 subspaces with up to 3 values each',
     'tests/test_inference.py follows two fixed histories; chains of deductions depend on the order.',
     ['aideme/active_learning/inference/inference.py'], [('Inference', 'aideme/active_learning/inference/inference.py')],
     'property-based testing against enumeration of all assignments', TRUST)

prop('C33', 'The command line exploration records what the user typed',
     'The dialog shows the points being asked, accepts exactly one 0/1 label per point, asks again after malformed answers, records the answers in the order shown, offers to continue after each batch and stops when refused, '
     'with convergence, or when nothing is left to label. Callbacks run at the first batch, every callback_skip batches and at the last one, and criteria see their metrics; the learner is offered at most as many points as the subsampling allows.',
     ['histories', 'inputs'], 'all scripts of typed answers, batch sizes and pools',
     'There is no test of the dialog.',
     ['aideme/explore/command_line_explore.py'], [('CommandLineExploration', 'aideme/explore/command_line_explore.py')],
     'property-based testing with generated scripts of answers', TRUST)

prop('C18', 'Version space samples satisfy all labels, uniformly',
     'Every hit-and-run sample is a hypothesis of norm at most one which classifies all labeled points correctly, whatever the sampler configuration and whatever version spaces were sampled before with the same sampler. '
     'Samples follow the uniform distribution of the version space, those of separate chains are independent, and a cleared sampler behaves like a new one.',
     ['inputs', 'configurations', 'histories'], 'all separable label sets growing over time, fixed or growing dimension, chains, warm-up, rounding and caching options',
     'tests/test_version_space.py uses tiny one-shot examples; caches only matter over several calls, and a distribution cannot be unit tested.',
     ['aideme/active_learning/version_space/hit_and_run/hit_and_run.py', 'aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py'],
     [('HitAndRunSampler', 'aideme/active_learning/version_space/hit_and_run/hit_and_run.py')],
     'property-based testing with membership oracle, and Kolmogorov-Smirnov tests against rejection sampling (p < 1e-9)', TRUST + ' Separable labels with a margin.')

prop('C19', 'Ellipsoid cuts and roundings enclose the version space',
     'A cut yields the smallest ellipsoid around the remaining part, with consistent factors, and is refused or rejected when shallow or empty. The rounding ellipsoid contains the version space, and once converged its shrunk copy is contained in the cone; '
     'membership, interior points, separating half-spaces, cuts tangent to the unit ball and chords of the version space are correct.',
     ['inputs', 'histories', 'configurations'], 'all sequences of cuts, cones and rounding options in dimension 2 to 6',
     'Rank-one updates of factors drift or lose points only after particular sequences of cuts; not tested at all.',
     ['aideme/active_learning/version_space/hit_and_run/ellipsoid.py', 'aideme/active_learning/version_space/hit_and_run/rounding.py', 'aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py'],
     [('cut', 'aideme/active_learning/version_space/hit_and_run/ellipsoid.py'), ('fit', 'aideme/active_learning/version_space/hit_and_run/rounding.py')],
     'property-based testing against closed formulas and sampled points', TRUST)

prop('C20', 'Version space learners agree with every label they were given',
     'After training on separable labels, a linear or kernel version space learner assigns probability 0 or 1 to each labeled point according to its label, probabilities are vote fractions of its hypotheses, labels and ranks follow from them. '
     'The features used with a kernel have the kernel values as scalar products, decomposed or not, and each configuration option (samples, warmup, thinning, caches, rounding, intercept, kernel parameters) takes effect.',
     ['inputs', 'configurations', 'histories'], 'all separable label sets in growing batches, kernels and options',
     'Tests check a handful of fixed points and configurations; cached ellipsoids and samples make later trainings depend on earlier ones.',
     ['aideme/active_learning/version_space/base.py', 'aideme/active_learning/version_space/linear.py', 'aideme/active_learning/version_space/kernel.py'],
     [('DeterministicLogisticRegression', 'aideme/active_learning/version_space/linear.py'), ('KernelBayesianLogisticRegression', 'aideme/active_learning/version_space/kernel.py')],
     'property-based testing with consistency invariants and recorded features', TRUST)

prop('C21', 'Kernels and kernel features are the documented functions',
     'Kernel matrices and their diagonals hold the documented linear, Gaussian or polynomial kernel values for each pair of rows (plus the jitter where asked), and transformers give features with the training points '
     '(or an approximation whose scalar products are the kernel), per subspace if factorized; clones are independent, and bad parameters are rejected.',
     ['inputs', 'configurations'], 'all data, kernels, parameters, numbers of components and subspaces',
     'No test touches kernels; defaults, diagonals and clones are easily wrong for unusual shapes.',
     ['aideme/active_learning/kernel.py'], [('Kernel', 'aideme/active_learning/kernel.py'), ('KernelTransformer', 'aideme/active_learning/kernel.py')],
     'property-based testing against formulas evaluated pair by pair', TRUST)

prop('C22', 'The next point to label is a best ranked unlabeled point',
     'Selection returns an unlabeled point of minimum rank, among all unlabeled points or a random subsample of the requested size, together with its own row, and any of several equally ranked points may be chosen. '
     'Random sampling returns a batch of distinct unlabeled points, each of which may come up; the dataset is not changed.',
     ['inputs', 'histories', 'configurations'], 'all partitions of the data, ranking functions with ties, subsample and batch sizes',
     'No test of the selection; ties, subsampling and permuted partitions need many random states.',
     ['aideme/active_learning/active_learner.py', 'aideme/active_learning/random.py', 'aideme/active_learning/uncertainty.py', 'aideme/explore/partitioned.py'],
     [('next_points_to_label', 'aideme/active_learning/active_learner.py'), ('sample', 'aideme/explore/partitioned.py')],
     'property-based testing over dataset histories, with repeated selections', TRUST)

prop('C23', 'Classifier based learners rank by their published criterion',
     'Simple margin ranks by distance to the boundary of the machine trained on the labels, ratio margin by the ratio of the margins with the point labeled either way, query by disagreement prefers points on which learners biased by weakly weighted '
     'background points differ, uncertainty sampling follows the distance of the probability to one half. Labels and probabilities are those of the classifier trained on exactly the labels.',
     ['inputs', 'configurations', 'histories'], 'all labeled data, classifiers, kernels, weights and background sizes',
     'None of these learners is tested.',
     ['aideme/active_learning/margin.py', 'aideme/active_learning/query_by_disagreement.py', 'aideme/active_learning/uncertainty.py', 'aideme/active_learning/random.py'],
     [('rank', 'aideme/active_learning/margin.py'), ('fit_data', 'aideme/active_learning/query_by_disagreement.py')],
     'differential property testing against Scikit-learn models and recording classifiers', TRUST)


prop('C24', 'Factorized learners combine one learner per subspace',
     'A subspatial learner trains an independent learner per subspace, each on the columns and partial labels of its own subspace, and combines their labels, probabilities and ranks with the chosen connectors (AND, OR, product, loss, callable). '
     'Modes select the kind of learner for each subspace; changing the factorization or clearing starts afresh; bad modes and connectors are rejected.',
     ['inputs', 'configurations'], 'all partitions (overlapping, permuted, slices), partial labels, connectors, modes and losses',
     'No test uses a subspatial learner; swapped columns, a connector applied along the wrong axis, or shared learners only show with several differing subspaces.',
     ['aideme/active_learning/version_space/subspace.py', 'aideme/active_learning/margin.py', 'aideme/active_learning/version_space/categorical.py'],
     [('SubspaceLearner', 'aideme/active_learning/version_space/subspace.py'), ('SubspatialVersionSpace', 'aideme/active_learning/version_space/subspace.py')],
     'property-based testing with recording doubles per subspace, and differential testing against separately trained machines', TRUST)

prop('C25', 'Bayesian learners report Laplace posterior probabilities',
     'The probabilities of the Bayesian learners are those of the Laplace approximation of the logistic posterior (maximum a posteriori weights, Gaussian approximation, probit link), for linear, kernel and Gaussian process models, with or without '
     'intercept and with Gaussian or improper prior. Labels and ranks follow from them, later trainings forget earlier ones, exchanging the labels mirrors the probabilities.',
     ['inputs', 'configurations', 'histories'], 'all labeled data, kernels, priors and widths',
     'No test trains a Bayesian learner; wrong covariances still yield plausible probabilities.',
     ['aideme/active_learning/version_space/bayesian.py'],
     [('LaplaceSampler', 'aideme/active_learning/version_space/bayesian.py'), ('KernelLaplaceSampler', 'aideme/active_learning/version_space/bayesian.py')],
     'differential property testing against an independent Newton solver and dense Laplace formulas', TRUST + ' The Stan sampler is the subject of C39.')

prop('C26', 'The factorized loss is the likelihood, with its exact gradient',
     'The objective which a factorization learner minimizes is the mean negative log-likelihood of the product of the logistic functions of its subspaces plus the penalty, and its gradient is the exact derivative, for all weights up to margins of several hundreds, for '
     'dense data or given subspaces, with or without bias. Mini-batches pass over every labeled point equally often, and their gradients are those of the batch.',
     ['inputs', 'configurations'], 'all data, labels, weights, subspace structures, penalties and batch sizes',
     'tests/test_factorization checks a few small weights by finite differences; saturation, cancellation and batches are not reached.',
     ['aideme/active_learning/factorization/linear.py', 'aideme/active_learning/factorization/utils.pyx', 'aideme/active_learning/factorization/optimization.py'],
     [('compute_loss / compute_grad', 'aideme/active_learning/factorization/linear.py'), ('numerics', 'aideme/active_learning/factorization/utils.pyx')],
     'differential property testing against 60-digit arithmetic', TRUST)

prop('C27', 'Penalties are the published norms, with matching gradient and proximal operator',
     'L1, L2, group (row norm), sparse group lasso and Huber penalties have the value of their definition, with its derivative as gradient. The proximal operator is the minimizer of penalty plus squared distance, and a subgradient is accepted iff it is one, '
     'also with zero rows and feature groups; non-positive penalties are rejected.',
     ['inputs', 'configurations'], 'all weight matrices (including zero rows and entries), groups, penalties and step sizes',
     'tests check a few matrices; group and zero-row cases are where the formulas degenerate.',
     ['aideme/active_learning/factorization/penalty.py', 'aideme/active_learning/factorization/utils.pyx'],
     [('PenaltyTerm', 'aideme/active_learning/factorization/penalty.py')],
     'property-based testing against definitions, and optimality of the proximal point among generated challengers', TRUST)

prop('C28', 'Optimizers follow their published update rules and stopping criteria',
     'Gradient descent with momentum, Adam, FISTA and proximal gradient produce exactly the iterates of their published rules with the scheduled step sizes, stop at the first iterate meeting a tolerance or at the iteration limit, and report it. '
     'On convex functions each, and BFGS, reaches the minimum; the line search never increases the function; a second run is independent of the first, and the starting point is not modified.',
     ['inputs', 'configurations', 'histories'], 'all convex functions, starting points, step sizes, schedules, tolerances and limits',
     'tests only check the end result on one quadratic; wrong bias correction, stale momentum or off-by-one schedules still converge.',
     ['aideme/active_learning/factorization/optimization.py', 'aideme/active_learning/factorization/step_size_scheduler.py'],
     [('minimize', 'aideme/active_learning/factorization/optimization.py'), ('schedulers', 'aideme/active_learning/factorization/step_size_scheduler.py')],
     'differential property testing against an independent implementation of the rules', TRUST)

prop('C29', 'Factorization learning keeps the best model and extracts its structure',
     'Training keeps the restart with the lowest loss, starts at the given points, respects the given subspaces, and with one subspace finds the optimum of logistic regression with any optimizer. Pruning drops exactly the subspaces with negligible weights or '
     'positive everywhere; an attribute is relevant iff its (group) share of the weights is above average, the factorization consists of the maximal attribute sets, and refinement of a model near the truth recovers the true subspaces and partial labels.',
     ['inputs', 'configurations'], 'all data, weights, structures, restarts, thresholds and feature groups',
     'Tests check single examples of training; none covers pruning, relevant attributes or refinement.',
     ['aideme/active_learning/factorization/linear.py', 'aideme/active_learning/factorization/learn.py'],
     [('fit', 'aideme/active_learning/factorization/linear.py'), ('prune_irrelevant_subspaces / compute_relevant_attributes / compute_factorization', 'aideme/active_learning/factorization/learn.py')],
     'property-based testing with scripted optimizers, optimality challengers, and recovery of planted structures', TRUST)

prop('C30', 'Partition selectors return the best partition they may choose',
     'The brute force selector returns a partition of lowest loss among all partitions within the bounds on number and size of the parts, or rejects impossible bounds. The greedy selector, starting from single attributes, performs the best improving merge '
     'within the size bound as long as there is one, with warm starts if asked.',
     ['inputs', 'configurations'], 'all losses over the partitions of up to 6 attributes, all bounds',
     'There are no tests of the selectors; enumeration gaps need partitions of several attributes.',
     ['aideme/active_learning/factorization/partitioning/learn.py'], [('BruteForceSelector', 'aideme/active_learning/factorization/partitioning/learn.py'), ('GreedySelector', 'aideme/active_learning/factorization/partitioning/learn.py')],
     'model-based property testing against enumeration of all partitions', TRUST)

prop('C31', 'The partition learner fits products of logistic models over given partitions',
     'The factorized linear classifier predicts with the product of the logistic functions of its subspaces, each over its own attributes and intercept, at any margin. The function minimized in training is its mean negative log-likelihood with exact '
     'gradient, one subspace gives logistic regression, and selection with this learner finds no worse partition than those within reach.',
     ['inputs', 'configurations'], 'all partitions (overlapping or partial), weights, data and labels',
     'There are no tests of the partition learner.',
     ['aideme/active_learning/factorization/partitioning/linear.py', 'aideme/active_learning/factorization/partitioning/learn.py'],
     [('FactorizedLinearClassifier', 'aideme/active_learning/factorization/partitioning/linear.py'), ('FactorizedLinearLearner', 'aideme/active_learning/factorization/partitioning/linear.py')],
     'differential property testing against formulas in 60-digit arithmetic and Scikit-learn', TRUST)

prop('C32', 'Swap learners change phases, warm start and adopt factorizations as configured',
     'The swap learner behaves as its active learner until swap_iter, then as a factorization model trained on all points\' predictions (or the labels) once, and refined from its current weights at every later iteration, with pruning and iteration limits as configured. '
     'A learned factorization is adopted only after it stayed the same fact_repeat times and matches the user\'s, in the user\'s order, with the learned partial labels. The uncertainty sampler warm starts and phases in its penalty; clear() starts over.',
     ['histories', 'configurations', 'inputs'], 'all label histories and configurations of the swap learners',
     'No test runs a swap learner; phases are a function of the whole history.',
     ['aideme/active_learning/factorization/active_learning.py'],
     [('SwapLearner', 'aideme/active_learning/factorization/active_learning.py'), ('FactorizationManager', 'aideme/active_learning/factorization/active_learning.py'), ('FLMUncertaintySampler', 'aideme/active_learning/factorization/active_learning.py')],
     'model-based property testing over histories, with scripted optimizers and recording learners', TRUST)

prop('C34', 'Every exported learner runs in every exploration, consistently',
     'All modules can be imported and export what they announce. Any exported learner runs through explorations of any pool to the end (if nothing stops it), giving 0/1 labels, probabilities in [0, 1] in agreement with them, and ranks which are numbers, '
     'one per point, the same whether points are predicted together, one by one or in another order.',
     ['configurations', 'inputs', 'histories'], 'all exported learners and their options, pools, own indexes, subsampling, scales',
     'Most learners are never run by the tests, let alone to the last point of a pool.',
     ['aideme/__init__.py', 'aideme/active_learning/', 'aideme/explore/'],
     [('learners', 'aideme/active_learning/'), ('exports', 'aideme/__init__.py')],
     'property-based testing of whole explorations with invariants and metamorphic relations on predictions', TRUST)

prop('C35', 'Entropy reduction ranks by expected entropy; ALuMa columns are as defined',
     'The entropy reduction learner gives each point among those cutting its version space best the mean entropy of predictions expected after learning its label (computed on the sampled hypotheses and data sample), and every other point a worse rank; its hypotheses are those of a kernel version space with the same options. '
     'Every column of the ALuMa preprocessing is a random sign combination of the (kernel) coordinates plus sign noise, with the scales and number of columns required by margin, hinge loss and delta, scalar products being kept on average; '
     'the same seed gives the same result and invalid parameters are rejected.',
     ['inputs', 'configurations', 'histories'], 'all pools, histories, sample sizes, kernels, margins and bounds',
     'No test runs the learner or the preprocessing.',
     ['aideme/active_learning/entropy.py', 'aideme/active_learning/aluma.py'],
     [('EntropyReductionLearner.rank', 'aideme/active_learning/entropy.py'), ('aluma_preprocessing', 'aideme/active_learning/aluma.py')],
     'differential property testing against recomputation from votes, and enumeration of admissible columns', TRUST)

prop('C36', 'Compiled numerical routines are accurate for every magnitude of input',
     'The compiled log-sigmoid, log-probability, loss, gradient-weight and Huber routines return the value of their definition to nearly full precision for margins of any magnitude and sign, without overflow, '
     'cancellation or NaN, for any number of points and subspaces, and leave their input unmodified.',
     ['inputs'], 'all finite margins up to 700 in size, labels, thresholds and shapes',
     'Tests use margins of ordinary size, where naive formulas are right as well.',
     ['aideme/active_learning/factorization/utils.pyx'],
     [('compute_log_probas / compute_loss / grad_weights', 'aideme/active_learning/factorization/utils.pyx')],
     'differential property testing against 80-digit arithmetic (mpmath)', TRUST)

prop('C37', 'Every parameter is accepted on its domain and rejected outside of it',
     'Classes and functions with checked parameters (sample sizes, iteration limits, tolerances, penalties, probabilities, kernel parameters, names of kernels, strategies, modes and scores, callbacks) accept every value of the documented '
     'domain, bounds included as documented, and raise an error for zero, negative, fractional, infinite or missing values outside of it.',
     ['configurations', 'inputs'], 'all values of all validated parameters of the public classes and functions',
     'Tests try a few values of a few parameters.',
     ['aideme/utils/validation.py', 'aideme/'],
     [('assert_positive and others', 'aideme/utils/validation.py'), ('constructors', 'aideme/')],
     'property-based testing of a table of parameters and domains with boundary-biased values', TRUST)

prop('C38', 'Kernel factorization, interactions and SimplifiedSwapLearner are as configured',
     'The kernel factorization learner is the factorized linear model on kernel (or Nystroem) features of the training points, one feature set per given subspace, also after re-fitting. Interaction terms are all pairwise products (and squares if asked), '
     'reported under the right pair. The simplified swap learner behaves as the swap learner assembled from its parameters, with the documented schedule of refinement iterations.',
     ['inputs', 'configurations', 'histories'], 'all data, kernels, subspaces, starting points, weights and configurations',
     'No test covers these classes.',
     ['aideme/active_learning/factorization/kernel.py', 'aideme/active_learning/factorization/interaction.py', 'aideme/active_learning/factorization/active_learning.py'],
     [('KernelFactorizationLearner', 'aideme/active_learning/factorization/kernel.py'), ('add_interaction_terms', 'aideme/active_learning/factorization/interaction.py'), ('SimplifiedSwapLearner', 'aideme/active_learning/factorization/active_learning.py')],
     'differential property testing against gradient descent on kernel tables and hand-assembled learners', TRUST)

prop('C39', 'Stan based learners sample the documented model on the labeled data',
     'With sampler "stan", training samples a logistic model with the chosen prior (normal or Cauchy of the given width, or none) over exactly the labeled points or their kernel features, with intercept column if asked, for the requested number '
     'of draws, warm-up and thinning. Probabilities are averages of the logistic function over the draws; saved models are only reused for the same prior; unknown priors and bad settings are rejected.',
     ['inputs', 'configurations', 'histories'], 'all labeled data, kernels, priors and sampler settings',
     'No test creates a Stan learner.',
     ['aideme/active_learning/version_space/bayesian/stan.py', 'aideme/active_learning/version_space/bayesian/linear.py', 'aideme/active_learning/version_space/bayesian/base.py'],
     [('StanLogisticRegressionSampler', 'aideme/active_learning/version_space/bayesian/stan.py')],
     'property-based testing with a stand-in for Stan which interprets model code and data', TRUST + ' PyStan is replaced by a stand-in.')
