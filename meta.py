"""python3-vt meta.py: writes properties.jsonl and MANIFEST.json"""
from meta_lib import prop, main, NOT_APPLICABLE

BOUND = " Bounded runtime contracts on the real code stand beside the proof and are never counted as proved."
ASSUME = " Assumed: numpy/sklearn validation contracts listed in the evidence; reals for floats with a NaN flag; mathematical integers."

prop("P01", "Validation admits exactly the domain data its flags allow",
     "Validating samples with domain labels returns the samples and labels unchanged with one integer domain label per sample, and succeeds only when every domain present is permitted by the options given (source/target allowed, several of each, shared indices, restriction to listed domains). Data that breaks a permission, or arrays of mismatching lengths, are rejected with ValueError, and nothing else is rejected. When domain labels are missing they are derived as documented (masked labels are target, others source; target-only without labels) or refused if derivation is off.",
     ["inputs", "configurations"], "all lengths, label arrays, label signs and multiplicities, all combinations of the five permission flags",
     "The tests try a few arrays with one or two flag settings; the gate must be exact for every array and flag combination.",
     ["skada/utils.py", "skada/_utils.py"],
     [("check_X_y_domain", "skada/utils.py"), ("check_X_domain", "skada/utils.py"), ("_check_y_masking / _find_y_type", "skada/_utils.py")],
     "All paths of the two gates are proved for arrays of any length and all flags at once." + ASSUME + BOUND)

prop("P02", "Splitting by domain is an order-preserving partition",
     "Splitting arrays by source/target or per domain puts every sample in exactly one part, the part of its own domain label, keeps the input order inside each part, and keeps all arrays given together aligned. Sample and index listings per domain hold exactly the positions of that domain, and None stays None.",
     ["inputs"], "all arrays of any length, any integer domain labels, any number of companion arrays (two proved)",
     "Tests split a few fixed datasets; nothing lost, duplicated or misaligned must hold for every interleaving of domains.",
     ["skada/utils.py"],
     [("source_target_split", "skada/utils.py"), ("extract_source_indices", "skada/utils.py"),
      ("extract_domains_indices", "skada/utils.py"), ("per_domain_split", "skada/utils.py")],
     "Every obligation is discharged for all inputs, loops over domains by inferred summaries." + ASSUME + BOUND)

prop("P03", "Merging source and target arrays is the inverse of splitting",
     "Merging a source and a target array with domain labels puts the k-th source row at the k-th source position and the k-th target row at the k-th target position with its value unchanged; without domain labels source rows come first and the returned labels say which is which. Missing target (or source) labels are filled with the masking value of the label type, and inconsistent sizes, odd argument counts, mismatching feature counts or nothing to infer from raise ValueError.",
     ["inputs"], "all lengths, all interleavings of domains, integer or floating labels, missing halves",
     "Tests merge a few fixed pairs; the inverse must hold for every interleaving and for every mixture of dtypes.",
     ["skada/utils.py", "skada/_utils.py"],
     [("source_target_merge", "skada/utils.py"), ("_merge_domain_outputs", "skada/_utils.py")],
     "All obligations discharged for all inputs; dtype preservation is an obligation of its own." + ASSUME + BOUND)

prop("P04", "Target labels never reach a masking estimator's training",
     "An estimator fitted through a selector or pipeline that masks target labels never sees a target sample's label: estimators that handle domain labels receive the masking value for each target sample, all others are trained on the unmasked source samples only. Samples, labels, weights and domain labels handed to the estimator stay aligned with one another and in input order, and the caller's arrays are not changed by fitting. Turning masking off hands every label over unchanged.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, label values, classification and regression labels, selectors, with or without weights",
     "Tests compare accuracy on a few datasets; a leak of even one target label is invisible there.",
     ["skada/base.py", "skada/_utils.py", "skada/_pipeline.py"],
     [("BaseSelector._auto_mask_target_labels", "skada/base.py"), ("_remove_masked", "skada/_utils.py"),
      ("Shared.fit / SelectSource.fit / PerDomain.fit", "skada/base.py")],
     "Masking, removal and the selectors' fit are proved on recording estimators for all inputs; full pipelines by bounded runtime contracts." + ASSUME + BOUND)

prop("P05", "Selectors route each sample to its own domain's estimator and back",
     "Prediction and transformation through a selector give each sample the output of the estimator responsible for its domain, at that sample's own position and with its value intact, whatever the order or mixture of domains. Per-domain estimators are trained on exactly the samples of their domain, source/target selectors on exactly their side, in input order with labels aligned; adapter parameters produced by fit_transform stay aligned too. A domain without a fitted estimator is refused with ValueError.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, numbers of domains, selectors and prediction methods",
     "Tests use contiguous domains and one estimator kind; interleavings and mixed output types are not reached.",
     ["skada/base.py", "skada/_utils.py"],
     [("PerDomain._route_to_estimator / fit / fit_transform", "skada/base.py"), ("SelectSourceTarget", "skada/base.py"),
      ("SelectSource / SelectTarget / Shared", "skada/base.py"), ("_merge_domain_outputs", "skada/_utils.py")],
     "All obligations discharged for all inputs with uninterpreted estimators." + ASSUME + BOUND)

prop("P06", "Pipelines are built, parametrised and cloned as asked",
     "A pipeline built from estimators has one step per estimator in the given order (nested domain-aware pipelines flattened), every bare estimator wrapped in the requested selector, ready-made selectors and user-given names kept, automatic names distinct. Target labels are masked as requested for every bare step until a step that predicts target labels, and no longer from that step on. Reading and setting parameters and cloning pipelines or selectors preserve every parameter including masking; unsupported selectors and empty pipelines are refused.",
     ["inputs", "configurations"], "all step sequences (masking proved for any number of steps), selectors, names, flags and parameters",
     "Tests build a handful of pipelines; flags lost on cloning or for some order of steps are not seen.",
     ["skada/_pipeline.py", "skada/base.py"],
     [("make_da_pipeline / _wrap_with_selectors / _name_estimators", "skada/_pipeline.py"), ("BaseSelector.get_params / set_params", "skada/base.py")],
     "The masking switch is proved for any number of steps, wrapping and parameters for every kind of selector with symbolic flags; naming and whole pipelines by bounded runtime contracts." + BOUND)

prop("P07", "Domain-aware splitters give valid disjoint folds of both sides",
     "Every split yielded by the domain-aware splitters lists distinct valid positions, trains and tests on disjoint samples, and puts source and target samples on both sides with the sizes that test_size/train_size give for each (for the sampled part with under-sampling). Leave-one-domain-out uses exactly one target domain per split, excludes its source samples, leaves each domain out at most once and yields as many splits as announced; the stratified splitter keeps the share of every (label, domain) group. Impossible sizes are refused with ValueError, and a fixed random_state reproduces the splits.",
     ["inputs", "configurations"], "all sample counts, domain labels and interleavings, split sizes, seeds",
     "Tests iterate over one dataset and check shapes; overlap, leakage of the left-out domain or sizes off by one need other inputs.",
     ["skada/model_selection.py"],
     [("SourceTargetShuffleSplit._iter_indices", "skada/model_selection.py"), ("LeaveOneDomainOut.split / _iter_indices / get_n_splits", "skada/model_selection.py"),
      ("DomainShuffleSplit._iter_indices", "skada/model_selection.py"), ("StratifiedDomainShuffleSplit._iter_indices", "skada/model_selection.py")],
     "Source/target, leave-one-domain-out and per-domain splitters are proved for all inputs with an arbitrary random state; the stratified splitter, exact share per group and reproducibility only by bounded runtime contracts." + ASSUME + BOUND)

prop("P08", "Subsamplers draw aligned samples without repetition",
     "Fitting through a subsampler hands on exactly the requested number (or share) of distinct input samples, all of them when as many or more are asked for, each with its own label, domain label and weight; domain-wise subsamplers keep the share of each domain, the stratified one of each (domain, label) group, up to rounding. The caller's arrays stay unchanged, a fixed random_state reproduces the draw, transforming new data leaves every sample as it is, and the names the package exports exist.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, labels, weights, train sizes, seeds",
     "Tests compare shapes for two sizes; a misaligned label or weight keeps the shape.",
     ["skada/transformers.py", "skada/__init__.py"],
     [("Subsampler / DomainSubsampler / StratifiedDomainSubsampler.fit_transform", "skada/transformers.py"), ("__all__", "skada/__init__.py")],
     "Alignment, size and distinctness are proved for all inputs over assumed splitter contracts; shares, seeds and pipelines by bounded runtime contracts." + ASSUME + BOUND)

prop("P09", "Dataset packing keeps every domain's samples and masks targets",
     "A domain-aware dataset keeps every domain added, listed or merged under one distinct name and number. Packing returns each sample of each listed domain exactly once per role, in its domain's order, with its own label, labelled with the domain's number as source and the negated number as target; when masking is asked for, every target label (and every missing one) is the mask: NaN for floating labels, -1 otherwise, or the mask given, whatever the label type or array library. The requested return type is honoured, selection by name picks exactly that domain's samples, and the caller's arrays stay unchanged.",
     ["inputs", "configurations"], "all domain sizes, label types, role lists, masks and return types",
     "Tests pack two int-labelled domains; other dtypes, tensors, unlabeled domains and role orders are not reached.",
     ["skada/datasets/_base.py"],
     [("DomainAwareDataset.pack / pack_lodo", "skada/datasets/_base.py"), ("DomainAwareDataset.add_domain / merge", "skada/datasets/_base.py"), ("select_domain", "skada/datasets/_base.py")],
     "pack, pack_lodo and select_domain are proved for all sizes and labels with up to three domains (the number of domains is the bound); tensors, merging, naming by bounded runtime contracts." + ASSUME + BOUND)

prop("P10", "Reweighting adapters weight source samples by their documented ratio",
     "A reweighting adapter leaves the samples as they are and returns one weight per sample: for each source sample, at its own position, the value its method documents (target-over-source density or classifier ratio, counts of nearest neighbours, kernel combinations of the fitted coefficients), and the neutral value for target samples. Weights depend on the sample and the fit only, not on order or neighbours in the call; fitting again starts afresh, and neither parameters nor the caller's arrays change.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, samples, adapters",
     "Tests check that weights exist and that fitting works; a ratio upside down or weights at other samples' positions passes them.",
     ["skada/_reweight.py"],
     [("DensityReweightAdapter / GaussianReweightAdapter / DiscriminatorReweightAdapter", "skada/_reweight.py"), ("KLIEPReweightAdapter / NearestNeighborReweightAdapter", "skada/_reweight.py"),
      ("KMMReweightAdapter / MMDTarSReweightAdapter", "skada/_reweight.py")],
     "fit, fit_transform and compute_weights of all seven adapters are proved for all inputs over uninterpreted kernels, densities and classifiers; numerical values and whole pipelines by bounded runtime contracts." + ASSUME + BOUND)

prop("P11", "Weight optimisation respects the documented constraints",
     "The quadratic-programming solvers pose exactly the problem they are given and return a point satisfying its constraints with the objective's value at that point, no worse than other feasible points within the solver's accuracy, refusing constraints they cannot handle. Consequently learnt weights keep their documented constraints: KMM weights are non-negative, at most B, with a sum within Ns(1 +/- eps); KLIEP coefficients are non-negative with mean source weight one; MMDTarS weights lie in [0, 10].",
     ["inputs", "configurations"], "all problem sizes, matrices, bounds, iteration counts, starting points",
     "Tests solve one 3-variable problem; feasibility must hold after any number of iterations for any coefficients.",
     ["skada/utils.py", "skada/_reweight.py"],
     [("frank_wolfe / _qp_solve_frank_wolfe / _qp_solve_scipy / qp_solve", "skada/utils.py"), ("KMMReweightAdapter / KLIEPReweightAdapter / MMDTarSReweightAdapter._weights_optimization", "skada/_reweight.py")],
     "Frank-Wolfe's loop and KLIEP's projection loop are proved by loop invariants for every number of iterations; the scipy wrapper is proved to pose the stated problem, scipy's answer being assumed; optimality by bounded runtime contracts." + ASSUME + BOUND)

prop("P12", "Mapping adapters move source samples and leave targets untouched",
     "A mapping adapter (optimal transport, entropic, class-regularised, linear, MMD-LS) fits its map on exactly the source samples with their labels and the target samples, with the parameters it was given. Transforming replaces each source sample, at its own position, by its image under the fitted map and returns every target sample bit for bit, whatever the mixture, order or presence of the two sides, for fitted and for new samples; the MMD-LS map scales and shifts each sample by its own, its class's or its nearest fitted sample's coefficients and is no worse for its documented objective than no map. Fitting again starts afresh; parameters and the caller's arrays do not change.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, batches of one or both sides, adapters and their parameters",
     "Tests check output shapes on one contiguous dataset; rows at wrong positions, batches of one side or a lost parameter pass.",
     ["skada/_mapping.py"],
     [("BaseOTMappingAdapter.fit / transform / fit_transform", "skada/_mapping.py"), ("*OTMappingAdapter._create_transport_estimator", "skada/_mapping.py"),
      ("MMDLSConSMappingAdapter.fit / transform / _mapping_optimization", "skada/_mapping.py")],
     "fit, transform and parameter passing are proved for all inputs over an arbitrary transport (its own algorithm is assumed); MMD-LS transform is proved over real matrices; its torch optimisation and numerical values by bounded runtime contracts." + ASSUME + BOUND)

prop("P13", "Covariance alignment is the documented linear map of each sample",
     "CORAL maps every source sample x to (x - source mean) C_s^(-1/2) C_t^(1/2) and every target sample to x - target mean (no centring when assume_centered), with means and covariances of exactly the fitted source and target samples under the regularisation given; multi-domain Monge alignment maps each sample by its own domain's affine map, which sends that domain's mean and covariance to the barycenter's. Each output stands at its sample's position, depends on that sample, its domain and the fit only (not on the batch, its order or its numeric type), and the caller's arrays do not change.",
     ["inputs", "configurations"], "all sample counts, dimensions, domain interleavings, batches of either or both sides, regularisations and centring options",
     "Tests check that fitting and predicting work; a wrong mean, a transposed factor or batch-dependent centring passes.",
     ["skada/_mapping.py", "skada/_utils.py"],
     [("CORALAdapter.fit / transform / fit_transform", "skada/_mapping.py"), ("_sqrtm / _invsqrtm / _get_cov_mean", "skada/_mapping.py"),
      ("MultiLinearMongeAlignmentAdapter.fit / transform", "skada/_mapping.py"), ("_estimate_covariance", "skada/_utils.py")],
     "Proved for all inputs over opaque rows and matrices (each matrix factor named by what it was computed from); _get_cov_mean and the matrix square roots entry by entry. eigh, ledoit_wolf and POT's barycenter/mapping are assumed; numerical values and moments of the result by bounded runtime contracts." + ASSUME + BOUND)

prop("P14", "Subspace adapters project each sample onto the documented subspace",
     "Subspace alignment, TCA, transfer joint matching and transfer subspace learning return one row per sample, at that sample's position, which is its projection by the fitted map (source PCA aligned to the target PCA and target PCA; the kernels with the training samples times the fitted components; X W with W orthonormal), whatever the domain interleaving, and for new batches of sources, targets or both as for the fitted one. The fitted maps are those documented: PCAs of exactly the source and the target samples, TCA's leading eigenvectors of (I + mu K L K)^-1 K H K, TJM's generalized eigenvectors, a TSL solution no worse than its start; n_components, kernel, mu and the other parameters are used as given; caller arrays do not change and a refit forgets the previous fit.",
     ["inputs", "configurations"], "all sample counts, dimensions, domain interleavings, batches of either or both sides, numbers of components",
     "Tests check output shapes and that pipelines run; rows returned in another order than the samples (and so paired with the wrong labels) passed them.",
     ["skada/_subspace.py"],
     [("SubspaceAlignmentAdapter.fit / transform / fit_transform", "skada/_subspace.py"), ("TransferComponentAnalysisAdapter.fit / transform", "skada/_subspace.py"),
      ("TransferJointMatchingAdapter.fit / transform", "skada/_subspace.py"), ("TransferSubspaceLearningAdapter.fit / transform", "skada/_subspace.py")],
     "transform of the four adapters, and fit of subspace alignment and TCA, are proved for all inputs (over opaque rows, an uninterpreted symmetric kernel, matrix products up to associativity and distributivity); PCA, the linear solver and the eigensolver are assumed; the order of the eigenvalues, TJM's and TSL's optimisation by bounded runtime contracts." + ASSUME + BOUND)

prop("P15", "Optimal transport label propagation and JDOT follow the plan",
     "Label propagation solves one transport problem from exactly the source samples to the target samples under the metric, weights and regularisation given and labels each target sample with the class most of its mass comes from (classification) or with the mass-weighted mean of the source labels sent to it (regression), at its own position, source labels masked, samples unchanged. JCPOT labels every target sample among the source classes by its own transported mass. JDOT estimators alternate transport under (1 - alpha) normalised feature cost + alpha label cost with fitting a clone of the base estimator on target samples carrying transported labels and weights; predictions are the last fit's, and the base estimator and caller's arrays stay untouched.",
     ["inputs", "configurations"], "all sample counts, domain interleavings, classes, weights, alpha and iteration limits, metrics",
     "Tests check shapes and accuracy on one dataset; wrong labels for some samples, a class mixed up in the cost or ignored weights pass.",
     ["skada/_ot.py"],
     [("OTLabelPropAdapter.fit / fit_transform", "skada/_ot.py"), ("JCPOTLabelPropAdapter.fit / fit_transform", "skada/_ot.py"),
      ("get_jdot_class_cost_matrix / get_data_jdot_class / get_tgt_loss_jdot_class", "skada/_ot.py"), ("solve_jdot_regression / solve_jdot_classification", "skada/_ot.py"),
      ("JDOTRegressor / JDOTClassifier .fit / .predict / .score", "skada/_ot.py")],
     "Adapters, cost matrices, reweighted data and losses are proved for all inputs over an arbitrary transport plan and an arbitrary learner; the alternating solvers unrolled to 3 iterations (bounded); POT's solvers are assumed (optimality by bounded runtime contracts)." + ASSUME + BOUND)

prop("P16", "DASVM ends with a classifier trained on the target samples alone",
     "Fitting DASVM trains a clone of the base estimator on exactly the source samples with their labels, then repeats: drop from the training set the source samples farthest out, add the unlabelled target samples inside the margin nearest its border (at most k per class), take back those whose predicted label changed, retrain on the remaining source and added target samples with the labels of the latest classifier; it stops when no target sample is left in the margin or at max_iter, and finally trains on all target samples with the last predicted labels. Target labels are never used, predictions, probabilities, decisions and scores are the final classifier's, saved estimators and index sets are those of each step, and the base estimator and caller's arrays stay untouched.",
     ["inputs", "histories"], "all sample counts, domain interleavings, classifiers, k, iteration limits",
     "Tests check that fitting ends and save options give lists; a training set that mixes up positions or uses the wrong classifier's labels passes.",
     ["skada/_self_labeling.py"],
     [("DASVMClassifier.fit", "skada/_self_labeling.py"), ("DASVMClassifier._get_X_y / _get_decision / _find_points_next_step", "skada/_self_labeling.py"),
      ("DASVMClassifier.predict / predict_proba / decision_function / score", "skada/_self_labeling.py")],
     "Training sets, decisions and predictions are proved for all inputs over an arbitrary classifier; the choice of points for up to 3 points and the fit unrolled to 3 iterations are bounded; the classifier itself is assumed." + ASSUME + BOUND)

prop("P17", "Gradual adaptation trains on interpolations of transport-paired samples",
     "Fitting the gradual estimator computes one transport plan from the source to the target samples and keeps its alpha (n + m) largest coefficients (never more than all), or the largest of every row and column; at step t of n_steps it trains a clone of the base estimator on one sample per pair kept, lying t/n_steps of the way from the source to the target sample of the pair whatever their dtype, labelled by the classifier of the step before (the first being trained on the source samples). Predictions, probabilities and scores are the last classifier's; saved estimators and intermediate data are those of each step; the estimator given and the caller's arrays stay untouched, and refitting starts over.",
     ["inputs", "histories"], "all sample counts, domain interleavings, plans (ties included), alpha, step counts",
     "Tests check shapes on one dataset; ties in the plan, integer samples or labels from the wrong classifier are not seen.",
     ["skada/_gradual_da.py"],
     [("GradualEstimator._cut_off_gamma / _advanced_cut_off_gamma", "skada/_gradual_da.py"), ("GradualEstimator.generate_data_at_step", "skada/_gradual_da.py"),
      ("GradualEstimator.fit", "skada/_gradual_da.py"), ("GradualEstimator.predict / predict_proba / predict_log_proba / score", "skada/_gradual_da.py")],
     "The cut-offs (exact count and largest kept), interpolation and predictions are proved for all plans and samples; fit unrolled to 3 steps (bounded) over an arbitrary transport and classifier." + ASSUME + BOUND)

prop("P18", "Scorers score target predictions by their documented formula",
     "Every scorer of skada.metrics returns, times its sign, its documented formula: SupervisedScorer the scorer's value on the target samples and the target labels given; ImportanceWeightedScorer the metric on the source samples weighted by the normalized ratio of the two densities; PredictionEntropyScorer the reduced entropy, over target samples, of the predicted probabilities; SoftNeighborhoodDensity the mean entropy of the tempered similarity to the other target samples; DeepEmbeddedValidation the control-variate estimate over the source validation samples, each weighted by its own density ratio; CircularValidation the source scorer between source labels and labels predicted back by an estimator fitted with domains swapped and target pseudo-labels; MixValScorer the intra/inter cluster scores of mixed target pairs; MaNoScorer the normalized p-norm of probabilities. Target labels are never read except by SupervisedScorer, and estimators without what a scorer needs are refused.",
     ["inputs"], "all sample counts and values, domain labels and interleavings, estimators, signs, options",
     "Tests check that a score is between bounds on one dataset; a weight paired with another sample's error, a source domain labelled 0, shifted logits or a similarity that underflows give a plausible number.",
     ["skada/metrics.py"],
     [("SupervisedScorer._score", "skada/metrics.py"), ("ImportanceWeightedScorer._score / _fit / _normalize", "skada/metrics.py"), ("PredictionEntropyScorer._score", "skada/metrics.py"),
      ("SoftNeighborhoodDensity._score", "skada/metrics.py"), ("DeepEmbeddedValidation._score / cross_entropy_loss / _no_reduc_log_loss", "skada/metrics.py"), ("CircularValidation._score", "skada/metrics.py"),
      ("MixValScorer._score", "skada/metrics.py"), ("MaNoScorer._score / _get_criterion / _stable_softmax / _taylor_softmax", "skada/metrics.py")],
     "Proved for arbitrary estimators, densities and metrics (uninterpreted); three classes in the scorers that sum over classes; logarithm, exponential and entropy uninterpreted with their zero cases." + ASSUME + BOUND)
prop("P19", "Synthetic generators give the documented clusters, shifts and domains",
     "The generators of skada.datasets return n samples per cluster with their labels, both domains with their labels in the pack; the target is the source design under the documented shift (covariate: same law of the labels with resampled inputs; target: label proportions; concept: the shifted relation; subspace: a reflected axis; translated or scaled blobs; moons at the positions asked for), plus the noise asked for and nothing else; labels of multi-class, binary and regression designs are those of the cluster or law documented; every draw comes from the random state given, an int, a RandomState or None alike; bad options are refused.",
     ["inputs"], "all sample counts, shifts, label kinds, noise levels, positions and draws",
     "Tests check shapes for one seed; samples labelled as another cluster, a refused RandomState or a refused end of the moons do not show.",
     ["skada/datasets/_samples_generator.py"],
     [("_generate_unif_circle", "skada/datasets/_samples_generator.py"), ("_generate_data_2d_classif", "skada/datasets/_samples_generator.py"), ("_generate_data_2d_classif_subspace", "skada/datasets/_samples_generator.py"),
      ("_generate_data_from_moons", "skada/datasets/_samples_generator.py"), ("make_shifted_blobs", "skada/datasets/_samples_generator.py"), ("make_shifted_datasets", "skada/datasets/_samples_generator.py"),
      ("make_dataset_from_moons_distribution", "skada/datasets/_samples_generator.py"), ("make_variable_frequency_dataset", "skada/datasets/_samples_generator.py")],
     "Every draw is an arbitrary recorded array of the generator given; the laws of the draws are numpy's (assumed); the synthesis of the variable frequency signals themselves is only a bounded check." + ASSUME + BOUND)

prop("P20", "Deep datasets keep samples together; balanced batches and whole passes",
     "A DeepDADataset made of arrays, a dictionary, a data frame or another dataset holds every sample with its own label, domain, weight and index within its domain, whatever the form and with the defaults documented; selections, splits by domain, merges, added domains and weights keep exactly the samples asked for, in order, with everything that belongs to them, and leave their inputs as they were; the balanced sampler gives source and target positions in turn, as many as announced, every position of a side once per pass over it; the one-sided sampler gives positions of its side only, each once; the loaders use them with the batch size and options given.",
     ["inputs", "histories"], "all samples, labels, domains, weights, conditions, batch sizes and random orders",
     "Tests look at lengths and a few fixed datasets; labels or weights that slip to other samples, stale sample indices or a side not fully visited do not show.",
     ["skada/deep/base.py"],
     [("DeepDADataset", "skada/deep/base.py"), ("DomainBalancedSampler", "skada/deep/base.py"), ("DomainBalancedDataLoader", "skada/deep/base.py"), ("DomainOnlySampler", "skada/deep/base.py"), ("DomainOnlyDataLoader", "skada/deep/base.py")],
     "torch's RandomSampler is any permutation per pass (assumed); to_tensor, check_array and the tensor operations are their values (autograd, devices and float32 rounding not modelled); labels are whole numbers in the proofs; the batching of torch's DataLoader itself is its own." + ASSUME + BOUND)

prop("P21", "Deep nets: losses, weights, predictions and features get the right samples",
     "In a training batch the base criterion gets the predictions and labels of the source (or target, as asked) samples only, the adaptation loss both sides' predictions, features, domain predictions and sample indices by name, and the loss is base plus reg times adaptation; sample weights multiply the loss of their own sample; the module passes features of the layer named (and CDAN their product with the predictions, projected when too large); predict, predict_proba, score and predict_features use exactly the target samples (or all, as asked) with their own labels and weights, whatever the form of the input; every method's factory hands each hyperparameter, classifier, callback and option to the part it is made for and leaves the caller's objects alone.",
     ["inputs", "configurations"], "all batches, domain labels, weights, input forms and factory options",
     "Tests check shapes and accuracy on separable blobs; swapped sides, ignored options or weights that meet the wrong sample still train.",
     ["skada/deep/base.py", "skada/deep/utils.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py", "skada/deep/_baseline.py"],
     [("DomainAwareCriterion", "skada/deep/base.py"), ("DomainAwareModule", "skada/deep/base.py"), ("DomainAwareNet", "skada/deep/base.py"), ("CDANModule", "skada/deep/_adversarial.py"), ("DeepCoral", "skada/deep/_divergence.py"), ("SPA", "skada/deep/_graph_alignment.py")],
     "skorch's NeuralNetClassifier (fit, predict_proba, get_loss, iterators) is assumed to do what it documents; base modules and criteria are arbitrary functions of their arguments (their calls are recorded); autograd is not modelled." + ASSUME + BOUND)

prop("P22", "Deep losses, modules and callbacks compute what their definitions say",
     "For every batch the deep CORAL, deep JDOT, MMD/DAN, CDD, MCC, graph-spectral, pseudo-label, adversarial and MDD losses equal their documented formulas (kernels, bandwidths, weights, schedules and normalisations included) and leave their inputs alone; each loss module passes its options and the batch's parts to its loss; the gradient reversal layer is the identity forwards and minus alpha times the gradient backwards; spherical k-means gives the nearest centroids, keeps the best of its starts and draws only from random_state; the memory bank moves exactly the batch's target rows towards the normalised features and outputs; epoch counters restart with training.",
     ["inputs", "histories"], "all batches (sizes, features, labels, weights), clusters, memories and loss options",
     "Tests check that training with each loss reaches a score; a wrong normalisation, kernel term or transposed cost still trains on separable blobs.",
     ["skada/deep/losses.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py", "skada/deep/modules.py", "skada/deep/callbacks.py", "skada/deep/utils.py"],
     [("deepcoral_loss", "skada/deep/losses.py"), ("deepjdot_loss", "skada/deep/losses.py"), ("cdd_loss", "skada/deep/losses.py"), ("MDDLoss", "skada/deep/_adversarial.py"), ("SPALoss", "skada/deep/_graph_alignment.py"), ("MemoryBank", "skada/deep/callbacks.py"), ("SphericalKMeans", "skada/deep/utils.py"), ("GradientReversalLayer", "skada/deep/modules.py")],
     "torch's cdist, cosine_similarity, svd, softmax, cross entropy and POT's emd2 are assumed by contract; the proof of cdd_loss covers one class, and two classes without clear target samples (all else bounded); nap_loss, the k-means iterations and ComputeSourceCentroids are bounded only; the reals stand for float32." + ASSUME + BOUND)

prop("P23", "Hyperparameters reach the estimator; fitting leaves them and the data alone",
     "Every adapter, estimator, splitter, scorer and deep loss keeps each argument of its constructor as given, get_params and clone tell and carry it, and set_params takes effect at the next fit exactly as a new instance would. Every factory, shallow or deep, builds the adapter or loss of its method with exactly the hyperparameters given (the documented defaults otherwise) and the base estimator or criterion given (the documented one otherwise), and no two instances share a default. fit returns self and leaves the caller's arrays, estimators and hyperparameters unchanged; a refit equals a fit of a fresh instance; transforms, weights and predictions are repeatable and survive copy and pickle; with a fixed random_state results do not depend on numpy's global generator.",
     ["inputs", "histories"], "all hyperparameter values (objects without a truth value included), all estimators, all sequences of fit/refit/set_params/clone",
     "Tests fit each method once with a few parameters; a parameter that is dropped, swapped, shared or overwritten by fit only shows in the second fit, a grid search or a clone.",
     ["skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py", "skada/_gradual_da.py", "skada/_self_labeling.py", "skada/transformers.py", "skada/model_selection.py", "skada/metrics.py", "skada/base.py", "skada/deep/_adversarial.py", "skada/deep/_baseline.py", "skada/deep/_class_confusion.py", "skada/deep/_divergence.py", "skada/deep/_graph_alignment.py", "skada/deep/_optimal_transport.py"],
     [("OTMappingAdapter", "skada/_mapping.py"), ("NearestNeighborReweightAdapter", "skada/_reweight.py"), ("TransferJointMatching", "skada/_subspace.py"), ("JDOTRegressor", "skada/_ot.py"), ("GradualEstimator", "skada/_gradual_da.py"), ("DASVMClassifier", "skada/_self_labeling.py"), ("SPA", "skada/deep/_graph_alignment.py"), ("CAN", "skada/deep/_divergence.py")],
     "Constructors, factories, JDOT's get_params/set_params and the deep methods are proved for opaque hyperparameters (a value that is tested, copied or replaced fails); sklearn's get_params/clone, skorch's constructor and make_da_pipeline (P06) are assumed by contract; refits, copies, pickles and independence of the global generator are bounded only. None for an estimator-valued parameter given to set_params is outside (only constructors replace it)." + ASSUME + BOUND)

# --- more properties above this line
main()
