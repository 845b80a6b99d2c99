import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Cross-fitting: no nuisance learner is trained on the fold it predicts",
 "Whenever a model is estimated with sample splitting, every nuisance prediction an observation receives comes from a learner that was fitted on observations of the training part of the fold that tests this observation, and on no other; where the nuisance function is defined on a subgroup (treatment arm, instrument value, selected, period, or the part of a nested split) it is fitted on exactly the members of that subgroup in the training part. The prediction entering an observation's score comes from exactly one such learner per nuisance function, repetition and treatment, evaluated at the observation's own covariates; preliminary fits inside a fold only use its training part. This holds for every model class and score, with or without tuned parameters, stored models or parallel jobs.",
 ["configurations","inputs"],
 "for every model class and score option, every partition of the sample into folds (up to the symmetry of the blocks), every combination of parameter / model-storage options",
 "Tests compare point estimates with a re-implementation on a handful of random splits using the same helper functions; a leak that only appears for some fold structure, parameter path or subgroup is never observed because no test looks at which rows a learner saw.",
 ["doubleml/double_ml.py","doubleml/utils/_estimation.py","doubleml/plm/plr.py","doubleml/plm/pliv.py","doubleml/irm/irm.py","doubleml/irm/apo.py","doubleml/irm/iivm.py","doubleml/irm/pq.py","doubleml/irm/lpq.py","doubleml/irm/cvar.py","doubleml/irm/ssm.py","doubleml/did/did.py","doubleml/did/did_cs.py","doubleml/rdd/rdd.py"],
 [("cross-fitted prediction with standard and manual path","doubleml/utils/_estimation.py:_dml_cv_predict"),("conditional training samples","doubleml/utils/_estimation.py:_get_cond_smpls"),("nested splits for preliminary estimates","doubleml/irm/pq.py:_nuisance_est")],
 observe=["rows passed to fit/predict of user supplied learners","predictions"])

p("C02","Drawn sample splits are balanced, stratified, reproducible partitions",
 "A sample splitting drawn by a model consists of the requested number of repetitions, each of which partitions the observations into the requested number of test folds, with the training part of a fold being exactly the complement of its test part. Fold sizes differ by at most one, and for model classes that stratify, the counts of every treatment (or treatment by instrument, period or selection) group differ by at most one between folds. Repetitions are drawn separately. The splitting is a function of the random seed, drawing again replaces it completely, and no splitting is drawn when the user asked for none.",
 ["inputs","configurations"],
 "all sample sizes, fold and repetition numbers up to a bound; all group-membership patterns of small samples; all model classes",
 "Tests draw one or two splits for one sample size per model.",
 ["doubleml/utils/resampling.py","doubleml/double_ml.py","doubleml/irm/irm.py","doubleml/irm/iivm.py","doubleml/irm/lpq.py","doubleml/irm/ssm.py","doubleml/did/did_cs.py"],
 [("repeated (stratified) k-fold","doubleml/utils/resampling.py:DoubleMLResampling"),("model specific strata","doubleml/irm/lpq.py:__init__")],
 observe=["smpls"])

p("C03","User-supplied sample splits are accepted exactly when they are valid",
 "A user-supplied splitting is accepted exactly when its test parts form a partition of the observations in every repetition, all repetitions have the same number of folds, indices are unique in-range integers, and no fold trains on an observation it tests (the only exception being one fold that trains and tests on the whole sample, in any accepted form); with clustered data the accompanying cluster splitting must in addition partition the clusters of every dimension into train and test in every fold. An accepted splitting is used verbatim, and the number of folds and repetitions and all result containers follow from it. A rejected splitting raises an error and leaves the model as it was.",
 ["inputs"],
 "every candidate splitting over a small sample, including overlapping, incomplete, duplicated, out-of-range, negative, non-integer and ragged ones, in all accepted container forms",
 "Tests try about a dozen hand-picked invalid splittings.",
 ["doubleml/utils/_checks.py","doubleml/double_ml.py","doubleml/irm/apos.py","doubleml/irm/qte.py"],
 [("splitting validation","doubleml/utils/_checks.py:_check_sample_splitting"),("cluster partition validation","doubleml/utils/_checks.py:_check_cluster_sample_splitting"),("container reset","doubleml/double_ml.py:set_sample_splitting")],
 observe=["smpls","n_folds","n_rep","raised error"])

p("C04","Clustered data: folds respect clusters, estimates and errors are clustered",
 "With one- or two-way clustered data and a drawn splitting (or a supplied one whose observation and cluster levels correspond), no fold trains on an observation that shares a cluster, in any dimension, with an observation it tests, the test parts partition the observations, and the reported cluster splitting describes exactly these observation splits. The estimate is the zero of the cluster-fold-weighted average score and the standard error equals the multiway cluster-robust formula, which sums score products, for each cluster dimension, over pairs of observations of the same test block that share this cluster; one cluster per observation with equally sized folds reproduces the ordinary estimate.",
 ["inputs","configurations"],
 "all assignments of observations to clusters for small samples (one and two dimensions, balanced and unbalanced, empty cells), all fold numbers, repetitions and treatments",
 "Tests use two fixed balanced cluster designs and compare with a manual copy of the same loop.",
 ["doubleml/utils/resampling.py","doubleml/utils/_estimation.py","doubleml/double_ml_score_mixins.py","doubleml/double_ml.py"],
 [("cluster resampling","doubleml/utils/resampling.py:DoubleMLClusterResampling"),("cluster variance","doubleml/utils/_estimation.py:_var_est"),("cluster weighted estimate","doubleml/double_ml_score_mixins.py:LinearScoreMixin._est_coef")],
 observe=["smpls","smpls_cluster","all_coef","all_se"])

p("C05","Each estimate is the root of its score; each error is its sandwich formula",
 "For every model class, treatment and repetition of data without clusters, the reported estimate sets the sample average of the reported score to zero, the reported score and derivative values are those at the estimate, and the reported standard error is the root of the mean squared score over the squared mean derivative and the sample size. This holds for every assignment of nuisance predictions, including extreme propensities, for all scores linear in the parameter and, up to the stated root-search tolerance, for the quantile scores.",
 ["inputs","configurations"],
 "all vectors of nuisance predictions over a small alphabet on small samples, every model and score",
 "Tests check a few simulated data sets to default tolerance against the same closed form for one repetition.",
 ["doubleml/double_ml.py","doubleml/double_ml_score_mixins.py","doubleml/utils/_estimation.py"],
 [("linear score root","doubleml/double_ml_score_mixins.py:LinearScoreMixin"),("nonlinear score root","doubleml/double_ml_score_mixins.py:NonLinearScoreMixin"),("variance","doubleml/utils/_estimation.py:_var_est")],
 observe=["all_coef","all_se","psi","psi_deriv"])

p("C06","Scores equal the documented formula of the data and the predictions",
 "For every model class, score and option, the score used for estimation equals the documented orthogonal score of the observed data evaluated at the stored nuisance predictions of that repetition, with user weights applied per repetition and propensities truncated to the chosen threshold and, if requested, normalised so that inverse weights average to one. The estimate therefore equals the closed-form estimator computed independently from data and stored predictions, and the sensitivity components (variance, Riesz-representer norm and their scores) equal their documented formulas.",
 ["inputs","configurations"],
 "all nuisance prediction vectors over a small alphabet (including values outside the trimming range) for every model, score, weight form, normalisation and trimming option and every repetition",
 "Tests compare with re-implementations on a few simulated data sets whose predictions rarely reach the trimming bounds and mostly with one repetition and unit weights.",
 ["doubleml/plm/plr.py","doubleml/plm/pliv.py","doubleml/irm/irm.py","doubleml/irm/apo.py","doubleml/irm/iivm.py","doubleml/irm/pq.py","doubleml/irm/lpq.py","doubleml/irm/cvar.py","doubleml/irm/ssm.py","doubleml/did/did.py","doubleml/did/did_cs.py","doubleml/utils/_propensity_score.py"],
 [("score elements","doubleml/*/*.py:_score_elements"),("trimming and normalisation","doubleml/utils/_propensity_score.py")],
 observe=["psi","all_coef","predictions"])

p("C07","Repetitions are aggregated by the median and slots never mix",
 "The reported estimate of each treatment is the median over repetitions and its variance the median of the repetition variances plus squared deviations from that median (scaled by the number of independent units). The results of each (repetition, treatment) pair equal those of a separate single-repetition, single-treatment model run on the same splitting with the other treatments as extra covariates (or without them when switched off), independent of the order in which treatments or repetitions are listed.",
 ["inputs","configurations"],
 "all subsets and orders of treatments up to three, all orders of up to three repetitions, every multi-treatment model, with and without other treatments as covariates",
 "Tests fit multiple treatments or repetitions for one order and never compare slots with separately fitted models.",
 ["doubleml/double_ml.py","doubleml/double_ml_data.py","doubleml/utils/_estimation.py"],
 [("fit loop","doubleml/double_ml.py:fit"),("aggregation","doubleml/utils/_estimation.py:_aggregate_coefs_and_ses"),("active treatment switch","doubleml/double_ml_data.py:set_x_d")],
 observe=["coef","se","all_coef","all_se","psi","predictions"])

p("C08","A fit depends only on the configuration in force, not on history",
 "After any sequence of public operations on a model (fitting with any options, replacing or redrawing the splitting, setting or tuning parameters, bootstrapping, confidence intervals, p-value adjustment, sensitivity analysis and benchmarking, evaluation, summaries), the next fit gives the same estimates, errors, scores, predictions, targets, losses, stored models and inference as a freshly built model with the same data, learners, parameters, splitting and fit options. Read-only operations change nothing reported, setting a splitting discards the results of the previous one, and results that a fit was asked not to store are not reported after it. (Between redrawing a splitting and the next fit, result attributes are unspecified; which treatment column of a shared data object is currently active is a cursor, not part of the result.)",
 ["histories"],
 "all operation sequences up to a depth bound over the public operations, for every model class including the composite ones",
 "Tests run one fixed sequence construct-fit-inspect; re-use of an object is almost untested.",
 ["doubleml/double_ml.py","doubleml/irm/apos.py","doubleml/irm/qte.py","doubleml/irm/pq.py","doubleml/irm/lpq.py","doubleml/rdd/rdd.py"],
 [("re-initialisation at fit","doubleml/double_ml.py:_initalize_fit"),("reset on new splitting","doubleml/double_ml.py:set_sample_splitting"),("composite model rebuild","doubleml/irm/qte.py:_initialize_models")],
 state=[("result containers","coef/se/psi/predictions/targets/models/losses/framework","doubleml/double_ml.py:__init__")],
 observe=["all public result attributes"])

p("C09","A failing learner surfaces and leaves the model fully re-usable",
 "If a learner raises at any of its calls during fitting or benchmarking, the error reaches the caller (it is never swallowed into a result), no new estimate is reported, and a subsequent successful fit (or tuning and fit) of the same object gives exactly the results of a fresh model. Non-finite predictions of a learner are rejected with an error and never turn into an estimate. Learners for a binary outcome or treatment whose predictions are class labels instead of probabilities are rejected likewise.",
 ["fault_sequences"],
 "a failure or a non-finite prediction injected at every single learner call (and every pair of calls up to a bound) of fit, benchmark and tune, for every model class",
 "Tests contain a few always-failing stub learners; failure at the k-th call followed by retry is untested.",
 ["doubleml/double_ml.py","doubleml/utils/_checks.py","doubleml/utils/_estimation.py","doubleml/irm/apos.py","doubleml/irm/qte.py"],
 [("finite prediction check","doubleml/utils/_checks.py:_check_finite_predictions"),("fit re-initialisation","doubleml/double_ml.py:_initalize_fit")],
 observe=["raised error","results after retry"])

p("C10","External predictions replace exactly the nuisance functions supplied",
 "When predictions are supplied for some nuisance functions, the corresponding learner is never fitted, the supplied values of the right treatment and repetition are used (after the same truncation as estimated ones) and all other nuisance functions the score needs are estimated as usual. Supplying a model's own stored predictions reproduces its results for every subset of nuisance functions, supplied arrays are never modified, and malformed or unknown entries are rejected before anything is fitted.",
 ["inputs","configurations"],
 "every subset of nuisance functions and of treatments, for every model class supporting it, multiple repetitions, plus all single-defect malformed inputs",
 "Tests supply all or a few hand-picked combinations for one data set.",
 ["doubleml/double_ml.py","doubleml/utils/_estimation.py","doubleml/utils/_checks.py","doubleml/irm/apos.py","doubleml/irm/qte.py","doubleml/irm/lpq.py","doubleml/irm/pq.py","doubleml/utils/dummy_learners.py"],
 [("selection of supplied predictions","doubleml/utils/_estimation.py:_set_external_predictions"),("validation","doubleml/utils/_checks.py:_check_external_predictions")],
 observe=["predictions","coef","learner calls"])

p("C11","Hyperparameters reach exactly the learner, treatment, repetition and fold",
 "Parameters set for a nuisance function, treatment, repetition and fold are used in exactly those fits and in no other; all others use the parameters of the learner that was passed in. Tuning searches each nuisance function on the rows and targets it is later trained on (whole sample, or each fold's training part), stores the best candidate for the right nuisance function, treatment, repetition and fold, and returns one result per tuned unit; invalid names are rejected without changing anything.",
 ["inputs","histories","configurations"],
 "all assignments of distinct parameters to nuisance functions, treatments, repetitions and folds, set in any order, and all tuning modes, for every model class",
 "Tests set the same parameters everywhere or check one model's estimate.",
 ["doubleml/double_ml.py","doubleml/utils/_estimation.py","doubleml/plm/pliv.py","doubleml/irm/irm.py"],
 [("parameter store","doubleml/double_ml.py:set_ml_nuisance_params"),("tuning","doubleml/double_ml.py:tune"),("fold specific parameters","doubleml/utils/_estimation.py:_dml_cv_predict")],
 observe=["parameters of the learner at each fit call","params","tune results"])

p("C12","User inputs are never modified and models sharing them stay independent",
 "No operation modifies the caller's data frame, learner objects, parameter dictionaries and grids, scoring dictionaries, sample splittings, weights, external predictions, cluster information or bases. Several models built on the same data and learner objects, used in any interleaving, give the same results as if each had its own copies, and copies of a model are independent of the original.",
 ["histories","configurations"],
 "every public operation of every model class, and all interleavings of two models' operation sequences on shared objects",
 "Tests do not compare inputs before and after and use fresh objects per model.",
 ["doubleml/double_ml.py","doubleml/double_ml_data.py","doubleml/utils/_estimation.py","doubleml/irm/apos.py","doubleml/irm/qte.py","doubleml/rdd/rdd.py"],
 [("learners are cloned before fitting","doubleml/utils/_estimation.py:_dml_cv_predict"),("data object copied for benchmarks","doubleml/double_ml.py:sensitivity_benchmark")],
 observe=["caller's objects before and after"])

p("C13","Data roles: any sequence of role changes equals a fresh construction",
 "After any sequence of role assignments on a data object (outcome, treatments, covariates, instruments, time, selection/score, clusters, switches), its arrays, counts, and binary indicators equal those of an object constructed directly with these roles; no column ever holds two roles, and unspecified covariates are exactly the unused columns. An assignment that would break this, or would bring non-finite values into use where they are not allowed, is rejected and leaves the object unchanged (only the requested force_all_x_finite may stay recorded when the present covariates violate it).",
 ["histories","inputs"],
 "all sequences of role assignments up to a depth bound over a small frame, reaching every role configuration, for plain and clustered data",
 "Tests assign single roles from one starting configuration.",
 ["doubleml/double_ml_data.py"],
 [("role setters","doubleml/double_ml_data.py"),("disjointness","doubleml/double_ml_data.py:_check_disjoint_sets")],
 state=[("role assignment","columns per role and derived arrays","doubleml/double_ml_data.py")],
 observe=["x","y","d","z","t","s","cluster_vars","binary_treats","raised error"])

p("C14","Effect algebra: sums, differences, multiples and stacking are consistent",
 "Adding, subtracting, scaling or concatenating estimated effects yields, per parameter and repetition, the corresponding linear combination of estimates and standardised scores, with standard errors recomputed from the combined scores under the same (clustered or unclustered) variance formula, never negative, and aggregated over repetitions by the median rule. Any expression tree gives the same result as the directly computed linear combination, operands stay unchanged, and incompatible operands are rejected.",
 ["programs","inputs"],
 "all expression trees up to a depth over a set of effects (unclustered, one-way, two-way clustered) with positive, negative, zero and fractional multipliers",
 "Tests evaluate a few fixed expressions on one unclustered data set.",
 ["doubleml/double_ml_framework.py"],
 [("addition/subtraction/multiplication","doubleml/double_ml_framework.py:__add__"),("concat","doubleml/double_ml_framework.py:concat")],
 observe=["thetas","all_thetas","ses","all_ses","scaled_psi"])

p("C15","Intervals, tests, bootstrap and multiplicity adjustment match definitions",
 "Pointwise intervals, t-statistics and p-values are the normal ones computed from estimates and errors (frameworks and composite models report the median of the per-repetition statistics and p-values); intervals contain the estimate and grow with the level. Multiplier-bootstrap statistics are, for any weight draw, the weighted averages of each parameter's standardised score over its error, with the same weights shared by all parameters of a repetition; joint intervals use the quantile of the maximal absolute statistic, and step-down adjusted p-values follow the Romano-Wolf definition, are monotone in the statistics and never below the single-step counterpart for one hypothesis. Asking for joint inference without a bootstrap of the current estimates is an error.",
 ["inputs","histories"],
 "all bootstrap weight draws over a small alphabet and all small configurations of estimates, scores, repetitions and levels, in every call order",
 "Tests check shapes or compare with random draws of one seed.",
 ["doubleml/double_ml_framework.py","doubleml/double_ml.py","doubleml/utils/_estimation.py"],
 [("bootstrap","doubleml/double_ml_framework.py:bootstrap"),("confint","doubleml/double_ml_framework.py:confint"),("p_adjust","doubleml/double_ml_framework.py:p_adjust")],
 observe=["confint","boot_t_stat","p_adjust","summary"])

p("C16","Sensitivity bounds are correct, monotone, and benchmarks are faithful",
 "For any confounding strength the bounds equal the documented formula of estimate, bias bound and its score, contain the estimate, collapse to it at zero strength or zero correlation, widen with either strength and with absolute correlation, and their one-sided confidence limits lie outside the bounds. The robustness values are the equal strengths at which bound, respectively confidence limit, reach the null. Benchmarking covariates equals comparing with a manually fitted model that omits them and leaves the model unchanged. The contour plot shows these bounds at its coordinates.",
 ["inputs","histories"],
 "a full grid of strengths, correlations, levels and null hypotheses for every model class supporting sensitivity analysis and for combined effects; all benchmark subsets of the covariates",
 "Tests check one strength triple and types of the output.",
 ["doubleml/double_ml_framework.py","doubleml/double_ml.py","doubleml/utils/_sensitivity.py","doubleml/utils/gain_statistics.py"],
 [("bounds","doubleml/double_ml_framework.py:_calc_sensitivity_analysis"),("robustness value","doubleml/double_ml_framework.py:_calc_robustness_value"),("benchmark","doubleml/double_ml.py:sensitivity_benchmark")],
 observe=["sensitivity_params","sensitivity_benchmark result"])

p("C17","Composite models equal their individual models and contrasts",
 "A multi-level average-potential-outcome model and a quantile-effect model report, for each level or quantile, exactly what the corresponding single models report on the same splitting, in the order requested; effects are differences of the two potential-outcome models and causal contrasts the differences to the named reference level, with errors from the difference of scores. Changing the splitting, parameters, bootstrap or supplied predictions acts on all components consistently.",
 ["configurations","histories"],
 "all subsets and orders of treatment levels and quantiles, all reference levels, all score types, sequences of re-splitting and re-fitting",
 "Tests use one fixed list of levels/quantiles and one fit.",
 ["doubleml/irm/apos.py","doubleml/irm/qte.py","doubleml/irm/apo.py","doubleml/irm/pq.py","doubleml/irm/lpq.py","doubleml/irm/cvar.py"],
 [("apos component models","doubleml/irm/apos.py:_initialize_models"),("causal contrasts","doubleml/irm/apos.py:causal_contrast"),("quantile effects","doubleml/irm/qte.py:fit")],
 observe=["coef","se","all_coef","framework","causal_contrast"])

p("C18","Stored predictions, targets, models and losses describe the same fit",
 "After a fit, the stored model of each nuisance function, treatment, repetition and fold, applied to that fold's test covariates, gives the stored predictions; stored targets equal the observed variable the nuisance function predicts (missing where undefined), the reported losses are the root-mean-squared error or log loss of these pairs, and evaluating with any metric passes exactly these pairs. Storing or not storing predictions or models never changes estimates.",
 ["configurations","inputs"],
 "every model class, score and combination of storage options, repetitions, treatments and folds; all subsets of nuisance functions for evaluation",
 "Tests check presence and shape of stored objects.",
 ["doubleml/double_ml.py","doubleml/utils/_estimation.py"],
 [("store predictions/targets/models","doubleml/double_ml.py:_store_models"),("loss","doubleml/double_ml.py:_calc_nuisance_loss"),("evaluation","doubleml/double_ml.py:evaluate_learners")],
 observe=["predictions","nuisance_targets","models","nuisance_loss","evaluate_learners"])

p("C19","Group and conditional effects are the projections of the model's scores",
 "Group and conditional average effects are the least-squares projection of the model's orthogonal signal on the supplied basis or group indicators, so disjoint groups give the group means, groups covering everything average to the overall effect, and standard errors, pointwise and simultaneous bands follow the projection's (robust) covariance with the simultaneous band never narrower than pointwise at the same level. Policy trees are fitted with the sign of the signal as label and its absolute value as weight, and only on the chosen features.",
 ["inputs"],
 "all group assignments of a small sample (overlapping, exhaustive, partial), all small integer bases, levels and repetitions",
 "Tests use one or two random bases and check shapes.",
 ["doubleml/utils/blp.py","doubleml/utils/policytree.py","doubleml/irm/irm.py","doubleml/irm/apo.py","doubleml/plm/plr.py"],
 [("projection","doubleml/utils/blp.py:fit"),("bands","doubleml/utils/blp.py:confint"),("policy tree","doubleml/utils/policytree.py")],
 observe=["gate/cate/gapo/capo results","policy tree"])

p("C20","Results do not depend on the scheduling of parallel work",
 "For every model class and every number of workers, the estimates, errors, predictions, stored models and tuning outcomes are the same for every order in which the parallel fitting tasks are executed and completed.",
 ["schedules"],
 "all execution orders of the fitting tasks of each parallel region (folds, and component models), for 1..3 workers",
 "Tests run the default sequential order, or rely on whatever order the pool happens to produce.",
 ["doubleml/utils/_estimation.py","doubleml/irm/apos.py","doubleml/irm/qte.py"],
 [("parallel fold fitting","doubleml/utils/_estimation.py:_dml_cv_predict"),("parallel component models","doubleml/irm/apos.py:fit")],
 observe=["all results"])

p("C21","Results are invariant to row order, labels and units",
 "Permuting the observations together with the splitting (and with anything positional: weights, external predictions, auxiliary splittings inside quantile and sample selection models) permutes per-observation results and leaves estimates, errors and intervals unchanged; renaming or re-ordering columns, adding unused columns, a non-default row index of the data frame, the numeric storage type of the same values, or using array instead of frame input changes nothing. With learners that are equivariant, rescaling the outcome transforms estimates and errors accordingly, and so does shifting it; treatments in partially linear models may be rescaled (partialling out: also shifted). Quantile models are only considered under a change of the unit of the outcome.",
 ["inputs"],
 "all permutations of the blocks of a small sample, a set of index and column relabelings, and a grid of affine outcome/treatment transformations for every model class",
 "Tests use one data set with default index and standard column names.",
 ["doubleml/double_ml_data.py","doubleml/double_ml.py","doubleml/utils/_estimation.py"],
 [("positional access to arrays","doubleml/double_ml_data.py"),("index based folds","doubleml/utils/_estimation.py:_dml_cv_predict")],
 observe=["coef","se","psi","predictions"])

p("C22","Regression discontinuity: flexible adjustment is cross-fitted and local",
 "In the discontinuity estimator, each observation inside the bandwidth receives adjustment predictions only from learners trained on other folds, weighted by the kernel, evaluated just left and just right of the cutoff and averaged; the reported coefficient, errors and intervals are those of the local-polynomial estimator applied to the adjusted outcome (and treatment when fuzzy), aggregated by the median over repetitions. The result depends only on the inputs, not on outcome integer versus float type or on re-fitting.",
 ["configurations","inputs","histories"],
 "all combinations of fuzzy/sharp, iterations, repetitions, kernels, bandwidth and fold settings on small designs, with repeated fits",
 "Tests check estimates on a few simulated designs with dummy learners.",
 ["doubleml/rdd/rdd.py","doubleml/utils/global_learner.py"],
 [("cross-fitted adjustment","doubleml/rdd/rdd.py:_fit_nuisance_model"),("kernel weights","doubleml/rdd/rdd.py:_calc_weights"),("aggregation","doubleml/rdd/rdd.py:aggregate_over_splits")],
 observe=["coef","se","ci","learner calls"])

p("C23","Invalid configurations are rejected before any learner is fitted",
 "Constructing a model, fitting it or calling one of its operations on data or options outside the domain (wrong data type, non-binary or non-zero/one treatment, instrument, time or selection variable where required, missing instrument/time/selection variable, instruments where the model has none, unknown score or option, out-of-range or NaN level, quantile, threshold, weight, fold or repetition number, classifier for a non-binary target, learner lacking fit/predict, malformed external predictions or splittings, an operation before the fit or bootstrap it needs) raises an error, never a result; no learner is fitted before the rejection and the object reports the same state afterwards. Every valid combination is accepted. Not decided: learners that are only warned about (a regressor slot given an untagged learner), superfluous time or selection variables, and callable scores with several instruments, which are only known to be unsupported during the fit.",
 ["configurations"],
 "the full cross product of model classes, data domains (treatment, outcome, instrument, time, selection value sets) and option values including all boundary values",
 "Tests try single invalid values for selected models.",
 ["doubleml/double_ml.py","doubleml/utils/_checks.py","doubleml/irm/irm.py","doubleml/irm/iivm.py","doubleml/irm/ssm.py","doubleml/did/did.py","doubleml/did/did_cs.py"],
 [("data checks","doubleml/*/*.py:_check_data"),("learner checks","doubleml/double_ml.py:_check_learner"),("option checks","doubleml/utils/_checks.py")],
 observe=["raised error","learner calls"])

p("C24","Data generators honour their return type, size and seed",
 "For every data generating function and every admissible parameter, the requested return type (arrays, frame, data object) carries the same values for the same seed, with the requested number of observations, covariates and declared roles, and binary variables are binary; the variables satisfy the structural equations of the model for the given parameters, with errors that are random draws of that call, and reported oracle values are those of the generated data; unknown return types are rejected. Generators change no global state other than the random stream.",
 ["configurations","inputs"],
 "all generators, return types, small sample sizes and structural parameters",
 "Tests check one size per generator and the returned class.",
 ["doubleml/datasets.py","doubleml/rdd/datasets"],
 [("generators","doubleml/datasets.py")],
 observe=["returned object"])

p("C25","Confidence intervals attain nominal coverage asymptotically",
 "If nuisance learners converge fast enough and the identifying assumptions hold, estimates are asymptotically normal around the true parameter with the reported standard errors, so intervals attain their nominal coverage.",
 ["inputs"],
 "all data distributions satisfying the assumptions, sample size to infinity",
 "A statistical limit statement; simulation tests sample a few designs.",
 ["doubleml/double_ml.py"],
 [("Neyman orthogonality and cross-fitting","doubleml/double_ml.py:fit")])
p("C26","Summaries and printed reports show the current state",
 "At every point of an object's life (data object, model, composite, framework, projection, discontinuity estimator: freshly built, fitted, re-split, re-fitted, bootstrapped, analysed) its summary tables list, one row per treatment, level, quantile or coefficient in order and under its label, exactly the current estimates, standard errors, t-statistics, p-values and 95% intervals, and are empty or say so before a fit instead of showing stale values or failing. The printed form names the data roles, number of observations, score, learners, their losses, folds and repetitions in force, and the sensitivity report shows the scenario, bounds, limits and robustness values last computed. Producing a summary or printing an object changes nothing. Between redrawing a splitting and the next fit, the results shown are unspecified.",
 ["histories","configurations"],
 "every history of public operations up to a depth for every model configuration, composite, framework combination, projection and data-role sequence",
 "Tests only check that printing does not raise and that the summary is a data frame.",
 ["doubleml/double_ml.py","doubleml/double_ml_framework.py","doubleml/double_ml_data.py","doubleml/irm/apos.py","doubleml/irm/qte.py","doubleml/rdd/rdd.py","doubleml/utils/blp.py","doubleml/utils/policytree.py"],
 [("summary table","doubleml/double_ml.py:summary"),("printed model","doubleml/double_ml.py:__str__"),("framework summary","doubleml/double_ml_framework.py:summary"),("sensitivity report","doubleml/double_ml_framework.py:sensitivity_summary")],
 observe=["summary","str()","sensitivity_summary"])

open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
print(len(P))
