"""further properties (kept apart so that each file stays readable)"""


def add(prop, na):
    prop("C06", "Running an object never changes its configuration",
         "After a sampler, filter, undersampler or wrapper has processed any dataset, the parameters it "
         "reports are the ones it reported before, and the dictionaries, lists, estimators and other "
         "containers the user supplied as parameters have not been modified.",
         ["inputs", "configurations", "histories"],
         "every class, every dataset, every sequence of calls",
         "tests call sample once on a fresh object and never read the parameters again; a parameter "
         "overwritten by a data-dependent value is invisible until the object is reused or cloned",
         ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
          "smote_variants/undersampling", "smote_variants/multiclassoversampling",
          "smote_variants/classifiers"],
         ["sample", "sampling_algorithm", "get_params", "fit"],
         "typestate by value numbering plus effect analysis",
         "The parameters each object reports are evaluated symbolically before and after its public data "
         "methods on every return path and must have identical value numbers; no in-place effect may "
         "reach a user-supplied parameter.")

    prop("C07", "A used object behaves like a fresh one",
         "Sampling a dataset with an object that has already processed other datasets gives what a freshly "
         "constructed object with the same parameters (and generator state) would give: nothing learned "
         "from an earlier dataset - fitted attributes, caches, accumulators, mutable defaults - enters the "
         "result of a later call.",
         ["inputs", "configurations", "histories"],
         "every class and every history of earlier calls on other datasets",
         "tests construct one object per dataset, so state surviving between calls is never exercised",
         ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
          "smote_variants/undersampling", "smote_variants/classifiers"],
         ["sample", "sampling_algorithm", "preprocessing_transform", "fit"],
         "def-use analysis of object state across calls",
         "Attributes (and containers, estimators, memo tables, mutable defaults) read before they are "
         "written in a call must not be ones any call writes with data-dependent values.",
         state=[{"name": "instance attributes, module-level caches, mutable default arguments",
                 "meaning": "what can survive from one call to the next",
                 "where": "smote_variants/oversampling"}])

    prop("C08", "Oversampling keeps the originals in front and adds only minority",
         "For every oversampler that is not documented as changing, relocating or removing the original "
         "samples, every returned dataset starts with exactly the rows of the input in their original order "
         "and with their original labels, for every dataset and every parameter setting. Every row after "
         "them carries the minority label.",
         ["inputs", "configurations"],
         "every class, every dataset (any two label values), every return path",
         "tests assert that something was returned, not that the prefix equals the input nor which label "
         "the appended rows carry; a wrong stack order on one branch passes",
         ["smote_variants/oversampling", "smote_variants/base/_oversampling.py",
          "smote_variants/base/_oversamplingbase.py"],
         ["sampling_algorithm", "sample", "fit_resample"],
         "value-flow analysis of the returned arrays",
         "The symbolic value of each returned array is decomposed into row blocks on each path; the leading "
         "block must be the value number of the input (after cancelling scaler round trips), and each label "
         "block after it must be derived from the minority label.")

    prop("C09", "Samples and labels stay aligned",
         "Each returned dataset has as many labels as samples, and whenever rows are selected, dropped, "
         "concatenated or reordered the same selection, deletion, concatenation or order is applied to the "
         "labels, so that no returned row carries the label of a different row.",
         ["inputs", "configurations"],
         "every class and every return path, including those that filter or clean the originals",
         "tests only check shapes for a handful of datasets; a mask applied to the samples but another one "
         "to the labels keeps the shapes equal",
         ["smote_variants/oversampling", "smote_variants/noise_removal", "smote_variants/base"],
         ["sampling_algorithm", "sample", "remove_noise"],
         "symbolic row-count algebra and selection-correspondence dataflow",
         "Row counts of both results are polynomials over the input sizes, compared by case splitting and "
         "loop induction; row blocks must be selected by value-number-identical indices in both results.")

    prop("C10", "Labels are names, not numbers",
         "Which class is the minority is decided by counting the samples of each class, and the result of "
         "any sampler, filter, undersampler or wrapper depends on the labels only through which samples "
         "share a label and which class is the smaller: the pair of labels may be any two values, in any "
         "order, without the method summing, scaling, indexing with or comparing label values to "
         "constants, nor fitting a regression to them.  The rows it returns are labelled with the "
         "caller's own label values.",
         ["inputs", "configurations"],
         "every class, every pair of label values, every return path",
         "tests use the labels 0 and 1 with 1 the minority almost everywhere, where counting the minority "
         "and summing the labels, or testing y == 1, agree",
         ["smote_variants/oversampling", "smote_variants/noise_removal", "smote_variants/base",
          "smote_variants/undersampling"],
         ["class_label_statistics", "sampling_algorithm", "remove_noise", "undersample"],
         "taint analysis of label values with a numeric-use rule set",
         "Every value derived from the caller's labels by selection is tracked on every path; arithmetic, "
         "numeric reductions, comparisons with literals, use as positions, fixed probability columns and "
         "literal returned labels are violations, and the minority label must come from an argmin of the "
         "class counts.")

    prop("C15", "As many samples are generated as the proportion asks for",
         "An oversampler with a proportion parameter adds exactly max(0, int(proportion * (n_maj - n_min))) "
         "samples - so that proportion 1.0 balances the classes - for every dataset and every other "
         "parameter, unless its algorithm is documented to filter samples or to choose their number itself. "
         "It adds nothing only when that number is zero or the data make the method inapplicable (too few "
         "samples or dimensions, no eligible base points), never because of the requested number alone.",
         ["inputs", "configurations"],
         "every class with the parameter, all class sizes and proportions, every return path",
         "tests use a few datasets and look at shapes only; an off-by-one, a fixed proportion or a lost "
         "remainder shows only for particular class sizes",
         ["smote_variants/base/_oversampling.py", "smote_variants/base/_simplexsampling.py",
          "smote_variants/oversampling"],
         ["det_n_to_sample", "sample_simplex", "sampling_algorithm"],
         "symbolic row-count analysis (induction over loops)",
         "The symbolic number of added rows of each return path is compared, as a function of the class "
         "sizes and the proportion, with the specified function.")

    prop("C14", "Distances are measured with the metric the user asked for",
         "A sampler or filter with an nn_params parameter runs every neighbour search and metric distance "
         "computation of its algorithm with the metric and metric tensor given there - a tensor it is asked to "
         "learn being learned from the data of the call - and hands nn_params and ss_params on to every sampler "
         "or filter it uses internally, on every path.  The metric-tensor aware neighbour search passes each of "
         "its own parameters on unchanged and uses the tensor for k-nearest and radius "
         "queries alike, with the number of neighbours or the radius of the query, or else those of the object.",
         ["inputs", "configurations"],
         "every class with the parameter, every neighbour search and nested sampler, every path",
         "tests run with the default Euclidean metric or only check that nothing raises; a search that falls "
         "back to the default metric returns plausible samples of the right shape",
         ["smote_variants/oversampling", "smote_variants/noise_removal",
          "smote_variants/base/_metrictensor.py"],
         ["metric_tensor_from_nn_params", "NearestNeighborsWithMetricTensor", "sampling_algorithm"],
         "dependence analysis of metric values at every search and nested construction",
         "At every inlined construction of a neighbour search, distance-matrix call and nested sampler the "
         "bound metric, tensor and nn_params/ss_params values are inspected: every alternative must be derived "
         "from, or selected by, the constructor parameter.")

    prop("C11", "Constructors reject invalid parameters and accept valid ones",
         "Constructing a sampler or filter with a parameter outside its documented domain - a negative "
         "proportion, fewer neighbours, clusters, components or iterations than the minimum, a fraction "
         "outside [0, 1], an unknown strategy, method or topology name, a non-positive or missing n_jobs - "
         "raises ValueError whatever the other parameters are.  Every value inside the domain, the bounds "
         "of closed ranges and the default included, is accepted.",
         ["inputs", "configurations"],
         "every validated parameter of every class, all values",
         "tests try one bad value for a few parameters; a bound moved by one, an inclusive bound made strict "
         "or a dropped check stays unnoticed",
         ["smote_variants/base/_base.py", "smote_variants/oversampling", "smote_variants/noise_removal"],
         ["__init__", "check_greater_or_equal", "check_greater", "check_in_range", "check_isin",
          "check_n_jobs"],
         "path-condition analysis of constructor rejections against a domain specification",
         "The rejection condition of each constructor is the disjunction of the path conditions of its raise "
         "statements, check helpers inlined; it is compared with the documented domain at every constant "
         "involved and its neighbourhood.")

    prop("C12", "Predefined parameter combinations are valid",
         "Every combination returned by parameter_combinations() constructs its class: each key is a "
         "parameter the constructor declares (undeclared ones would be swallowed silently) and each value is "
         "accepted by its validation.  The combinations are the full Cartesian product of the declared "
         "grid, each key paired with its own values, and raw=True returns the grid itself.",
         ["configurations"],
         "every class and every value of its grid",
         "tests construct a few combinations; a misspelt key is ignored by **_kwargs without any error",
         ["smote_variants/oversampling", "smote_variants/noise_removal", "smote_variants/base/_base.py"],
         ["parameter_combinations", "generate_parameter_combinations", "__init__"],
         "constant propagation of the grids against the constructors' rejection conditions",
         "Grids are resolved by constant propagation; keys are matched with the constructor signature and "
         "values with the path conditions of the constructor's raise statements.")

    prop("C13", "Registry queries return exactly the classes they describe",
         "get_all_oversamplers lists every exported oversampler once, and the proportion, metric-learning, "
         "simplex-sampling, multiclass and noise-filter queries return exactly the registered classes with "
         "the documented feature (constructor parameter, category or default), for every combination of "
         "filter arguments.  With n_quickest=k a query returns the k members with the smallest recorded "
         "runtimes (all of them when there are fewer); a class declares that it changes the original samples "
         "only if it can.",
         ["configurations"],
         "every class, every query and filter argument",
         "tests check that the queries return something; a class silently missing from a list is never "
         "benchmarked and no test notices",
         ["smote_variants/queries/_queries.py", "smote_variants/queries/_runtimes.py",
          "smote_variants/oversampling", "smote_variants/noise_removal"],
         ["get_all_oversamplers", "get_proportion_oversamplers", "get_metric_learning_oversamplers",
          "get_simplex_sampling_oversamplers", "get_multiclass_oversamplers", "get_all_noisefilters",
          "determine_n_quickest"],
         "constant propagation of the registry against the class table",
         "The lists the queries return are resolved by constant propagation and compared, class by class, "
         "with the constructor signatures, categories and defaults of the class table.")

    prop("C16", "Multiclass oversampling raises every class to the majority",
         "MulticlassOversampling returns all original samples first, in their order and with their labels, "
         "followed for every non-majority class by samples that were generated for that class - in a binary "
         "problem opposing all its original samples to the other classes - and carry its label.  With a "
         "wrapped oversampler that honours its proportion every class ends with exactly as many samples as "
         "the largest one, for both strategies, whatever the labels, their order and the class sizes, and "
         "the oversampler gets the user's parameters.",
         ["inputs", "configurations"],
         "both strategies, all numbers of classes, class sizes and label values",
         "tests sample one well-behaved dataset and check that something is returned; a proportion that is "
         "off for the third class or labels shifted by one class go unnoticed",
         ["smote_variants/multiclassoversampling/_multiclassoversampling.py"],
         ["sample", "sample_equalize_1_vs_many", "sample_equalize_1_vs_many_successive",
          "proportion_1_vs_many", "proportion_1_vs_many_succ"],
         "symbolic block decomposition of the result under the oversampler's contract",
         "The result is computed symbolically with the wrapped oversampler replaced by its contract; its "
         "blocks are decomposed into row sets and the symbolic proportions evaluated for families of class "
         "sizes.")

    prop("C17", "Cleaning and undersampling select original rows",
         "Noise filters and undersamplers return rows of the input, each at most once and with its own "
         "label - nothing synthetic.  Filters remove only samples of the majority class of the data they "
         "are given, unless the user chose otherwise (TomekLinkRemoval strategy='remove_both', "
         "EditedNearestNeighbors remove='min'/'both'; with 'min' only minority samples go).  Undersamplers "
         "return every minority sample and exactly as many distinct majority samples, whatever the labels "
         "and which of them is the minority.",
         ["inputs", "configurations"],
         "every noise filter and undersampler, every removal strategy, both label orders",
         "tests check that a filter returns something smaller; a lost minority sample, a repeated row or a "
         "filter that takes the other class for the majority after a first cleaning step stays unnoticed",
         ["smote_variants/noise_removal", "smote_variants/undersampling"],
         ["remove_noise", "remove_links", "condense", "sample"],
         "row-set domain on result terms, label-fact implication at removal sites",
         "Result terms are evaluated in a domain of row identities with all feature-dependent quantities "
         "arbitrary; each append to a removal list must be implied majority by its path facts.")

    prop("C22", "Reported scores equal their definitions",
         "For every vector of binary test labels with both classes and every vector of probabilities, each "
         "score reported by the metrics functions (calculate_atoms, calculate_label_scores, "
         "calculate_prob_scores, calculate_all_scores) equals its definition: the cells of the confusion "
         "matrix with respect to the given minority label, accuracy, sensitivity, specificity, predictive "
         "values, the error rates, balanced accuracy, G-mean, F1, MCC, the information theoretic scores, "
         "informedness, markedness, Brier score, log loss, AUC and the hit rate among the 20% with the "
         "highest probabilities.  Scores that are not computable are None (MCC, logarithmic) or 0 "
         "(predictive values), large counts do not overflow, and every name in all_scores is reported.",
         ["inputs"],
         "all confusion matrices with both classes, all probability vectors, both minority labels",
         "tests compare a few scores of one confusion matrix; swapped cells in a rarely used score, an "
         "overflow for large folds or a wrong special case stay unnoticed",
         ["smote_variants/base/_metrics.py"],
         ["calculate_atoms", "calculate_label_scores", "calculate_prob_scores",
          "calculate_all_scores", "prediction_labels"],
         "symbolic summary of each score compared with its reference formula",
         "Abstract execution yields a closed formula per score (with path conditions); it is compared with "
         "the definition on families of confusion matrices and vectors.")

    prop("C19", "Evaluation keeps training and test data apart, covers every combination",
         "In a cross-validation study every fold consists of the rows of one split of the dataset, "
         "stratified by the target, with matching labels and its own descriptor.  The scaler and the "
         "oversampler see the training part only; the test part passes through exactly the transformations "
         "fitted on the training part (also the preprocessing of the oversampler) and its labels are never "
         "changed; a failed or timed out sampling yields the unsampled (scaled) training part together with "
         "an error, and a successful one has no error.  The classifier scored is a fresh one, trained on the "
         "sampled training part, and the scores are those of its minority probabilities for the test labels. "
         "The parameters recorded for an oversampling do not depend on its outcome.  A study evaluates every "
         "dataset, fold, oversampler and classifier combination exactly once, for every n_jobs and with or "
         "without a cache, and averages are taken over folds only.",
         ["inputs", "configurations"],
         "SamplingJob, EvaluationJob, Folding, evaluate_oversamplers and the aggregation functions",
         "tests check that the evaluation returns something; leakage of the test part, a stale variable "
         "after a failed sampling or a forgotten combination leave plausible numbers",
         ["smote_variants/evaluation"],
         ["Folding.fold", "SamplingJob.do_oversampling", "SamplingJob.timeout",
          "EvaluationJob.do_evaluation", "evaluate_oversamplers", "do_parse_results", "create_summary"],
         "typestate/provenance analysis of the evaluation pipeline",
         "Estimators are replaced by contracts recording what they were fitted on; the provenance of every "
         "returned entry is checked on every path, including the exception handlers.")

    prop("C20", "Cached results are those that would be computed",
         "A cached sampling or evaluation is stored under a name that distinguishes everything the result "
         "depends on: the content of the fold, the oversampler and its parameters, the scaler, the classifier "
         "with module and parameters, and whether the sampling failed.  It is reused exactly when the file is "
         "intact and no reset is requested; missing, empty and truncated files (json and pickle) count as "
         "damaged and are recomputed.  What is written is read back with the same values, arrays as arrays. "
         "A study uses the fold files of its own folding only, one file per fold, and the clean-up removes "
         "no evaluation results and no other files than requested.",
         ["histories", "configurations", "crash_points"],
         "all sequences of studies sharing a cache directory, all cut-off points of a cache file",
         "tests run one study in an empty cache directory; a stale or half-written file of an earlier study "
         "is not sampled",
         ["smote_variants/evaluation", "smote_variants/base/_base.py"],
         ["SamplingJob.target_filename_damaged", "EvaluationJob.target_filename_damaged",
          "Folding.folding_files", "Folding.cache_foldings", "check_if_damaged", "dump_dict", "load_dict",
          "do_clean_up"],
         "dependence analysis of cache keys, exception-injecting abstract execution",
         "The key of a cache file must depend losslessly on every input of its content; reuse decisions are "
         "enumerated over damaged/reset; exceptions of damaged files are propagated through the handlers.")

    prop("C21", "The process pool returns each result at its place and never hangs",
         "ThreadTimeoutProcessPool returns one result per job, in the order of the jobs, for every number of "
         "workers: the result of the job, of any size, or the fallback of the job if its process fails, is "
         "killed or exceeds the time limit.  A result that has been produced in time is never replaced by "
         "the fallback, no result is lost, each job is executed once, a process that exceeds the limit is "
         "ended before its fallback runs, every lock is released on every path (also when a process cannot "
         "be started), the shared job index is only touched under the lock and no wait is unbounded while "
         "jobs terminate.",
         ["schedules", "inputs", "crash_points"],
         "all job durations, result sizes, failures and worker counts",
         "tests run a handful of sleeping jobs with tiny results; a result larger than the pipe buffer, a "
         "failing start or the race between the end of a process and the reading of its result do not occur",
         ["smote_variants/evaluation/_parallelization.py"],
         ["process_manager", "pooling_thread", "ThreadTimeoutProcessPool.execute",
          "ThreadTimeoutProcessPool.apply", "execute_job_object", "queue_get_default"],
         "typestate analysis of locks, processes and queues",
         "Locks, threads, processes and queues are typestate models; every scenario of a process is followed "
         "through the code and the resulting state is checked.")

    prop("C23", "Classifier wrappers learn from the sampled data and predict in its space",
         "OversamplingClassifier built from an oversampler and a classifier description "
         "(module, class name, parameters) holds exactly the described objects: fit(X, y) "
         "trains the classifier on the data and labels returned by the oversampler for (X, y), "
         "exposes the classes_ of the classifier and returns the wrapper itself; predict and "
         "predict_proba return what that trained classifier answers for the query passed "
         "through the oversampler's preprocessing_transform; get_params reports the "
         "descriptions in force and set_params replaces the wrapped objects by those of the "
         "new descriptions, in any sequence of calls. Every oversampler, the multiclass one "
         "included, can be used in the wrapper. MLPClassifierWrapper passes each of its "
         "parameters to the model it fits, uses one hidden layer of max(1, int(sqrt(d))) or "
         "max(1, int(fraction * d)) units for d features, and copy() returns a new wrapper "
         "with the same parameters. instantiate_obj builds the class of that name of that "
         "module with exactly the given parameters.",
         ["inputs", "histories", "configurations"],
         "smote_variants/classifiers, instantiate_obj",
         "Tests fit one wrapper once on one dataset; a wrapper trained on the wrong arrays, a "
         "parameter lost on the way or a stale object after set_params still predicts "
         "plausible labels.",
         ["smote_variants/classifiers/_oversamplingclassifier.py",
          "smote_variants/classifiers/_mlpclassifierwrapper.py", "smote_variants/base/_base.py"],
         ["OversamplingClassifier.fit", "OversamplingClassifier.predict",
          "OversamplingClassifier.predict_proba", "OversamplingClassifier.set_params",
          "MLPClassifierWrapper.fit", "instantiate_obj"],
         "typestate abstract interpretation of the wrappers over call sequences",
         "wrapped estimators are replaced by a contract recording what they were built from "
         "and fitted on")

    prop("C24", "Model selection returns the combination with the best mean score",
         "model_selection(dataset, oversamplers, classifiers, score=s) evaluates with exactly "
         "the given settings (validator parameters, scaler, cache, serialization, clean-up, "
         "number of jobs, timeout) and returns an oversampler and a classifier built from the "
         "module, class and parameters of one evaluated combination: the one whose mean of "
         "score s over the folds is the largest, for the scores where small is good (fpr, "
         "fdr, fnr, brier, log_loss) the smallest. Within each pair of oversampler and "
         "classifier classes the parameters, mean and deviation reported for a score belong to "
         "the best row by that very score, and the columns <score>_mean and <score>_std are "
         "the mean and the standard deviation of that score.",
         ["inputs", "configurations"],
         "model selection of the evaluation toolbox",
         "Tests only look at the types of the returned objects; a wrong direction, a wrong "
         "column or a lost setting still returns an oversampler and a classifier.",
         ["smote_variants/evaluation/_functions.py"],
         ["model_selection", "_pivot_best_scores", "do_parse_results", "evaluate_oversamplers"],
         "abstract interpretation with classification of symbolic row selections",
         "the order of ties and missing values is not decided")

    prop("C18", "Samples come back in the caller's feature space",
         "A sampler that scales, standardises, projects or otherwise transforms the features "
         "internally returns rows in the caller's coordinates: whatever is transformed is "
         "mapped back by the inverse of the same fitted transformation exactly once, original "
         "rows come back as they were given, and no path - including early exits - mixes rows "
         "of different spaces. Where a sampler is documented to return transformed data "
         "(E_SMOTE, ISOMAP_Hybrid), preprocessing_transform maps new data by the very "
         "transformation the last sampling applied, and leaves them alone when it applied "
         "none. Inside the algorithms fitted models are queried with rows of the space they "
         "were fitted in, and distances are measured with a metric learned from rows of the "
         "space of the rows compared.",
         ["inputs", "configurations"],
         "every return path of every sampler and noise filter, every query of a fitted model and "
         "every use of a learned metric",
         "Tests check the number and the shape of the samples on small, already scaled data; rows "
         "of another space have the same shape, and the early exits need special data.",
         ["smote_variants/oversampling", "smote_variants/base/_oversampling.py",
          "smote_variants/noise_removal"],
         ["sampling_algorithm", "preprocessing_transform", "metric_tensor_from_nn_params",
          "inverse_transform"],
         "feature-space (unit) inference over symbolic values of all returned arrays",
         "inverse_transform is trusted to invert transform; operations of unknown effect on "
         "coordinates are left undecided")

    prop("C25", "Synthetic samples are affine combinations of the data",
         "Every row an oversampler makes is put together from rows of the data with weights that "
         "add up to exactly one, whatever the random numbers are: a line between two samples, a "
         "point of a simplex of neighbours, a mean, a cluster centre or a fitted codebook vector, "
         "a translation by the difference of two rows, or one of these with noise added - never "
         "a sum of two samples, a bare difference, a multiple of a sample, or an average whose "
         "weights were not normalised along the axis they are summed over. So shifting the data "
         "shifts the samples by the same amount (DSMOTE, which takes geometric means, aside). Where a sampler interpolates - all of "
         "them but DE_oversampling, SMOTE_OUT, SMOTE_Cosine and LVQ_SMOTE, which step beyond by "
         "definition - no sample is given a negative weight or one greater than one: the new "
         "row lies between the rows it is made from (up to the noise).",
         ["inputs", "configurations"],
         "the row blocks returned by sample() of every oversampler, and the sampling helpers of "
         "the base classes they are made with (segment, componentwise, simplex, deterministic and "
         "reweighted sampling)",
         "Tests check the number of samples only; a wrong sign, a second independent draw or a "
         "missing normalisation gives the same number of plausible rows.",
         ["smote_variants/base/_oversampling.py", "smote_variants/base/_simplexsampling.py",
          "smote_variants/oversampling"],
         ["sample_between_points", "sample_between_points_componentwise", "add_samples",
          "random_samples_from_simplices", "reweight_simplex_vertices", "sampling_algorithm"],
         "affine-weight inference (polynomial weights, least fixpoint) over symbolic values",
         "scalers and projections are taken to be affine; the interpolation ranges are decided "
         "where the numbers are draws, constants or fractions of a count")

    prop("C26", "Indices are used on the rows they were made for",
         "An index stands for a row of one particular array. A neighbour search gives positions in "
         "the rows the search was fitted to, one row of them for every query; a mask selects among "
         "the rows it was computed for; positions found by argsort, argmin, a loop over a count or "
         "a random draw stand for the rows they were counted in. Wherever a sampler or a filter "
         "uses such positions or masks, the indexed array holds those same rows (or starts with "
         "them): positions among all samples are never used on the minority samples alone, nor "
         "the other way round. In simplex sampling the base points, the neighbour lists, the "
         "vertices and all three kinds of weights belong together row by row, and each base point "
         "heads its own neighbour list, so that no true neighbour is lost and no foreign row "
         "takes part; the two coordinates of a pair are never sorted apart. Rows are "
         "taken as rows, eigenvectors are the columns of the matrix they come in, and the length of "
         "one query's answer is never taken for the number of queries.",
         ["inputs", "configurations"],
         "every index operation and every simplex sampling executed by sample() and "
         "remove_noise() of every class",
         "Positions in the wrong array usually exist there too: the wrong rows are used silently, "
         "shapes stay right, and an IndexError needs an unlucky dataset.",
         ["smote_variants/oversampling", "smote_variants/noise_removal",
          "smote_variants/base/_simplexsampling.py"],
         ["sample_simplex", "kneighbors", "radius_neighbors", "sampling_algorithm",
          "remove_noise"],
         "row-set inference (which rows positions and masks refer to) over symbolic values",
         "index operations whose row sets are not known are not judged")

    prop("C27", "Updates take effect: nothing is written to a throw-away copy",
         "Whatever a sampler, a filter, a classifier wrapper or the evaluation framework updates, "
         "it updates for good: a value stored into an array, a list, a dictionary or an object, a "
         "shuffle or a sort in place, the fitting of a model reaches an object that is still "
         "looked at afterwards - never a copy that a fancy index, a mask, an arithmetic "
         "operation, copy(), get_params() or a new list has made on the way and that is then "
         "dropped. The new value of a loop variable or of a parameter is used, and so is the "
         "result of a function that leaves its arguments alone (np.sort, np.delete, "
         "np.unique, astype, DataFrame.drop, ...) or that computes a value: it is looked at before "
         "it is replaced.",
         ["inputs", "configurations"],
         "every in-place modification executed by the entry points of all classes, and every "
         "assignment and call statement of the package",
         "A lost update raises nothing and returns data of the right shape; the algorithm just "
         "skips one of its steps (three samplers did so with all tests passing).",
         ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
          "smote_variants/evaluation"],
         ["generate_centroid_neighborhood", "generate_samples", "bat_update_pulse_loudness",
          "sampling_algorithm"],
         "escape (reachability) analysis of stores over symbolic values, with backward liveness of "
         "local names",
         "lists that are only added to and never read are not counted as lost updates")

    prop("N01", "Sampling terminates",
         "sample() returns after finitely many steps on every dataset and with every accepted "
         "parameter setting: rejection loops, clustering loops and optimisation loops end.",
         ["inputs", "configurations"], "every loop of every sampler whose exit depends on the data",
         "tests run a few dozen small datasets",
         ["smote_variants/oversampling"], ["sampling_algorithm"], "none", "")
    na("N01", "the exits depend on random draws and on distances between data points (rejection "
              "sampling in Lee, LLE_SMOTE, G_SMOTE, cluster merging in CURE_SMOTE, A_SUWO); "
              "termination holds with probability one at best, which no ranking argument over the "
              "source establishes")
    prop("N02", "Synthetic samples of finite data are finite numbers",
         "When the data holds no missing or infinite value, no returned sample does.",
         ["inputs", "configurations"], "every division, logarithm and inversion in the samplers",
         "tests look at shapes",
         ["smote_variants/oversampling"], ["sampling_algorithm"], "none", "")
    na("N02", "denominators are sums of distances, densities and counts of the data; whether they "
              "vanish depends on duplicates, singular covariances and floating point, which a "
              "static abstraction cannot bound without alarms on safe code")
    prop("N03", "Synthetic samples follow the distribution of the published method",
         "Each sampler draws its samples with the probabilities its paper gives.",
         ["inputs"], "all samplers", "tests fix the seed",
         ["smote_variants/oversampling"], ["sampling_algorithm"], "none", "")
    na("N03", "the statement is about probabilities and the reference is a paper, not an artefact in "
              "the repository; what is decidable of it (affine combinations, the right rows, the "
              "right counts, the right generator) is claimed as C03, C15, C25 and C26")

    prop("C28", "What is put aside keeps its value",
         "What a sampler, a filter or the evaluation framework puts aside - the best candidate so "
         "far, the parents of a crossover, the data before a change, an element of a population "
         "or of a collection of results - still holds the value it had when it was put aside "
         "whenever it is looked at again: the same array, list or object is not changed in place "
         "in between through another name, by a function that changes its argument and returns "
         "it, or through a second entry of a list that holds one object many times. When two "
         "values are exchanged, each new value is made of the old ones, and a method that copies "
         "its object hands over the state the object is in, not the one it was created with.",
         ["inputs", "configurations"],
         "every change in place and every pair of assignments in the package",
         "An overwritten snapshot raises nothing: a search returns its last candidate for its best "
         "one, a crossover returns one parent (GASMOTE's did, with all tests passing).",
         ["smote_variants/oversampling", "smote_variants/base", "smote_variants/evaluation"],
         ["crossover", "mutation", "mutate", "update_scores", "sampling_algorithm"],
         "flow-sensitive alias analysis with recency, function summaries and backward liveness",
         "a name that may stand for several objects is not judged")

    prop("C29", "Every step looks at the element it is about",
         "Inside a loop, a sampler works with the index of that loop: an index whose loop has "
         "ended is not used in its place; an element before the first is not taken from the end "
         "of the array by a negative position; a position counted in a part of a list or array "
         "is used on that part, not on the whole; and a label is compared to the elements of an "
         "array, not to a list as a whole (which is one False).",
         ["inputs"],
         "every loop, subscript and comparison of the package",
         "Each of these silently works on a wrong element and returns data of the right shape "
         "(CE_SMOTE, CCR, TRIM_SMOTE and SOI_CJ did, with all tests passing).",
         ["smote_variants/oversampling", "smote_variants/noise_removal", "smote_variants/base"],
         ["cluster_matching", "determine_radii_current_majority", "determine_splitting_point",
          "clustering"],
         "reaching definitions of loop variables; start values of counted loops against index "
         "offsets; the array a position is counted in; list types against scalar comparisons",
         "a name is taken for a list when all its assignments build lists")

    prop("C30", "Every parameter takes effect",
         "Every constructor parameter of an oversampler, noise filter, undersampler or wrapper - "
         "apart from the number of parallel jobs, which only decides how fast a result is "
         "computed - is looked at by what the object does: it is not merely validated, stored and "
         "reported while the algorithm uses a constant or something else in its place.",
         ["configurations"],
         "every constructor parameter of every exported configurable class",
         "Tests run the defaults and check shapes; a parameter that has lost its effect passes.",
         ["smote_variants/oversampling", "smote_variants/noise_removal",
          "smote_variants/undersampling", "smote_variants/base"],
         ["__init__", "sampling_algorithm", "remove_noise"],
         "interprocedural flow of constructor parameters to attributes (per dictionary key) read by "
         "methods reachable from the entry points",
         "n_neighbors of DSMOTE and SOI_CJ has no effect (known findings)")

    prop("C31", "Learned metrics are metrics and are used as such",
         "Whatever metric learning method is configured, the metric tensor it yields is symmetric "
         "and positive semi-definite, so that no distance is undefined; it is learned by the "
         "learner the method is named after, from rows together with their own labels; distances "
         "under a tensor are the roots of the quadratic form of the row differences, for every "
         "pair of rows, also when the distance matrix is computed in blocks; and the neighbours "
         "reported under a tensor are the rows with the smallest distances, or those within the "
         "radius.",
         ["inputs", "configurations"],
         "every metric learning method, both distance functions, k-nearest and radius queries",
         "Tests check that distances have the right shape or agree for the identity tensor; a "
         "tensor that is not symmetric yields NaN for some data only, and blocks are used only "
         "for data above the memory limit.",
         ["smote_variants/base/_metrictensor.py"],
         ["pairwise_distances_mahalanobis", "distances_mahalanobis", "fix_pd_matrix", "tensor",
          "n_neighbors_func", "kneighbors", "radius_neighbors"],
         "definiteness inference over symbolic matrix terms; index structure of contractions; "
         "exact cover of row blocks; order of neighbour positions",
         "contracts of metric_learn (positive semi-definite matrices) and numpy")
