""" The properties that are claimed, and how each of them is decided. """
HOOKS = {'guard': 'VERIF_NO_HOOKS_NEEDED',
         'enable': 'No hooks have been added to the sources. The schedule explorer and the enumeration of random choices '
                   'are interposed at link level (LD_PRELOAD of the OpenMP runtime interface and of the random number '
                   'generator).',
         'source_commits': []}
NOT_APPLICABLE = {}
ENUM = 'bounded exhaustive exploration of the implementation (explicit-state, stateless)'
PROPERTIES = [
    {
        'id': 'P01',
        'title': 'Multi-threading never affects models or predictions and is free of data races',
        'statement': 'For every configuration, dataset, number of threads and schedule of the threads, fitting with '
                     'parallel rule refinement, parallel statistic updates or parallel prediction results in exactly '
                     'the model and predictions that are obtained with a single thread. No two threads ever access the '
                     'same memory location without synchronisation if one of them writes to it.',
        'quantifier': {'over': ['schedules', 'configurations', 'inputs'],
                       'text': 'all assignments of loop iterations to threads and orders of their execution, in all '
                               'parallel regions'},
        'why_tests_cant': 'A test observes the few schedules the operating system happens to choose, which are usually '
                          'benign for small datasets.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/rule_refinement/'
                              'rule_refinement_statistics_based.cpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp',
                              'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp',
                              'cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp'],
                    'mechanism': 'OpenMP parallel loops over features, examples and query examples'},
        'technique': 'stateless model checking of the implementation: a replacement of the OpenMP runtime executes the '
                     'real threads under a controlled scheduler; all assignments of iterations to threads and orders '
                     'are enumerated per region, and all conflicting memory accesses are detected',
        'note': 'Exhaustive per region for up to six iterations and two (thorough: three) threads; absence of '
                'conflicting accesses covers finer interleavings.',
    },
    {
        'id': 'P03',
        'title': 'The representation of features never affects what is learned or predicted',
        'statement': 'For every dataset, storing the same feature values in another way (dense or sparse, row-wise or '
                     'column-wise, other SciPy formats, memory layouts and data types, explicitly stored sparse values, '
                     'an arbitrary sparse value) results in the same model, when fitting, and in the same predictions. '
                     'The same holds for features that are declared as nominal or ordinal, and in the presence of '
                     'missing values.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all feature matrices, storage formats, feature types and sparse values'},
        'why_tests_cant': 'Tests fit each format on few datasets and compare printed outputs that have been recorded '
                          'separately per format.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/input/feature_type_numerical.cpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_type_nominal.cpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_numerical.hpp',
                              'python/subprojects/common/mlrl/common/rule_learners.py'],
                    'mechanism': 'creation of sorted feature vectors from dense and sparse columns, searching for '
                                 'conditions with implicit majority or sparse values'},
        'technique': ENUM + ': all feature matrices of a bounded shape over an alphabet with missing values x storage '
                     'formats x feature types, compared to the row-wise dense format',
        'note': 'Exhaustive within the stated bounds. Two known findings (numerical features).',
    },
    {
        'id': 'P04',
        'title': 'The representation of ground truth, statistics and predictions is irrelevant',
        'statement': 'For every dataset and configuration, storing the same labels or regression scores in another way '
                     '(dense or sparse, SciPy formats, memory layouts, data types, explicitly stored zeros), and keeping '
                     'gradients in a dense or sparse format, results in the same model. Sparse and dense predictions '
                     'consist of the same values.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all label and score matrices, storage formats and configurations'},
        'why_tests_cant': 'Tests cover a few datasets per format, and compare each of them to an expected output of its '
                          'own.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/input/label_matrix_csr.cpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_common.hpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/statistics/'
                              'statistics_provider_decomposable_sparse.cpp',
                              'python/subprojects/common/mlrl/common/rule_learners.py'],
                    'mechanism': 'label matrices and views, updates of statistics per format, sparse prediction '
                                 'matrices'},
        'technique': ENUM + ': all label matrices of a bounded shape x storage formats x configurations, compared to the '
                     'dense format',
        'note': 'Exhaustive within the stated bounds. Two known findings (sparse decision lists, regression with '
                'partial heads).',
    },
    {
        'id': 'P05',
        'title': 'Boosted predictions are the sums of the heads of the covering rules',
        'statement': 'For every rule-based boosting model and every query example, given in any supported storage '
                     'format, the predicted score of an output is the sum of the scores that are provided for it by the '
                     'default rule and by exactly those rules, all conditions of which the example satisfies (a missing '
                     'value satisfies no condition). Regression predictions are these sums, and output-wise binary '
                     'predictions are obtained by comparing them to the threshold of the loss function. Only the used '
                     'rules, restricted by the requested maximum number of rules, are taken into account.',
        'quantifier': {'over': ['inputs', 'programs', 'configurations'],
                       'text': 'all models, query matrices, storage formats and limits on the number of rules'},
        'why_tests_cant': 'Existing tests compare printed outputs for a few fixed datasets and models; the combinations '
                          'of condition types, missing values, sparse elements and partial heads are never enumerated.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp',
                              'cpp/subprojects/boosting/include/mlrl/boosting/prediction/predictor_score_common.hpp',
                              'cpp/subprojects/boosting/include/mlrl/boosting/prediction/predictor_binary_common.hpp',
                              'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp'],
                    'mechanism': 'ConjunctiveBody::covers for dense and sparse rows, addition of heads to score rows, '
                                 'discretisation of scores'},
        'technique': ENUM + ': all small models over an alphabet of conditions and heads x all rows x all formats, '
                     'compared to an independent reference semantics',
        'note': 'Exhaustive within the stated bounds on real code; models are injected through the public '
                'deserialisation of models.',
    },
    {
        'id': 'P06',
        'title': 'Separate-and-conquer models predict like a decision list',
        'statement': 'For every separate-and-conquer model and every query example, the prediction for a label is the '
                     'one of the first used rule in the list that covers the example and predicts for this label, and '
                     'the prediction of the default rule, or irrelevant if there is none, if no such rule exists.',
        'quantifier': {'over': ['inputs', 'programs', 'configurations'],
                       'text': 'all decision lists, query matrices, storage formats and limits on the number of rules'},
        'why_tests_cant': 'Conflicting rules that cover the same example and overlap in a part of their labels, and '
                          'their order, occur in a handful of learned models only.',
        'anchors': {'files': ['cpp/subprojects/seco/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp',
                              'cpp/subprojects/common/src/mlrl/common/model/rule_list.cpp',
                              'cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp'],
                    'mechanism': 'application of heads guarded by a mask of labels that have already been predicted'},
        'technique': ENUM + ': all decision lists of up to three rules over an alphabet x all rows x formats against a '
                     'reference interpreter of decision lists',
        'note': 'Exhaustive within the stated bounds on real code. One known finding (sparse predictions).',
    },
    {
        'id': 'P07',
        'title': 'Incremental prediction agrees with prediction by a prefix of the model',
        'statement': 'For every model and every sequence of steps, the predictions that are obtained incrementally '
                     'after using n rules equal those obtained at once when restricting the maximum number of rules to '
                     'n, for all types of predictions. The number of remaining rules is reported correctly at any '
                     'time, and several predictors that are used alternately do not influence each other.',
        'quantifier': {'over': ['histories', 'configurations', 'programs'],
                       'text': 'all sequences of incremental steps, interleavings of predictors, prediction types and '
                               'strategies'},
        'why_tests_cant': 'Tests take a single sequence of equally sized steps for a few predefined models.',
        'anchors': {'files': ['cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp',
                              'cpp/subprojects/boosting/include/mlrl/boosting/prediction/predictor_score_common.hpp',
                              'cpp/subprojects/seco/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp',
                              'python/subprojects/common/mlrl/common/rule_learners.py'],
                    'mechanism': 'incremental predictors that keep intermediate scores between calls'},
        'technique': ENUM + ': all sequences of steps until exhaustion, and interleavings of two predictors, with the '
                     'non-incremental prediction as the oracle',
        'note': 'Exhaustive over all step sequences for models of up to five rules.',
    },
    {
        'id': 'P10',
        'title': 'Each rule is the result of a greedy search for the best conditions',
        'statement': 'For every dataset and configuration of the top-down greedy rule induction, each learned rule '
                     'results from repeatedly adding, among all conditions on the available (i.e., possibly sampled) '
                     'features that separate the covered examples of the training set (or the current sample) and '
                     'satisfy the minimum coverage, one with the best quality according to the loss function, until '
                     'no condition improves the quality or a limit is reached. This holds for numerical, ordinal and '
                     'nominal features and in the presence of missing values, which never satisfy a condition. If no '
                     'condition improves upon the current model, no further rule is learned.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all feature and label matrices, feature types, loss functions, types of heads and '
                               'restrictions of the search'},
        'why_tests_cant': 'Tests compare learned models to recorded ones, which tells nothing about whether a better '
                          'condition has been overlooked.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_based_search_ordinal.hpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_based_search_nominal.hpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_induction/'
                              'rule_induction_top_down_greedy.cpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp'],
                    'mechanism': 'incremental search over feature vectors that are filtered as a rule is refined'},
        'technique': ENUM + ': all datasets of four examples over small alphabets; an independent specification '
                     'enumerates all conditions and heads at each step of each learned model; random samples are enumerated '
                     'by replacing the random number generator',
        'note': 'Exhaustive over all small datasets for 22 configurations, and over random samples for 12 more. Ties '
                'are accepted. Five known findings.',
    },
    {
        'id': 'P11',
        'title': 'The scores predicted by boosted rules minimize the regularized loss',
        'statement': 'For every loss function, type of head, L1 and L2 regularization weight and shrinkage parameter, '
                     'the head of each boosted rule predicts, for the outputs it is concerned with, the scores that '
                     'minimize the regularized second-order approximation of the loss for the covered training '
                     'examples, given the predictions of all preceding rules, multiplied by the shrinkage parameter. '
                     'The default rule, which is not shrunken, does so for all examples. Partial heads predict for '
                     'the outputs that are selected according to the magnitude of their scores.',
        'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                       'text': 'all label matrices, loss functions, heads, weights, and sequences of rules'},
        'why_tests_cant': 'Tests compare a few models to recorded ones; wrong scores were recorded just as well.',
        'anchors': {'files': ['cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_common.hpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_non_decomposable_logistic.cpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/'
                              'rule_evaluation_non_decomposable_complete_common.hpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/'
                              'rule_evaluation_decomposable_partial_fixed_common.hpp',
                              'cpp/subprojects/boosting/src/mlrl/boosting/post_processing/shrinkage_constant.cpp'],
                    'mechanism': 'gradients and Hessians that are updated after each rule, rule evaluation'},
        'technique': ENUM + ': all label matrices with 3x3 (thorough: 4x3) elements x 164 configurations; each model '
                     'is replayed by an independent calculation of gradients, Hessians and optimal heads',
        'note': 'Exhaustive within the bounds; discontinuities of non-decomposable losses are excluded. One known '
                'finding.',
    },
    {
        'id': 'P12',
        'title': 'Samples and partitions of the training data are valid and unbiased',
        'statement': 'Whatever the random number generator comes up with, methods for sampling instances, features or '
                     'outputs select distinct (with replacement: not necessarily distinct) elements that belong to '
                     'the training set, as many as the options "sample_size", "min_samples", "max_samples" and '
                     '"num_retained" ask for, and all selections of that size are equally likely. Stratified methods '
                     'preserve the proportions of label vectors or labels, and holdout sets are disjoint from and '
                     'complementary to the training set.',
        'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                       'text': 'all sequences of random numbers, numbers of elements, sample sizes, limits, label '
                               'matrices and numbers of consecutive samples'},
        'why_tests_cant': 'Tests use a fixed seed and compare the resulting models to recorded ones. Biased or invalid '
                          'samples only show for some random numbers, or in the distribution of all of them.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/sampling/index_sampling.hpp',
                              'cpp/subprojects/common/src/mlrl/common/sampling/'
                              'instance_sampling_without_replacement.cpp',
                              'cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp',
                              'cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp',
                              'cpp/subprojects/common/src/mlrl/common/sampling/partition_sampling_bi_random.cpp',
                              'cpp/subprojects/common/src/mlrl/common/sampling/'
                              'feature_sampling_without_replacement.cpp'],
                    'mechanism': 'sampling via permutations, reservoirs or rejection; iterative stratification'},
        'technique': 'explicit-state exploration of the real code: all outcomes of a substituted random number '
                     'generator are enumerated; the set of reachable samples and their exact probabilities are '
                     'compared to the specification',
        'note': 'Exhaustive over random choices for up to six (thorough: seven) examples, features or outputs. One '
                'known finding.',
    },
    {
        'id': 'P13',
        'title': 'Stopping criteria and global pruning keep exactly the right rules',
        'statement': 'For every dataset, holdout set and configuration, a model consists of the first rules of the model '
                     'that is learned without any limits, up to the maximum number of rules (including the default '
                     'rule), the first rule after which the time limit has been exceeded, or the point where '
                     'pre-pruning finds that the aggregated loss on the evaluated examples has stopped to improve. The '
                     'rules that are used for prediction are those up to the number of rules with the smallest loss '
                     'among all numbers that have been evaluated by pre- or post-pruning, and others are removed if '
                     'desired.',
        'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                       'text': 'all datasets, holdout sets, sequences of losses and options of the pruning methods'},
        'why_tests_cant': 'Tests use one configuration per pruning method, and compare the models to recorded ones. '
                          'Intervals, buffers, offsets and ties interact in many ways.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp',
                              'cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_post.cpp',
                              'cpp/subprojects/common/src/mlrl/common/stopping/stopping_criterion_list.cpp',
                              'cpp/subprojects/common/src/mlrl/common/stopping/stopping_criterion_time.cpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/'
                              'rule_model_assemblage_sequential.cpp',
                              'cpp/subprojects/common/src/mlrl/common/post_optimization/'
                              'post_optimization_unused_rule_removal.cpp'],
                    'mechanism': 'stopping criteria that are tested after each rule, evaluation of losses, ring '
                                 'buffers, removal of unused rules'},
        'technique': ENUM + ': all datasets of a bounded size x all holdout sets (random choices are enumerated) x '
                     'configurations, compared to a simulation of the criteria as a state machine; the clock is '
                     'replaced for testing time limits',
        'note': 'Exhaustive within the stated bounds (the quick tier combines each dataset with a part of the 360 '
                'configurations).',
    },
    {
        'id': 'P16',
        'title': 'SeCo rules maximize a heuristic on the labels that are not covered yet',
        'statement': 'The default rule of a separate-and-conquer model predicts each label as relevant iff it is relevant to more than half of the '
                     'training examples, and all other rules predict the opposite for the labels in their heads. Each of them '
                     'results from repeatedly adding a condition with the best quality, where the quality of a head is the '
                     'heuristic (accuracy, precision, recall, Laplace, WRA, F-measure, m-estimate), calculated per label from the '
                     'examples for which that label is not covered by a previous rule yet, averaged over its labels and '
                     'multiplied with the lift for their number if partial heads are used, and the best head is used until '
                     'the labels are fixed by max_head_refinements. No rule is added if the best quality is not positive, or as soon as no '
                     'label that deviates from the default prediction is left, where each newly covered label counts as one of them.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all feature and label matrices, heuristics, lift functions, types of heads and features, '
                               'restrictions of the search, and samples of the training examples'},
        'why_tests_cant': 'Tests compare learned models to recorded ones for default parameters of each heuristic, which '
                          'tells nothing about whether the recorded rules are the best ones.',
        'anchors': {'files': ['cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_common.hpp',
                              'cpp/subprojects/seco/src/mlrl/seco/rule_evaluation/rule_evaluation_decomposable_partial.cpp',
                              'cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp',
                              'cpp/subprojects/seco/src/mlrl/seco/data/vector_confusion_matrix_dense.cpp',
                              'cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp',
                              'cpp/subprojects/seco/src/mlrl/seco/stopping/stopping_criterion_coverage.cpp'],
                    'mechanism': 'incrementally maintained confusion matrices and a matrix that counts how often labels are covered'},
        'technique': ENUM + ': all datasets of four examples over small alphabets; an independent specification tracks '
                     'covered labels and enumerates all conditions and heads at each step of each learned model; random '
                     'samples are enumerated by replacing the random number generator',
        'note': 'Exhaustive over small datasets for 21 configurations, and over random samples for 4 more. Ties are accepted; '
                'the known findings of P10 apply.',
    },
    {
        'id': 'P17',
        'title': 'Rules learned from binned features use bin boundaries and matching heads',
        'statement': 'If numerical features are assigned to bins, each numerical condition uses a threshold that separates adjacent bins: '
                     'boundaries of intervals of equal width between the smallest and largest value, or midpoints between values '
                     'where a bin that holds at least its share of the (non-sparse) values ends, such that equal values are '
                     'never separated. Among the conditions that are possible in terms of these thresholds, each rule results from '
                     'repeatedly adding the best one, and its head is the one that is optimal for the training examples '
                     'that satisfy its conditions.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all feature and label matrices (dense, sparse, with missing values), both binning methods and '
                               'all bin ratios and bounds of the number of bins'},
        'why_tests_cant': 'Tests compare models learned from binned features to recorded ones, which do not reveal whether thresholds '
                          'and heads are consistent with the training data.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp',
                              'cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_binned.hpp'],
                    'mechanism': 'indices of examples are grouped by bins, the examples of one bin are not stored'},
        'technique': ENUM + ': all columns of six values over alphabets of four; bins are derived by an independent specification '
                     'and the learned models are replayed by the specification of the greedy search',
        'note': 'Exhaustive over small columns for 20 configurations. The known findings restrict the replay to values that are not '
                'greater than zero and (sparse matrices, equal-width bins) a single condition; for other values, only the '
                'thresholds of conditions are decided.',
    },
    {
        'id': 'P22',
        'title': 'Training, prediction and serialization never access invalid memory',
        'statement': 'Whatever combination of options and whatever dataset is used (a single example, more labels than examples, constant or missing '
                     'values, empty sparse rows, few or no rules), training, predicting and serializing a model never accesses memory '
                     'out of bounds or after it has been freed, and never invokes undefined behavior. Each such operation either '
                     'succeeds or raises a Python exception.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all datasets and all combinations of the options of interacting components'},
        'why_tests_cant': 'Out-of-bounds accesses rarely change the output of a test, and the combinations of options on extreme '
                          'datasets are not tested.',
        'anchors': {'files': ['cpp/subprojects/common/include/mlrl/common/data',
                              'cpp/subprojects/common/src/mlrl/common/input',
                              'cpp/subprojects/boosting/src/mlrl/boosting',
                              'cpp/subprojects/seco/src/mlrl/seco'],
                    'mechanism': 'raw arrays, views and iterators throughout the C++ code'},
        'technique': ENUM + ': the cartesian products of options within groups of interacting components on all datasets of a '
                     'collection of extreme shapes, executed by a build with the address and undefined behavior sanitizers',
        'note': 'Exhaustive over the listed configurations and datasets; the products do not span groups. The combination of beam search and '
                'feature binning is excluded by a known finding.',
    },
    {
        'id': 'P14',
        'title': 'Calibrated probabilities result from an isotonic regression',
        'statement': 'For every label, an isotonic calibration model consists of the solution to the isotonic regression of the true labels on the marginal probabilities that the learned rules predict for the examples in the holdout set, if there is one and it should be used, and in the training set otherwise, where examples with non-increasing frequencies are pooled and each pool is represented by its smallest probability. The same holds for joint probabilities (the products of calibrated marginal probabilities) and each known label vector. At prediction time, probabilities are interpolated linearly between these points, (0, 0) and (1, 1), such that calibrated probabilities are never outside [0, 1] and increase with the uncalibrated ones.',
        'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all label matrices, models, holdout sets and bins'},
        'why_tests_cant': 'The tests compare the bins for two datasets to recorded output, whatever it is. Pooling depends on the order of labels among examples.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp', 'cpp/subprojects/boosting/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp', 'python/subprojects/common/mlrl/common/cython/probability_calibration.pyx'],
                    'mechanism': 'sortByThresholdsAndEliminateDuplicates, aggregateNonIncreasingBins, calibrateProbability and extractThresholdsAndProbabilities'},
        'technique': ENUM + 'all label matrices of small datasets, all holdout sets the random number generator may select (its choices are enumerated) and all lists of bins over a grid, compared to an independent isotonic regression',
        'note': 'Known findings: pooling ignores the number of examples, label vectors are compared by prefix, NaN for a probability of zero, unused rules are taken into account.',
    },
    {
        'id': 'P15',
        'title': 'Joint predictions are optimal among known or all label vectors',
        'statement': 'For every set of known label vectors and every vector of scores, the example-wise predictor returns the known label vector with the smallest loss (or the largest joint probability, i.e., the product of the probabilities of the individual labels), preferring the most frequent one in case of a tie, and the GFM predictor returns a label vector with the largest expected F1-measure among all possible ones, given the normalized joint probabilities of the known label vectors. Marginalized probabilities are the sums of these for the label vectors a label is part of, and output-wise probabilities result from the logistic function. The known label vectors are exactly those that occur in the training data together with their frequencies, calibration models are applied unless disabled, and the automatic choice corresponds to the output-wise methods for decomposable losses and to the example-wise and marginalized methods otherwise.',
        'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all sets of known label vectors, scores, loss functions, predictors and calibration models'},
        'why_tests_cant': 'Optimality among label vectors is a statement about all alternatives. The tests only compare predictions for two datasets to recorded output.',
        'anchors': {'files': ['cpp/subprojects/boosting/src/mlrl/boosting/prediction', 'cpp/subprojects/common/include/mlrl/common/measures/measure_distance.hpp', 'cpp/subprojects/common/src/mlrl/common/prediction/label_vector_set.cpp', 'cpp/subprojects/boosting/include/mlrl/boosting/prediction/probability_function_joint.hpp'],
                    'mechanism': 'getClosestLabelVector, predictGfm, transformScoresIntoJointProbabilities and MarginalizedProbabilityTransformation'},
        'technique': ENUM + 'all sets of label vectors for up to three labels (small ones for four) on all vectors of scores over a grid, for all losses, predictors and calibration models, compared to a brute-force search over all label vectors',
        'note': 'Candidates that differ by less than 1e-9 are considered equally good unless they are necessarily tied.',
    },
    {
        'id': 'P19',
        'title': 'Parameters and options are honoured exactly or rejected',
        'statement': 'For every learner, parameter and textual value, a value that is valid according to the documented '
                     'syntax, names and ranges configures exactly the documented component with exactly the given '
                     'options and the documented default values otherwise, regardless of whether it is specified via '
                     'the Python API or the command line. Any other value is rejected with an error, the process never '
                     'crashes and no value is silently ignored or altered. The order in which parameters are taken '
                     'into account is irrelevant, and so is specifying a default value explicitly.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all strings over a token alphabet, all documented parameters, values, options and '
                               'combinations of options with values within and outside of their ranges, all pairs of '
                               'parameters in both orders'},
        'why_tests_cant': 'Tests use a handful of valid values. The order in which parameters are taken into account '
                          'depends on the randomized hashes of strings.',
        'anchors': {'files': ['python/subprojects/common/mlrl/common/options.py',
                              'python/subprojects/common/mlrl/common/config.py',
                              'python/subprojects/boosting/mlrl/boosting/config.py',
                              'python/subprojects/seco/mlrl/seco/config.py',
                              'python/subprojects/common/mlrl/common/cython/validation.py',
                              'python/subprojects/testbed/mlrl/testbed/runnables.py',
                              'cpp/subprojects/common/include/mlrl/common/util/validation.hpp'],
                    'mechanism': 'parsing of values and options in bracket notation, configuration of native learners'},
        'technique': ENUM + ': all token sequences up to a length and all combinations of options, the resulting '
                     'configuration is read back from the native implementation and compared to a reference parser and '
                     'a table of what is documented',
        'note': 'Exhaustive within the stated bounds. Options for which the documentation contradicts itself are left '
                'unconstrained at the respective value.',
    },
    {
        'id': 'P02',
        'title': 'Results never depend on the history of operations or on the process',
        'statement': 'For every sequence of operations on learners (fitting, attempts to fit with invalid data or '
                     'parameters, predicting, predicting incrementally, changing parameters, copying, cloning, '
                     'pickling, deleting and using other learners) each model and prediction is the one that is '
                     'obtained by a new learner that has been fitted once to the same data with the same parameters '
                     'and random state, in any process. Arguments are not modified, attempts to fit that fail leave '
                     'the learner as it was, and predictions and incremental predictors remain valid and unchanged, '
                     'whatever happens to the learner they have been obtained from.',
        'quantifier': {'over': ['histories', 'configurations', 'fault_sequences'],
                       'text': 'all sequences of 16 operations up to a bounded length, 9 configurations, several '
                               'contents of uninitialised memory and hash seeds'},
        'why_tests_cant': 'Each test fits a single learner once and uses it in a fixed order in a new process.',
        'anchors': {'files': ['python/subprojects/common/mlrl/common/rule_learners.py',
                              'python/subprojects/common/mlrl/common/mixins.py',
                              'python/subprojects/common/mlrl/common/cython/prediction.pyx',
                              'python/subprojects/common/mlrl/common/cython/feature_matrix.pyx',
                              'cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp'],
                    'mechanism': 'state of learners, ownership of native objects, random number generators'},
        'technique': ENUM + ': all sequences of operations on real learners (built with sanitizers) are executed and '
                     'compared to a state machine that predicts each observation',
        'note': 'Exhaustive within the stated bounds.',
    },
    {
        'id': 'P20',
        'title': 'Training and test data are disjoint, complete and correctly paired',
        'statement': 'For every dataset and random permutation, a train-test split assigns each example to exactly one '
                     'of the training and test set according to the requested fraction, and each example is part of '
                     'the test set of exactly one fold of a cross validation, whereas it is part of the training set of '
                     'all others. Features and outputs of an example always remain together, predefined splits are '
                     'used as they are, meta-data belongs to the data, exactly the requested folds are performed, and '
                     'the training data does not depend on the test data.',
        'quantifier': {'over': ['inputs', 'schedules', 'configurations'],
                       'text': 'all permutations of the examples, all dataset sizes, test set fractions, numbers of '
                               'folds and folds to be performed up to a bound, with and without predefined splits and '
                               'one-hot-encoding'},
        'why_tests_cant': 'Tests use a single random state and only look at aggregated evaluation results.',
        'anchors': {'files': ['python/subprojects/testbed/mlrl/testbed/data_splitting.py',
                              'python/subprojects/testbed/mlrl/testbed/data.py',
                              'python/subprojects/testbed/mlrl/testbed/io.py'],
                    'mechanism': 'data splitters, predefined splits and folds'},
        'technique': ENUM + ': all outcomes of the random permutation the splitters of the real code rely on are '
                     'enumerated and what is passed to training and evaluation is compared to the examples in the files',
        'note': 'Exhaustive within the stated bounds.',
    },
    {
        'id': 'P21',
        'title': 'Datasets are loaded and saved without altering or mixing up values',
        'statement': 'For every dataset in a dense or sparse ARFF file, together with a Mulan XML file or a declaration '
                     'of the number of outputs, each feature value and output of each example is loaded exactly as it '
                     'is given in the file, missing values are preserved, nominal values are mapped to their indices, '
                     'and names, types and values of features and names of outputs are assigned to the right columns. '
                     'Files that store data or predictions can be read again and result in the same values. '
                     'One-hot-encoding replaces each nominal feature by one indicator per value.',
        'quantifier': {'over': ['inputs'],
                       'text': 'all small datasets over an alphabet of cell values and attribute types, in all layouts, '
                               'with outputs at the start or end, all orders of names in XML files'},
        'why_tests_cant': 'Tests use a handful of complete datasets, most of which are stored in the same layout.',
        'anchors': {'files': ['python/subprojects/testbed/mlrl/testbed/data.py',
                              'python/subprojects/testbed/mlrl/testbed/predictions.py'],
                    'mechanism': 'parsing and writing of ARFF and XML files'},
        'technique': ENUM + ': all small datasets are written by an independent writer and loaded by the real code, '
                     'files written by the real code are interpreted by an independent reader',
        'note': 'Exhaustive within the stated bounds. Outputs in the middle of the attributes are not supported.',
    },
    {
        'id': 'P23',
        'title': 'Experiments report the results of the right models for the right data',
        'statement': 'For every experiment, the evaluation results that are written for a fold, the overall average, the '
                     'training or test data and each size of an incrementally evaluated model result from applying the '
                     'measures, as they are defined, to the predictions of the model that has been trained on (or '
                     'loaded for) the training data of that very fold and the ground truth of that very data. Only the '
                     'requested measures, formatting and outputs are used. Models and parameters that have been saved '
                     'by previous runs are used for the fold they have been saved for, and models are trained otherwise.',
        'quantifier': {'over': ['histories', 'inputs', 'configurations'],
                       'text': 'all small ground truths and predictions, all options of the evaluation, numbers of '
                               'folds, step sizes, and histories of runs with saved models and parameters'},
        'why_tests_cant': 'Tests compare the output of a few experiments to recorded outputs, one run at a time.',
        'anchors': {'files': ['python/subprojects/testbed/mlrl/testbed/experiments.py',
                              'python/subprojects/testbed/mlrl/testbed/evaluation.py',
                              'python/subprojects/testbed/mlrl/testbed/persistence.py',
                              'python/subprojects/testbed/mlrl/testbed/parameters.py',
                              'python/subprojects/testbed/mlrl/testbed/output_writer.py'],
                    'mechanism': 'experiments, evaluation and persistence of models and parameters'},
        'technique': ENUM + ': experiments run on real files with learners whose predictions identify the model they '
                     'come from, what is written is compared to an independent computation',
        'note': 'Exhaustive within the stated bounds.',
    },
    {
        'id': 'P08',
        'title': 'Saved models and parameters are restored exactly or not at all',
        'statement': 'For every model, including information about label vectors, calibration models and the '
                     'parameters of a learner, saving and restoring it any number of times, in any supported way and in '
                     'another process results in the same rules, the same number of used rules and exactly the same '
                     'predictions. If a model file is written incompletely, e.g., because of a crash or a full disk, or '
                     'if it has been written by an incompatible version, loading it fails or no model is provided, but '
                     'never a different one. Files that belong to different folds or names are independent of each '
                     'other, and parameters that are stored in files configure a learner in the same way as before.',
        'quantifier': {'over': ['inputs', 'crash_points', 'fault_sequences', 'histories'],
                       'text': 'all bodies with up to two conditions per type, all small models, label vector sets and '
                               'calibration models, all bytes after which writing a file may be interrupted, all '
                               'sequences of saves, all values of all parameters'},
        'why_tests_cant': 'Tests save and load a few learned models and never interrupt writing a file. Learned models '
                          'include a small fraction of the models that are possible, e.g., no special values.',
        'anchors': {'files': ['python/subprojects/common/mlrl/common/cython/rule_model.pyx',
                              'python/subprojects/common/mlrl/common/cython/output_space_info.pyx',
                              'python/subprojects/common/mlrl/common/cython/probability_calibration.pyx',
                              'python/subprojects/testbed/mlrl/testbed/persistence.py',
                              'python/subprojects/testbed/mlrl/testbed/parameters.py',
                              'cpp/subprojects/common/src/mlrl/common/model/rule_list.cpp'],
                    'mechanism': 'serialization of native models, model files and parameter files'},
        'technique': ENUM + ': all small models are saved and restored in all ways and compared to the description they '
                     'have been created from, a fault is injected at each byte of a file',
        'note': 'Exhaustive within the stated bounds. Arbitrary changes to individual bytes of a file are not considered, '
                'as the file format does not include a checksum.',
    },
    {
        'id': 'P18',
        'title': 'Pruning and relearning rules follow the documented algorithms',
        'statement': 'For every dataset and every sample of its examples, IREP shortens a rule to the shortest prefix of '
                     'its body, in the order the conditions have been learned, that has the best quality on the examples '
                     'that are not part of the sample, according to the pruning heuristic, and the head of the pruned '
                     'rule is obtained from all examples it covers, unless configured otherwise. Sequential '
                     'post-optimization replaces each rule, one after the other and for the given number of iterations, '
                     'by one that is found by the same kind of search in the context of all other rules, restricted to '
                     'the original head or features if requested, and keeps it if there is none. All following rules take '
                     'into account exactly the predictions for the examples that are covered by the rules in a model.',
        'quantifier': {'over': ['inputs', 'configurations', 'schedules'],
                       'text': 'all outcomes of the random samples (up to a depth) for systematically generated small '
                               'datasets and configurations of both learners'},
        'why_tests_cant': 'Tests compare the models for a single dataset and seed to the output of an earlier version, '
                          'i.e., they enshrine wrong behaviour and do not know which prefix is the best one.',
        'anchors': {'files': ['cpp/subprojects/common/src/mlrl/common/rule_pruning/rule_pruning_irep.cpp',
                              'cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_sequential.cpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp',
                              'cpp/subprojects/common/src/mlrl/common/rule_refinement/feature_space_tabular.cpp'],
                    'mechanism': 'pruning of rules on out-of-sample examples and sequential post-optimization'},
        'technique': ENUM + ': all outcomes of the random number generator are explored, an independent, nondeterministic '
                     'specification of the search, pruning and relearning decides whether each rule is possible',
        'note': 'Two known findings (predictions are applied to wrong examples after pruning, rules that are kept are '
                'neglected) are modelled explicitly: models they do not explain are still reported.',
    },
    {
        'id': 'P24',
        'title': 'Reports describe models, data and predictions faithfully',
        'statement': 'Whatever is printed or written to a file about a model (the rules that are used, their number of '
                     'conditions and predictions, label vectors, calibration models), a data set, or predictions can be '
                     'interpreted and corresponds to the actual rules in their order, statistics, vectors, bins and '
                     'values, up to the requested number of decimals (tables on the console are limited to six '
                     'significant digits). Options that hide, name or round something do not affect anything '
                     'else, and what a sink receives does not depend on the presence of other sinks. Each cross '
                     'validation fold, type of data and, where predictions are written, size of a model has an individual '
                     'file, other reports about models of increasing sizes consist of one row per size.',
        'quantifier': {'over': ['inputs', 'configurations'],
                       'text': 'all small models, label matrices in all formats, calibration models, and predictions, '
                               'with all combinations of options and sinks'},
        'why_tests_cant': 'Tests print what is learned from a few data sets with few options, check only that files '
                          'exist, but not their content, and each example of these data sets has relevant labels.',
        'anchors': {'files': ['python/subprojects/testbed/mlrl/testbed/models.py',
                              'python/subprojects/testbed/mlrl/testbed/model_characteristics.py',
                              'python/subprojects/testbed/mlrl/testbed/label_vectors.py',
                              'python/subprojects/testbed/mlrl/testbed/characteristics.py',
                              'python/subprojects/testbed/mlrl/testbed/data_characteristics.py',
                              'python/subprojects/testbed/mlrl/testbed/prediction_characteristics.py',
                              'python/subprojects/testbed/mlrl/testbed/probability_calibration.py',
                              'python/subprojects/testbed/mlrl/testbed/predictions.py',
                              'python/subprojects/testbed/mlrl/testbed/output_writer.py'],
                    'mechanism': 'writers that produce textual and tabular reports and their sinks'},
        'technique': ENUM + ': all small subjects of a report are passed to the real writers, an independent parser reads '
                     'what has been logged or written and compares it to the subject',
        'note': 'Exhaustive within the stated bounds.',
    },
]
