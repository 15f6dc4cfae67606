"""
P19: parameters are either honoured exactly or rejected.

Explores all textual representations of parameters that consist of a bounded number of tokens, all documented parameters,
values and options together with values within and outside of the documented ranges (all single options and all pairs of
options), all parameters of the command line interface, and all pairs of parameters in both orders. The configuration a
learner ends up with is read back from the native implementation and compared to a table of what is documented.
"""
import itertools
import math
import sys

import numpy as np

import harness as h

PROPERTY = 'P19'
VARIANT = 'plain'
BOUNDS = {'tokens per value': '<= 6 (thorough: <= 7) out of 14', 'options specified at once': '<= 2 (thorough: <= 3)',
          'values per option': '<= 12, within and outside of the documented range', 'learners': 3}
ASSUMPTIONS = ['The upper bounds 1.0 of "sample_size" and "min_support", on which the documentation is inconsistent, may be '
               'accepted or rejected.']


# ---------------------------------------------------------------------------------------------------------------------
# What is documented: parameter -> value -> (method, {option: (type, getter, default, predicate)})
# ---------------------------------------------------------------------------------------------------------------------

def at_least(n):
    return lambda v: v >= n


def zero_or(n):
    return lambda v: v == 0 or v >= n


def open_unit(v):
    return 0 < v < 1


ANY = lambda v: True
UNCLEAR = object()


def unit_or_zero(v):
    return UNCLEAR if v == 1 else 0 <= v < 1


def unit_unclear(v):
    return UNCLEAR if v == 1 else 0 < v < 1


def boolean(getter, default):
    return (bool, getter, default, ANY)


def integer(getter, default, predicate):
    return (int, getter, default, predicate)


def real(getter, default, predicate):
    return (float, getter, default, predicate)


def greedy(recalculate=True):
    return {'max_conditions': integer('get_max_conditions', 0, zero_or(1)),
            'min_coverage': integer('get_min_coverage', 1, at_least(1)),
            'min_support': real('get_min_support', 0.0, unit_or_zero),
            'max_head_refinements': integer('get_max_head_refinements', 1, zero_or(1)),
            'recalculate_predictions': boolean('are_predictions_recalculated', recalculate)}


def beam(recalculate=True):
    out = greedy(recalculate)
    out['max_conditions'] = integer('get_max_conditions', 0, zero_or(2))
    out['beam_width'] = integer('get_beam_width', 4, at_least(2))
    out['resample_features'] = boolean('are_features_resampled', False)
    return out


def bins(ratio, least):
    return {'bin_ratio': real('get_bin_ratio', ratio, open_unit), 'min_bins': integer('get_min_bins', least, at_least(least)),
            'max_bins': integer('get_max_bins', 0, at_least(0))}


def samples(size, predicate, maximum=0):
    return {'sample_size': real('get_sample_size', size, predicate), 'min_samples': integer('get_min_samples', 1, at_least(1)),
            'max_samples': integer('get_max_samples', maximum, at_least(0))}


def holdout():
    return {'holdout_set_size': real('get_holdout_set_size', 0.33, open_unit)}


def threads(name):
    return {'false': ('use_no_' + name, {}),
            'true': ('use_' + name, {'num_preferred_threads': integer('get_num_preferred_threads', 0, zero_or(1))})}


def pruning(post):
    out = {'use_holdout_set': boolean('is_holdout_set_used', True),
           'remove_unused_rules': boolean('is_remove_unused_rules', True),
           'min_rules': integer('get_min_rules', 100, at_least(1))}
    if post:
        out['interval'] = integer('get_interval', 1, at_least(1))
    else:
        out['update_interval'] = integer('get_update_interval', 1, at_least(1))
        out['stop_interval'] = integer('get_stop_interval', 1, at_least(1))
        out['num_past'] = integer('get_num_past', 50, at_least(1))
        out['num_recent'] = integer('get_num_current', 50, at_least(1))
        out['aggregation'] = (('min', 'max', 'avg'), 'get_aggregation_function', None, ANY)
        out['min_improvement'] = real('get_min_improvement', 0.005, lambda v: 0 <= v <= 1)
    return out


CALIBRATION = {'use_probability_calibration': boolean('is_probability_calibration_model_used', True)}
PROBABILITIES = dict(CALIBRATION, based_on_probabilities=boolean('is_based_on_probabilities', False))
COMMON = {
    'rule_induction': {'top-down-greedy': ('use_greedy_top_down_rule_induction', greedy()),
                       'top-down-beam-search': ('use_beam_search_top_down_rule_induction', beam())},
    'feature_binning': {'none': ('use_no_feature_binning', {}),
                        'equal-width': ('use_equal_width_feature_binning', bins(0.33, 2)),
                        'equal-frequency': ('use_equal_frequency_feature_binning', bins(0.33, 2))},
    'output_sampling': {'none': ('use_no_output_sampling', {}),
                        'round-robin': ('use_round_robin_output_sampling', {}),
                        'without-replacement': ('use_output_sampling_without_replacement',
                                                samples(0.33, unit_unclear, 1))},
    'instance_sampling': {'none': ('use_no_instance_sampling', {}),
                          'with-replacement': ('use_instance_sampling_with_replacement', samples(None, unit_unclear)),
                          'without-replacement': ('use_instance_sampling_without_replacement',
                                                  samples(0.66, unit_unclear))},
    'feature_sampling': {'none': ('use_no_feature_sampling', {}),
                         'without-replacement': ('use_feature_sampling_without_replacement',
                                                 dict(samples(0.0, unit_or_zero),
                                                      num_retained=integer('get_num_retained', 0, at_least(0))))},
    'holdout': {'none': ('use_no_partition_sampling', {}), 'random': ('use_random_bi_partition_sampling', holdout())},
    'rule_pruning': {'none': ('use_no_rule_pruning', {}), 'irep': ('use_irep_rule_pruning', {})},
    'parallel_rule_refinement': threads('parallel_rule_refinement'),
    'parallel_statistic_update': threads('parallel_statistic_update'),
    'parallel_prediction': threads('parallel_prediction'),
    'sequential_post_optimization': {'false': ('use_no_sequential_post_optimization', {}),
                                     'true': ('use_sequential_post_optimization', {
                                         'num_iterations': integer('get_num_iterations', 2, at_least(1)),
                                         'refine_heads': boolean('are_heads_refined', False),
                                         'resample_features': boolean('are_features_resampled', True)})},
}


def merged(*tables):
    out = {}
    for table in tables:
        for parameter, values in table.items():
            out[parameter] = dict(out.get(parameter, {}), **values)
    return out


CLASSIFICATION = {
    'instance_sampling': {'stratified-output-wise': ('use_output_wise_stratified_instance_sampling',
                                                     samples(0.66, unit_unclear)),
                          'stratified-example-wise': ('use_example_wise_stratified_instance_sampling',
                                                      samples(0.66, unit_unclear))},
    'holdout': {'stratified-output-wise': ('use_output_wise_stratified_bi_partition_sampling', holdout()),
                'stratified-example-wise': ('use_example_wise_stratified_bi_partition_sampling', holdout())},
}
BOOSTING = {
    'loss': {'squared-error-decomposable': ('use_decomposable_squared_error_loss', {}),
             'squared-error-non-decomposable': ('use_non_decomposable_squared_error_loss', {})},
    'default_rule': {'auto': ('use_automatic_default_rule', {}), 'true': ('use_default_rule', {}),
                     'false': ('use_no_default_rule', {})},
    'head_type': {'auto': ('use_automatic_heads', {}), 'single': ('use_single_output_heads', {}),
                  'partial-fixed': ('use_fixed_partial_heads', {
                      'output_ratio': real('get_output_ratio', 0.0, lambda v: 0 <= v < 1),
                      'min_outputs': integer('get_min_outputs', 2, at_least(2)),
                      'max_outputs': integer('get_max_outputs', 0, at_least(0))}),
                  'partial-dynamic': ('use_dynamic_partial_heads', {
                      'threshold': real('get_threshold', 0.02, open_unit),
                      'exponent': real('get_exponent', 2.0, at_least(1))}),
                  'complete': ('use_complete_heads', {})},
    'holdout': {'auto': ('use_automatic_partition_sampling', {})},
    'feature_binning': {'auto': ('use_automatic_feature_binning', {})},
    'parallel_rule_refinement': {'auto': ('use_automatic_parallel_rule_refinement', {})},
    'parallel_statistic_update': {'auto': ('use_automatic_parallel_statistic_update', {})},
    'global_pruning': {'none': ('use_no_global_pruning', {}), 'post-pruning': ('use_global_post_pruning', pruning(True)),
                       'pre-pruning': ('use_global_pre_pruning', pruning(False))},
    'statistic_format': {'auto': ('use_automatic_statistics', {}), 'dense': ('use_dense_statistics', {}),
                         'sparse': ('use_sparse_statistics', {})},
}
BOOSTING_CLASSIFICATION = {
    'loss': {'logistic-decomposable': ('use_decomposable_logistic_loss', {}),
             'logistic-non-decomposable': ('use_non_decomposable_logistic_loss', {}),
             'squared-hinge-decomposable': ('use_decomposable_squared_hinge_loss', {}),
             'squared-hinge-non-decomposable': ('use_non_decomposable_squared_hinge_loss', {})},
    'label_binning': {'none': ('use_no_label_binning', {}), 'auto': ('use_automatic_label_binning', {}),
                      'equal-width': ('use_equal_width_label_binning', bins(0.04, 1))},
    'marginal_probability_calibration': {
        'none': ('use_no_marginal_probability_calibration', {}),
        'isotonic': ('use_isotonic_marginal_probability_calibration',
                     {'use_holdout_set': boolean('is_holdout_set_used', True)})},
    'joint_probability_calibration': {
        'none': ('use_no_joint_probability_calibration', {}),
        'isotonic': ('use_isotonic_joint_probability_calibration',
                     {'use_holdout_set': boolean('is_holdout_set_used', True)})},
    'binary_predictor': {'auto': ('use_automatic_binary_predictor', {}),
                         'output-wise': ('use_output_wise_binary_predictor', PROBABILITIES),
                         'example-wise': ('use_example_wise_binary_predictor', PROBABILITIES),
                         'gfm': ('use_gfm_binary_predictor', CALIBRATION)},
    'probability_predictor': {'auto': ('use_automatic_probability_predictor', {}),
                              'output-wise': ('use_output_wise_probability_predictor', CALIBRATION),
                              'marginalized': ('use_marginalized_probability_predictor', CALIBRATION)},
}


def heuristics(suffix):
    out = {name: ('use_' + method + suffix, {}) for name, method in
           (('accuracy', 'accuracy'), ('precision', 'precision'), ('recall', 'recall'), ('laplace', 'laplace'),
            ('weighted-relative-accuracy', 'wra'))}
    out['f-measure'] = ('use_f_measure' + suffix, {'beta': real('get_beta', None, at_least(0))})
    out['m-estimate'] = ('use_m_estimate' + suffix, {'m': real('get_m', 22.466, at_least(0))})
    return out


SECO = {
    'heuristic': heuristics('_heuristic'), 'pruning_heuristic': heuristics('_pruning_heuristic'),
    'lift_function': {'none': ('use_no_lift_function', {}),
                      'peak': ('use_peak_lift_function', {'peak_label': integer('get_peak_label', None, zero_or(1)),
                                                          'max_lift': real('get_max_lift', None, at_least(1)),
                                                          'curvature': real('get_curvature', None, lambda v: v > 0)}),
                      'kln': ('use_kln_lift_function', {'k': real('get_k', None, lambda v: v > 0)})},
    'head_type': {'single': ('use_single_output_heads', {}), 'partial': ('use_partial_heads', {})},
    'rule_induction': {'top-down-greedy': ('use_greedy_top_down_rule_induction', greedy(None)),
                       'top-down-beam-search': ('use_beam_search_top_down_rule_induction', beam(None))},
}
TABLES = {'boomer': merged(COMMON, CLASSIFICATION, BOOSTING, BOOSTING_CLASSIFICATION), 'regr': merged(COMMON, BOOSTING),
          'seco': merged(COMMON, CLASSIFICATION, SECO)}
# Numerical parameters: (type, predicate, value that disables it, method if disabled, method, getter, setter)
NUMERICAL = {
    'random_state': (int, at_least(1), None, None, 'use_rng', 'get_random_state'),
    'max_rules': (int, at_least(0), 0, 'use_no_size_stopping_criterion', 'use_size_stopping_criterion', 'get_max_rules'),
    'time_limit': (int, at_least(0), 0, 'use_no_time_stopping_criterion', 'use_time_stopping_criterion', 'get_time_limit'),
    'shrinkage': (float, lambda v: 0 < v <= 1, 1.0, 'use_no_post_processor', 'use_constant_shrinkage_post_processor',
                  'get_shrinkage'),
    'l1_regularization_weight': (float, at_least(0), 0.0, 'use_no_l1_regularization', 'use_l1_regularization',
                                 'get_regularization_weight'),
    'l2_regularization_weight': (float, at_least(0), 0.0, 'use_no_l2_regularization', 'use_l2_regularization',
                                 'get_regularization_weight'),
}
# The documented default values
DEFAULTS = {
    'boomer': {'loss': 'logistic-decomposable', 'default_rule': 'auto', 'rule_induction': 'top-down-greedy',
               'head_type': 'auto', 'holdout': 'auto', 'rule_pruning': 'none', 'global_pruning': 'none',
               'sequential_post_optimization': 'false', 'output_sampling': 'none', 'instance_sampling': 'none',
               'feature_sampling': 'without-replacement', 'feature_binning': 'none', 'label_binning': 'auto',
               'statistic_format': 'auto', 'marginal_probability_calibration': 'none',
               'joint_probability_calibration': 'none', 'binary_predictor': 'auto', 'probability_predictor': 'auto',
               'parallel_rule_refinement': 'auto', 'parallel_statistic_update': 'auto', 'parallel_prediction': 'true',
               'random_state': 1, 'max_rules': 1000, 'time_limit': 0, 'shrinkage': 0.3, 'l1_regularization_weight': 0.0,
               'l2_regularization_weight': 1.0},
}
DEFAULTS['regr'] = {k: v for k, v in DEFAULTS['boomer'].items() if k not in BOOSTING_CLASSIFICATION}
DEFAULTS['regr']['loss'] = 'squared-error-decomposable'
DEFAULTS['seco'] = {'heuristic': 'f-measure', 'pruning_heuristic': 'accuracy', 'lift_function': 'peak',
                    'rule_induction': 'top-down-greedy', 'head_type': 'single', 'sequential_post_optimization': 'false',
                    'output_sampling': 'none', 'random_state': 1, 'time_limit': 0, 'feature_binning': 'none'}
INTEGERS = ('-1', '0', '1', '2', '3', '5', '1.5', 'x', 'true', '16777217', '4294967295', '4294967296')
REALS = ('-0.5', '0', '0.25', '0.5', '0.999', '1', '1.5', '20', 'nan', 'x', '1e-3')
BOOLEANS = ('true', 'false', 'True', '1', 'truefalse')


def grid(kind):
    if kind is bool:
        return BOOLEANS
    if kind is int:
        return INTEGERS
    if kind is float:
        return REALS
    return kind + ('minimum', 'x')


def interpret(kind, text):
    """ Returns the value, or None if the text is not a valid representation. """
    if kind is bool:
        return {'true': True, 'false': False}.get(text)
    if kind is int:
        try:
            return int(text)
        except ValueError:
            return None
    if kind is float:
        try:
            value = float(text)
        except ValueError:
            return None
        return None if math.isnan(value) else value
    return text if text in kind else None


# ---------------------------------------------------------------------------------------------------------------------
# Observing the configuration
# ---------------------------------------------------------------------------------------------------------------------

class Recorders:

    def __init__(self):
        self.log = None
        self.classes = {}

    def install(self, original):
        log = self

        class Recorder(original):

            def __getattribute__(self, name):
                attribute = super().__getattribute__(name)
                if not name.startswith('use_'):
                    return attribute

                def call(*args, **kwargs):
                    result = attribute(*args, **kwargs)
                    log.log[name] = result
                    return result

                return call

        Recorder.__name__ = original.__name__
        for name, module in list(sys.modules.items()):
            if name.startswith('mlrl.'):
                for key, value in list(vars(module).items()):
                    if value is original:
                        try:
                            setattr(module, key, Recorder)
                        except (AttributeError, TypeError):
                            pass


RECORDERS = None


def setup():
    global RECORDERS
    if RECORDERS is None:
        h.make('boomer')
        h.make('seco')
        import mlrl.boosting.runnables  # noqa
        import mlrl.seco.runnables  # noqa
        from mlrl.boosting.cython.learner_boomer import BoomerClassifierConfig, BoomerRegressorConfig
        from mlrl.seco.cython.learner_seco import SeCoClassifierConfig
        RECORDERS = Recorders()
        for original in (BoomerClassifierConfig, BoomerRegressorConfig, SeCoClassifierConfig):
            RECORDERS.install(original)
    return RECORDERS


CLASSES = {'boomer': ('mlrl.boosting.boosting_learners', 'BoomerClassifier'),
           'regr': ('mlrl.boosting.boosting_learners', 'BoomerRegressor'),
           'seco': ('mlrl.seco.seco_learners', 'SeCoClassifier')}


def learner_class(kind):
    module, name = CLASSES[kind]
    __import__(module)
    return getattr(sys.modules[module], name)


BLANK = {'boomer': {'shrinkage': None}, 'regr': {'shrinkage': None}, 'seco': {}}


def configure(kind, params):
    """ Returns the recorded calls, or the exception that has been raised. """
    recorders = setup()
    recorders.log = {}
    try:
        # The native configuration, which the values are read from, is owned by the learner
        recorders.learner = learner_class(kind)(**dict(BLANK[kind], **params))._create_learner()
    except Exception as error:  # pylint: disable=broad-except
        return {}, error
    return recorders.log, None


def read(conf, getter):
    value = getattr(conf, getter)()
    if getter == 'get_aggregation_function':
        return {'MIN': 'min', 'MAX': 'max', 'ARITHMETIC_MEAN': 'avg'}[getattr(value, 'name', str(value))]
    return value


def same(kind, got, expected):
    if kind is float:
        return abs(got - expected) <= 1e-6 * max(1, abs(expected))
    return got == expected


IMPLICIT = {}


def implicit(kind, parameter, method, option, getter):
    """ The value an option has, if no options are specified. The documentation does not (correctly) specify it. """
    key = (kind, parameter, method, option)
    if key not in IMPLICIT:
        saved, learner = RECORDERS.log, RECORDERS.learner
        value = next(v for v, spec in TABLES[kind][parameter].items() if spec[0] == method)
        log, error = configure(kind, {parameter: value})
        IMPLICIT[key] = None if error is not None else read(log[method], getter)
        RECORDERS.log, RECORDERS.learner = saved, learner
    return IMPLICIT[key]


def check_result(ctx, kind, parameter, text, expected, result):
    """ `expected` is None, if the value must be rejected, UNCLEAR, or a tuple (method, options, values). """
    log, error = result
    name = '%s %s=%r' % (kind, parameter, text)
    if expected is UNCLEAR:
        return
    if expected is None:
        ctx.check(error is not None, '%s: invalid, but accepted: %s' % (name, sorted(log)))
        if error is not None:
            ctx.check(isinstance(error, (ValueError, OverflowError)), '%s: rejected with %r' % (name, error))
        ctx.outcome('rejected')
        return
    method, options, values = expected
    if not ctx.check(error is None, '%s: valid, but rejected: %s' % (name, error)):
        return
    if not ctx.check(set(log) == {method}, '%s: %s has been configured instead of %s' % (name, sorted(log), method)):
        return
    conf = log[method]
    for option, (option_kind, getter, default, _) in options.items():
        value = values.get(option, default)
        if value is None:
            value = implicit(kind, parameter, method, option, getter)
        if value is not None:
            got = read(conf, getter)
            ctx.check(same(option_kind, got, value), '%s: the option %s is %r, but should be %r' % (name, option, got, value))
    ctx.outcome('accepted')


def admissible(options, values):
    """ Returns True, False or UNCLEAR. """
    unclear = False
    for option, value in values.items():
        if value is None:
            return False
        ok = options[option][3](value)
        if ok is UNCLEAR:
            unclear = True
        elif not ok:
            return False
        if options[option][0] is int and value > 2**32 - 1:
            return False
    merged_values = {option: values.get(option, spec[2]) for option, spec in options.items()}
    for lower, upper in (('min_bins', 'max_bins'), ('min_samples', 'max_samples'), ('min_outputs', 'max_outputs')):
        if lower in merged_values and merged_values[upper] != 0 and merged_values[upper] < merged_values[lower]:
            return False
    if 'stop_interval' in merged_values and merged_values['stop_interval'] % merged_values['update_interval'] != 0:
        return False
    return UNCLEAR if unclear else True


# ---------------------------------------------------------------------------------------------------------------------
# The syntax
# ---------------------------------------------------------------------------------------------------------------------

TOKENS = ('equal-width', 'equal', 'none', '{', '}', ',', '=', 'min_bins', 'max_bins', 'bin_ratio', '2', '0.5', ' ', 'x')


def parse(text, values):
    """
    A reference implementation of the bracket notation. Returns (value, options) or None.
    """
    best = None
    for value in values:
        if text.startswith(value) and (best is None or len(value) > len(best)):
            best = value
    if best is None:
        return None
    rest = text[len(best):].strip()
    options = {}
    if rest:
        if len(rest) < 2 or rest[0] != '{' or rest[-1] != '}':
            return None
        for element in rest[1:-1].split(','):
            if element:
                key, sep, value = element.partition('=')
                if not sep or '=' in value or not value or key not in values[best][1]:
                    return None
                options[key] = value
    return best, options


def expected_for(values, text):
    parsed = parse(text, values)
    if parsed is None:
        return None
    value, options = parsed
    method, specs = values[value]
    interpreted = {key: interpret(specs[key][0], raw) for key, raw in options.items()}
    ok = admissible(specs, interpreted)
    if ok is UNCLEAR:
        return UNCLEAR
    return (method, specs, interpreted) if ok else None


# ---------------------------------------------------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------------------------------------------------

def texts(parameter_values, value, depth):
    """ All combinations of values of up to `depth` options. """
    specs = parameter_values[value][1]
    yield value
    for size in range(1, depth + 1):
        for names in itertools.permutations(sorted(specs), size) if size <= 2 else itertools.combinations(sorted(specs), size):
            for raw in itertools.product(*[grid(specs[name][0]) for name in names]):
                yield value + '{' + ','.join('%s=%s' % pair for pair in zip(names, raw)) + '}'


def jobs(tier):
    out = []
    length = 7 if tier == 'thorough' else 6
    for first in range(len(TOKENS)):
        for second in range(len(TOKENS)) if TOKENS[first] in ('equal-width', 'none') else (None,):
            out.append({'part': 'syntax', 'first': first, 'second': second, 'length': length})
    for kind in TABLES:
        for parameter in sorted(TABLES[kind]):
            for value in sorted(TABLES[kind][parameter]):
                specs = TABLES[kind][parameter][value][1]
                depth = 3 if tier == 'thorough' and len(specs) < 8 else 2
                out.append({'part': 'options', 'kind': kind, 'parameter': parameter, 'value': value, 'depth': depth})
        out.append({'part': 'numerical', 'kind': kind})
        out.append({'part': 'cli', 'kind': kind})
        out.append({'part': 'defaults', 'kind': kind})
        for parameter in sorted(settings(kind)):
            out.append({'part': 'order', 'kind': kind, 'parameter': parameter, 'tier': tier})
    return out


def run_syntax(job, ctx):
    values = TABLES['seco']['feature_binning']
    first, second = job['first'], job['second']
    prefixes = [(TOKENS[first],)] if second is None else [(TOKENS[first], TOKENS[second])]
    if second == 0:
        prefixes.append((TOKENS[first],))
    for prefix in prefixes:
        lead = ''.join(prefix)
        if parse_dead(lead, values):
            lengths = (0, 1, 2)
        elif second is None or len(prefix) == 2:
            lengths = range(0, job['length'] - len(prefix) + 1)
        else:
            lengths = (0,)
        for n in lengths:
            for rest in itertools.product(TOKENS, repeat=n):
                text = lead + ''.join(rest)
                if n == job['length'] - len(prefix) and not text.endswith('}') and n > 4:
                    # The longest strings are of interest only if the brackets are closed
                    continue
                ctx.case({'kind': 'seco', 'parameter': 'feature_binning', 'text': text})
                ctx.state()
                check_result(ctx, 'seco', 'feature_binning', text, expected_for(values, text), configure_text(text))


CONFIGURED = {}


def configure_text(text):
    return configure('seco', {'feature_binning': text})


def parse_dead(lead, values):
    return not any(lead.startswith(v) or v.startswith(lead) for v in values)


def run_options(job, ctx):
    kind, parameter = job['kind'], job['parameter']
    values = TABLES[kind][parameter]
    for text in texts(values, job['value'], job['depth']):
        ctx.case({'kind': kind, 'parameter': parameter, 'text': text})
        ctx.state()
        check_result(ctx, kind, parameter, text, expected_for(values, text), configure(kind, {parameter: text}))
    if job['value'] == sorted(values)[0]:
        for text in ('', 'x', ' ' + job['value'], job['value'].upper(), 'auto', 'none', 'true', 'false', '{}',
                     job['value'][:-1], job['value'] + 'x', job['value'] + '{', job['value'] + '{}', job['value'] + ' {}',
                     job['value'] + '{x=1}'):
            ctx.case({'kind': kind, 'parameter': parameter, 'text': text})
            ctx.state()
            if not any(specs for _, specs in values.values()):
                # Parameters without any options do not support brackets
                expected = (values[text][0], {}, {}) if text in values else None
            else:
                expected = expected_for(values, text)
            check_result(ctx, kind, parameter, text, expected, configure(kind, {parameter: text}))


def run_numerical(job, ctx):
    kind = job['kind']
    supported = learner_class(kind)().get_params()
    for parameter, (number_type, predicate, off, off_method, method, getter) in NUMERICAL.items():
        if parameter not in supported:
            continue
        for raw in (-1, 0, 1, 2, 3, 7, 1000, 2**32 - 1, 2**32, -0.5, 0.0, 1e-3, 0.25, 0.3, 0.999, 1.0, 1.25, 30.0, '3', '0.5', '0',
                    'x', '', float('nan'), np.int64(5), np.float32(0.5)):
            if number_type is int and isinstance(raw, (float, np.floating)):
                continue
            ctx.case({'kind': kind, 'parameter': parameter, 'text': repr(raw)})
            ctx.state()
            try:
                value = number_type(raw)
            except ValueError:
                value = None
            if value is None or math.isnan(value) or not predicate(value) or (number_type is int and value > 2**32 - 1):
                expected = None
            elif off is not None and value == off:
                expected = (off_method, {}, {})
            else:
                expected = (method, {parameter: (number_type, getter, value, ANY)}, {})
            check_result(ctx, kind, parameter, raw, expected, configure(kind, {parameter: raw}))


def run_cli(job, ctx):
    """ The parameters that are specified via the command line end up as the parameters of the learner. """
    from argparse import ArgumentParser
    setup()
    kind = job['kind']
    if kind == 'seco':
        from mlrl.seco.runnables import SeCoRunnable as Runnable
    else:
        from mlrl.boosting.runnables import BoomerRunnable as Runnable
    runnable = Runnable()
    problem = ['--problem-type', 'regression'] if kind == 'regr' else []

    def parsed(arguments):
        argv, sys.argv = sys.argv, ['testbed'] + base + problem + arguments
        try:
            parser = ArgumentParser()
            runnable.configure_arguments(parser)
            args = parser.parse_args()
            return runnable.create_regressor(args) if kind == 'regr' else runnable.create_classifier(args)
        finally:
            sys.argv = argv

    base = ['--data-dir', 'x', '--dataset', 'y']
    reference = parsed([])
    defaults = reference.get_params()
    constructed = learner_class(kind)().get_params()
    for name, value in constructed.items():
        ctx.check(defaults[name] is None or defaults[name] == value or name in ('random_state', 'feature_format',
                                                                               'output_format', 'prediction_format'),
                  '%s: %s is %r by default, instead of %r' % (kind, name, defaults[name], value))
    tested = {}
    for parameter, values in TABLES[kind].items():
        tested[parameter] = list(values) + [v + '{}' for v in values][:1]
    for parameter, (number_type, _, _, _, _, _) in NUMERICAL.items():
        if parameter in constructed:
            tested[parameter] = [3, 0, 12] if number_type is int else [0.5, 0.0, 1.0]
    for name in ('feature_format', 'output_format', 'prediction_format'):
        tested[name] = ['dense', 'sparse', 'auto']
    for parameter, values in sorted(tested.items()):
        for value in values:
            ctx.case({'kind': kind, 'parameter': parameter, 'text': value, 'cli': True})
            ctx.state()
            try:
                params = parsed(['--' + parameter.replace('_', '-'), str(value)]).get_params()
            except SystemExit as error:
                ctx.violation('%s --%s %s: %r' % (kind, parameter, value, error))
                continue
            expected = dict(defaults, **{parameter: value})
            ctx.check(params == expected, '%s --%s %s: the parameters of the learner are %r' % (kind, parameter, value, {
                k: v for k, v in params.items() if expected.get(k) != v}))
            ctx.outcome((kind, parameter, str(value)))


DATA = None


def datasets():
    global DATA
    if DATA is None:
        rows = np.array(list(itertools.product((0.0, 1.0, 2.0), (0.0, 1.0, 3.0))), dtype=np.float32)
        masks = np.array([[(i * 5 + 3 * j + (i * i) // (j + 2)) % 2 for j in range(3)] for i in range(9)], dtype=np.uint8)
        DATA = rows, masks
    return DATA


def outcome(kind, params):
    """ The model that is learned, and the predictions it provides. """
    x, y = datasets()
    if kind == 'regr':
        y = (y - 0.5 + 0.25 * np.arange(3)).astype(np.float32)
    try:
        learner = learner_class(kind)(**params)
        learner.fit(x, y)
        out = [h.model_key(learner.model_)]
        p = learner.predict(x)
        out.append(np.asarray(p.toarray() if hasattr(p, 'toarray') else p).tolist())
        if kind == 'boomer':
            try:
                out.append(np.asarray(learner.predict_proba(x)).tolist())
            except Exception as error:  # pylint: disable=broad-except
                out.append(type(error).__name__)
        return out
    except (ValueError, RuntimeError) as error:
        return [type(error).__name__, str(error)]


def base_params(kind):
    return {'max_rules': 6} if kind != 'seco' else {'max_rules': 4}


def run_defaults(job, ctx):
    kind = job['kind']
    setup()
    RECORDERS.log = {}
    reference = outcome(kind, base_params(kind))
    ctx.check(len(reference) > 2 or kind != 'boomer', '%s: %r' % (kind, reference[:2]))
    for parameter, value in DEFAULTS[kind].items():
        params = base_params(kind)
        if parameter == 'max_rules':
            continue
        ctx.case({'kind': kind, 'parameter': parameter, 'text': value, 'default': True})
        ctx.state()
        got = outcome(kind, dict(params, **{parameter: value}))
        ctx.check(got == reference, '%s: specifying %s=%r, which is the default value, makes a difference' % (kind, parameter,
                                                                                                             value))
        ctx.outcome((kind, parameter))


def settings(kind):
    """ Representative values of each parameter. """
    out = {}
    for parameter, values in TABLES[kind].items():
        out[parameter] = list(values)
        if parameter == 'global_pruning':
            out[parameter] = ['none', 'post-pruning{min_rules=2}', 'pre-pruning{min_rules=2,num_past=1,num_recent=1}']
        elif parameter.startswith('parallel'):
            out[parameter] = [v + ('{num_preferred_threads=1}' if v == 'true' else '') for v in values]
        elif parameter == 'instance_sampling' or parameter == 'output_sampling' or parameter == 'holdout':
            out[parameter] = list(values)
    out['random_state'] = [1, 7]
    for parameter in ('shrinkage', 'l1_regularization_weight', 'l2_regularization_weight'):
        if kind != 'seco':
            out[parameter] = [1.0, 0.5]
    return out


def ordered(kind, order):
    """ Arranges that parameters are taken into account in a specific order. """
    names = {'boomer': 'BOOMER_CLASSIFIER_PARAMETERS', 'regr': 'BOOMER_REGRESSOR_PARAMETERS', 'seco': 'SECO_CLASSIFIER_PARAMETERS'}
    module = sys.modules[CLASSES[kind][0]]
    parameters = getattr(module, names[kind])
    if not isinstance(parameters, (set, frozenset, list, tuple)):
        return None
    listed = sorted(parameters, key=lambda p: p.name)
    listed.sort(key=lambda p: order.index(p.name) if p.name in order else -1)
    return module, names[kind], parameters, listed


def run_order(job, ctx):
    kind, parameter = job['kind'], job['parameter']
    setup()
    RECORDERS.log = {}
    table = settings(kind)
    for other in sorted(table):
        if other <= parameter:
            continue
        for value, other_value in itertools.product(table[parameter], table[other]):
            params = dict(base_params(kind), **{parameter: value, other: other_value})
            if params.get('rule_induction') == 'top-down-beam-search' and params.get('feature_binning', 'none') != 'none':
                # Accesses memory illegally, see the known finding of the property P22
                continue
            ctx.case({'kind': kind, 'params': params})
            results = []
            for order in ((parameter, other), (other, parameter)):
                module, name, original, listed = ordered(kind, order)
                setattr(module, name, listed)
                try:
                    ctx.state()
                    results.append(outcome(kind, params))
                finally:
                    setattr(module, name, original)
            ctx.check(results[0] == results[1], '%s %r: the outcome depends on the order in which parameters are taken into '
                      'account' % (kind, params))
        ctx.outcome((kind, parameter, other))


def run(job, ctx):
    setup()
    {'syntax': run_syntax, 'options': run_options, 'numerical': run_numerical, 'cli': run_cli, 'defaults': run_defaults,
     'order': run_order}[job['part']](job, ctx)
