"""
P22: whatever is learned or predicted, no memory is accessed out of bounds and no undefined behavior is invoked.

Explores the cartesian products of options of components that interact with each other (e.g. loss functions, types of
heads, label binning and formats of statistics; types of features, search strategies and feature binning; samplings,
holdout sets and pruning; prediction methods and calibrations) on small datasets with extreme shapes (a single example,
fewer examples than labels, constant labels and features, missing values, empty sparse rows). Models are trained, used
for predictions, and serialized by a build of the real library that is instrumented with the address and undefined
behavior sanitizers.
"""
import itertools
import os
import pickle

import numpy as np

import harness as h

PROPERTY = 'P22'
VARIANT = 'asan'
NAN = float('nan')


def product(**options):
    names = list(options)
    for values in itertools.product(*options.values()):
        yield {n: v for n, v in zip(names, values) if v is not None}


LOSSES = [f'{l}-{d}' for l in ('logistic', 'squared-error', 'squared-hinge') for d in ('decomposable', 'non-decomposable')]
HEADS = ['single', 'complete', 'partial-fixed{output_ratio=0.3,min_outputs=2}', 'partial-dynamic']
INSTANCES = ['none', 'with-replacement', 'without-replacement{sample_size=0.6}', 'stratified-output-wise{sample_size=0.6}',
             'stratified-example-wise{sample_size=0.6}']
HOLDOUTS = [None, 'random{holdout_set_size=0.4}', 'stratified-output-wise{holdout_set_size=0.4}',
            'stratified-example-wise{holdout_set_size=0.4}']
BINNING = ['none', 'equal-width{bin_ratio=0.5,min_bins=2}', 'equal-frequency{bin_ratio=0.5,min_bins=2}']
PRE = 'pre-pruning{min_rules=1,update_interval=1,stop_interval=1,num_past=1,num_recent=1}'
POST = 'post-pruning{min_rules=1,interval=1}'
GROUPS = {}


def group(name, kind, datasets, *options):
    GROUPS[name] = (kind, datasets, [p for o in options for p in o if not known(p)])


def known(params):
    """ If a beam search uses binned features, memory may be accessed out of bounds. See the known findings. """
    return 'beam' in params.get('rule_induction', '') and params.get('feature_binning', 'none') != 'none'


group('losses', 'boomer', 'all', product(
    loss=LOSSES, head_type=HEADS, label_binning=['none', 'equal-width{bin_ratio=0.5,min_bins=1}'],
    statistic_format=['dense'], default_rule=['true', 'false'], l1_regularization_weight=[0.25]), product(
    loss=['squared-error-decomposable', 'squared-hinge-decomposable'], statistic_format=['sparse'], default_rule=['false'],
    head_type=['single', 'complete'], label_binning=['none', 'equal-width'], instance_sampling=INSTANCES[:2],
    rule_pruning=['none', 'irep']))
group('search', 'boomer', 'all', product(
    rule_induction=['top-down-greedy', 'top-down-greedy{min_coverage=2,max_conditions=2}',
                    'top-down-greedy{max_head_refinements=0}', 'top-down-beam-search{beam_width=3,max_conditions=2}',
                    'top-down-beam-search{resample_features=true,max_conditions=2}'],
    feature_binning=BINNING, head_type=['single', 'complete'], feature_format=['dense', 'sparse'],
    feature_sampling=['none', 'without-replacement{sample_size=0.5}'], loss=['logistic-decomposable']))
group('sampling', 'boomer', 'some', product(
    instance_sampling=INSTANCES, holdout=HOLDOUTS, global_pruning=[None, PRE, POST], rule_pruning=['none', 'irep'],
    sequential_post_optimization=[None, 'true{num_iterations=1}', 'true{num_iterations=1,refine_heads=true}'],
    loss=['logistic-decomposable'], head_type=['single']), product(
    instance_sampling=['with-replacement'], holdout=HOLDOUTS[:2], rule_pruning=['irep'],
    feature_sampling=['without-replacement{sample_size=0.4,num_retained=1}'],
    output_sampling=['none', 'round-robin', 'without-replacement{sample_size=0.5}'],
    sequential_post_optimization=[None, 'true{num_iterations=1,resample_features=false}'],
    loss=['logistic-decomposable', 'logistic-non-decomposable'], head_type=['complete', 'partial-dynamic'],
    feature_binning=BINNING))
group('prediction', 'boomer', 'all', product(
    binary_predictor=['output-wise', 'output-wise{based_on_probabilities=true}', 'example-wise',
                      'example-wise{based_on_probabilities=true}', 'gfm'],
    probability_predictor=['output-wise', 'marginalized'],
    marginal_probability_calibration=[None, 'isotonic'], joint_probability_calibration=[None, 'isotonic'],
    holdout=HOLDOUTS[:2], prediction_format=['dense', 'sparse'], loss=['logistic-decomposable']), product(
    binary_predictor=['output-wise', 'example-wise', 'gfm'], probability_predictor=['output-wise', 'marginalized'],
    loss=['logistic-non-decomposable', 'squared-hinge-decomposable'], prediction_format=['dense', 'sparse'],
    output_format=['dense', 'sparse']))
group('regression', 'regr', 'all', product(
    loss=['squared-error-decomposable', 'squared-error-non-decomposable'], head_type=HEADS, output_format=['dense', 'sparse'],
    default_rule=['true', 'false'], instance_sampling=INSTANCES[:2], rule_pruning=['none', 'irep'],
    feature_binning=BINNING[:2]), product(
    holdout=HOLDOUTS[:2], global_pruning=[None, PRE, POST], instance_sampling=INSTANCES[:3],
    output_sampling=['none', 'round-robin', 'without-replacement{sample_size=0.5}']))
group('seco-search', 'seco', 'all', product(
    heuristic=['accuracy', 'precision', 'weighted-relative-accuracy', 'f-measure'], head_type=['single', 'partial'],
    lift_function=['none', 'peak', 'peak{peak_label=0}', 'peak{peak_label=1,curvature=0.7}', 'kln'], rule_pruning=['none'],
    instance_sampling=['none'], feature_binning=BINNING[:2]), product(
    heuristic=['f-measure'], head_type=['single', 'partial'], rule_pruning=['none', 'irep'], prediction_format=['dense', 'sparse'],
    output_format=['dense', 'sparse'], instance_sampling=['none', 'stratified-output-wise{sample_size=0.6}'],
    rule_induction=['top-down-greedy', 'top-down-greedy{recalculate_predictions=true}', 'top-down-beam-search']))
group('seco-sampling', 'seco', 'some', product(
    instance_sampling=INSTANCES, holdout=HOLDOUTS, rule_pruning=['none', 'irep'],
    sequential_post_optimization=[None, 'true{num_iterations=1}', 'true{num_iterations=1,refine_heads=true}'],
    output_sampling=['none', 'round-robin', 'without-replacement{sample_size=0.5}'], head_type=['single', 'partial']), product(
    pruning_heuristic=['accuracy', 'precision', 'recall', 'laplace', 'weighted-relative-accuracy', 'f-measure', 'm-estimate'],
    rule_pruning=['irep'], instance_sampling=INSTANCES[1:3]))


# ---------------------------------------------------------------------------------------------------------------------
# Datasets: features, types of features (nominal, ordinal), labels
# ---------------------------------------------------------------------------------------------------------------------

def mixed(n, m, seed):
    values = (0, 1, NAN, 2, -1, 0, 3, 0.5)
    return [[values[(seed + 3 * i + 5 * j + i * j * (seed + 1)) % len(values)] for j in range(m)] for i in range(n)]


def integral(n, m, seed):
    values = (0, 1, 2, 0, -1, 1, NAN, 0)
    return [[values[(seed + 3 * i + 5 * j + i * j * (seed + 1)) % len(values)] for j in range(m)] for i in range(n)]


def labels(n, l, seed):
    return [[int((seed * 7 + i * (j + 2) + (i * i) // (j + 1)) % 3 == 0) for j in range(l)] for i in range(n)]


DATASETS = [
    ('one example', [[1, 0]], (), (), [[1, 0, 1]]),
    ('one feature', [[1], [2], [NAN], [0]], (), (), labels(4, 2, 1)),
    ('two examples, many labels', mixed(2, 2, 1), (), (), labels(2, 9, 2)),
    ('constant labels', mixed(5, 3, 2), (), (), [[0, 1, 0]] * 5),
    ('constant features', [[2, 0, -1]] * 4, (), (1, ), labels(4, 2, 3)),
    ('missing', [[NAN, NAN], [NAN, 1], [NAN, 0]], (), (1, ), labels(3, 2, 1)),
    ('numerical', mixed(7, 4, 3), (), (), labels(7, 3, 4)),
    ('single label', mixed(6, 2, 5), (), (), labels(6, 1, 2)),
    ('typed', integral(7, 5, 3), (0, 3), (1, 4), labels(7, 3, 5)),
    ('nominal', integral(6, 3, 2), (), (0, 1, 2), labels(6, 2, 6)),
    ('ordinal', integral(6, 3, 4), (0, 1, 2), (), labels(6, 4, 7)),
    ('larger', mixed(13, 3, 4), (), (), labels(13, 5, 3)),
]
SOME = [0, 2, 3, 6, 8, 11]
# Only explored by the thorough check
MORE = [(f'{n} x {m}, {l} labels, {t}', (integral if t == 'typed' else mixed)(n, m, n + l),
         (0, ) if t == 'typed' else (), tuple(range(1, m)) if t == 'typed' else (), labels(n, l, m + l))
        for n in (1, 2, 3, 5, 8, 17, 33) for m, l in ((1, 1), (2, 3), (4, 2), (3, 7)) for t in ('numerical', 'typed')]
BOUNDS = {'configurations': sum(len(g[2]) for g in GROUPS.values()), 'groups': {n: len(g[2]) for n, g in GROUPS.items()},
          'datasets': f'{len(DATASETS)} (thorough: {len(MORE)} more)', 'rules': 5}


def jobs(tier):
    out = []
    for name, (_, _, configs) in GROUPS.items():
        for lo, hi in h.chunks(len(configs), 12):
            out.append({'group': name, 'lo': lo, 'hi': hi, 'tier': tier})
    out.append({'beam': True})
    return out


def beam(ctx):
    """ The combination that is excluded above is exercised by a process of its own. """
    params = {'rule_induction': 'top-down-beam-search{resample_features=true,max_conditions=2}', 'feature_binning': BINNING[1],
              'head_type': 'complete', 'feature_format': 'dense', 'feature_sampling': 'without-replacement{sample_size=0.5}',
              'loss': 'logistic-decomposable'}
    name, x, ordinal, nominal, y = DATASETS[11]
    ctx.case({'kind': 'boomer', 'params': params, 'dataset': name})
    ctx.state()
    pid = os.fork()
    if not pid:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        exercise('boomer', params, np.array(x, dtype=h.F32), ordinal, nominal, np.array(y, dtype=np.uint8), None, ctx)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    ctx.check(status == 0, 'the process has been ended by a sanitizer', 'beam-binned')


def exercise(kind, params, x, ordinal, nominal, y, step, ctx):
    learner = h.learner(kind, dict(params, max_rules=5, random_state=3), ordinal=ordinal, nominal=nominal)
    sparse = params.get('feature_format') == 'sparse'
    xs = h.sp.csr_matrix(np.nan_to_num(x, nan=5.0)) if sparse else x
    ys = h.sp.csr_array(y) if params.get('output_format') == 'sparse' else y
    try:
        learner.fit(xs, ys)
    except (ValueError, RuntimeError) as e:
        ctx.count('rejected: ' + str(e)[:60])
        return None
    result = [h.model_key(learner.model_)]
    queries = [xs, x[:1], np.flipud(x).copy(), np.zeros((2, x.shape[1]), dtype=h.F32)]
    if params.get('feature_format') == 'sparse':
        queries = [h.sp.csr_matrix(np.nan_to_num(np.asarray(q if i else q.todense()), nan=5.0)) for i, q in enumerate(queries)]
    copy = pickle.loads(pickle.dumps(learner))
    for l in (learner, copy):
        for q in queries if l is learner else queries[:1]:
            methods = [l.predict] if kind == 'seco' else [l.predict, lambda v, m=l: m.predict(v, predict_scores=True)]
            if kind == 'boomer':
                methods.append(l.predict_proba)
            for method in methods:
                try:
                    result.append(h.dense(method(q)).tolist())
                except (ValueError, RuntimeError) as e:
                    ctx.count('rejected: ' + str(e)[:60])
    return result


def run(job, ctx):
    if 'beam' in job:
        beam(ctx)
        return
    kind, selection, configs = GROUPS[job['group']]
    for i in range(job['lo'], job['hi']):
        params = configs[i]
        for d, (name, x, ordinal, nominal, y) in enumerate(DATASETS + (MORE if job['tier'] == 'thorough' else [])):
            if selection == 'some' and d < len(DATASETS) and d not in SOME:
                continue
            ctx.case({'kind': kind, 'params': params, 'dataset': name})
            y_ = np.array(y, dtype=np.uint8)
            if kind == 'regr':
                y_ = (y_ * 2.5 - np.arange(y_.shape[1]) % 2).astype(h.F32)
            x_ = np.array(x, dtype=h.F32)
            result = exercise(kind, params, x_, ordinal, nominal, y_, job, ctx)
            ctx.state()
            ctx.step()
            ctx.outcome(result)
