"""
P17: if numerical features are assigned to bins, rules are learned from these bins.

An independent specification assigns the values of numerical features to bins (of equal width or equal frequency). The
models the real learner comes up with are then replayed like in P10: At each step, conditions may only use thresholds in
between bins and must be the best ones, and the heads of rules must correspond to the examples that satisfy their
conditions.
"""
import itertools
import math

import numpy as np

import choices
import harness as h
import oracle
import p10

PROPERTY = 'P17'
NAN = float('nan')
N = 6
WO = 'without-replacement'
WIDTH, FREQUENCY = 'equal-width', 'equal-frequency'


def config(method, ratio, min_bins=2, max_bins=0, loss='squared-error', head='complete', alphabet='dense',
           sparse=False, kind='boomer', **rest):
    c = p10.config('regression' if kind == 'regr' else loss, head=head, kind=kind, types='num')
    c['search'] = {k: v for k, v in rest.items() if k in ('min_coverage', 'max_conditions')}
    if sparse or method == WIDTH:
        # See the known findings
        c['search'].setdefault('max_conditions', 1)
    c.update({'binning': (method, ratio, min_bins, max_bins), 'alphabet': alphabet, 'sparse': sparse, 'n': N})
    if 'examples' in rest:
        c['examples'] = rest['examples']
    return c


# The known findings exclude positive values from the comparison with the specification
ALPHABETS = {
    'dense': (-1, -2, -3, -5),
    'zero': (-4, -2, -1, 0),
    'fine': (-0.5, -0.75, -2.0, -2.5),
    'missing': (NAN, -1, -2, -4),
    'positive': (1, 2, 3, 5),
    'mixed': (-3, -1, 0, 2),
    'signed': (-3, 0, 1, 2),
}
CONFIGS = [
    config(FREQUENCY, 0.3, 2, 2),
    config(FREQUENCY, 0.5, alphabet='fine', loss='logistic'),
    config(FREQUENCY, 0.6, head='single', loss='logistic'),
    config(FREQUENCY, 0.99),
    config(FREQUENCY, 0.6, alphabet='fine', min_coverage=2),
    config(FREQUENCY, 0.5, alphabet='zero', sparse=True),
    config(FREQUENCY, 0.6, alphabet='zero', sparse=True, head='single'),
    config(FREQUENCY, 0.5, alphabet='signed', sparse=True),
    config(FREQUENCY, 0.6, alphabet='mixed', sparse=True),
    config(FREQUENCY, 0.5, alphabet='missing'),
    config(FREQUENCY, 0.3, 3, 3, alphabet='fine', max_conditions=2, kind='regr'),
    config(FREQUENCY, 0.6, alphabet='mixed'),
    config(FREQUENCY, 0.6, alphabet='positive'),
    config(WIDTH, 0.3, 2, 2),
    config(WIDTH, 0.5, alphabet='zero'),
    config(WIDTH, 0.5, alphabet='dense', head='single', loss='logistic'),
    config(WIDTH, 0.6, alphabet='fine', min_coverage=2),
    config(WIDTH, 0.5, alphabet='zero', sparse=True),
    config(WIDTH, 0.5, alphabet='missing'),
    config(WIDTH, 0.3, 3, 3, alphabet='zero', kind='regr'),
    config(WIDTH, 0.6, alphabet='mixed'),
    config(WIDTH, 0.6, alphabet='positive', sparse=True),
]
LABELS = [(1, 0, 0, 1, 1, 0), (1, 1, 0, 0, 0, 1), (0, 0, 0, 1, 0, 0), (1, 0, 1, 0, 1, 0), (1, 1, 1, 0, 0, 0),
          (0, 1, 1, 0, 1, 1)]
SECOND = [(0, 0, 0, 0, 0, 0), (0, 1, 2, 3, 0, 1), (3, 3, 0, 1, 0, 2), (2, 0, 1, 0, 1, 3)]
BOUNDS = {'configurations': f'{len(CONFIGS)} (method, number of bins, kinds of values, representation, heads)',
          'features': f'{N} examples x 2 features: all columns over 4 values (quick: every 3rd one) for the first one, '
          f'{len(SECOND)} columns for the second one',
          'labels': '2 of 6 columns', 'rules': 3}
ASSUMPTIONS = [
    'float32 thresholds may deviate from the specification by a relative error of 1e-5; the values of features are '
    'never that close to a threshold without being equal to it in exact arithmetic',
]


def bounded_fraction(n, fraction, minimum, maximum):
    result = math.ceil(np.float32(fraction) * np.float32(n))
    least = min(minimum, n)
    if result < least:
        return least
    if maximum >= minimum and result > maximum:
        return maximum
    return result


def thresholds(c, column):
    """ The thresholds that separate the bins, the values of a feature are assigned to. """
    method, ratio, min_bins, max_bins = c['binning']
    values = sorted(v for v in column if v == v)
    if not values or values[0] == values[-1]:
        return []
    bins = bounded_fraction(len(column), ratio, min_bins, max_bins)
    if method == WIDTH:
        width = (values[-1] - values[0]) / bins
        # If there are no examples that belong to a bin, the thresholds to the left and right of it are equivalent
        return [values[0] + (i + 1) * width for i in range(bins - 1)]
    stored = [v for v in values if v != 0] if c['sparse'] and any(v == 0 for v in values) else values
    capacity = math.ceil(len(stored) / bins)
    result, size, previous = [], 0, None
    zeros = len(values) - len(stored)
    done = not zeros
    for v in values:
        if v == 0 and done and zeros:
            continue
        weight = zeros if v == 0 and zeros else 1
        if v == 0 and zeros:
            done = True
        if previous is not None and v != previous and size >= capacity:
            result.append((previous + v) / 2)
            size = 0
        size += weight
        previous = v
    return result


def parameters(c, max_rules):
    p = p10.parameters({k: v for k, v in c.items()}, max_rules)
    method, ratio, min_bins, max_bins = c['binning']
    p['feature_binning'] = f'{method}{{bin_ratio={ratio},min_bins={min_bins},max_bins={max_bins}}}'
    p['feature_format'] = 'sparse' if c['sparse'] else 'dense'
    return p


def fit(c, x, y, max_rules=3):
    x = np.array(x, dtype=h.F32)
    learner = h.learner(c['kind'], parameters(c, max_rules), ordinal=[], nominal=[])
    learner.fit(h.sp.csc_array(x) if c['sparse'] else x, y)
    return h.rules_of(learner.model_)


def regular(c, column):
    """ Whether the values of a feature are not affected by any known finding. """
    if any(v > 0 or v == 0 and c['binning'][0] == FREQUENCY and not c['sparse'] for v in column):
        return False
    if c['binning'][0] == WIDTH:
        bounds = thresholds(c, column)
        occupied = {oracle.Binned(bounds).bin_of(v) for v in column if v == v}
        return not bounds or len(occupied) == len(bounds) + 1 and not any(
            abs(v - t) < 1e-4 for t in bounds for v in column)
    return True


def prepare(tier):
    return choices.prepare()


def jobs(tier):
    out = []
    for c in range(len(CONFIGS)):
        for k in range(len(SECOND)):
            out.append({'config': c, 'second': k, 'step': 3 if tier == 'quick' else 1})
    out.extend({'known': k} for k in range(len(FINDINGS)))
    return out


def labels(c, k):
    a, b = LABELS[k % len(LABELS)], LABELS[(k // 2 + 1) % len(LABELS)]
    y = np.array([a, b], dtype=np.uint8).T.copy()
    if c['kind'] == 'regr':
        y = y.astype(h.F32) * 2.5 - np.array([0, 1], dtype=h.F32)
    return y


def types_of(c, x):
    return tuple(oracle.Binned(thresholds(c, [r[f] for r in x])) for f in range(len(x[0])))


def only_thresholds(ctx, types, rules):
    """ The conditions of rules must use thresholds in between bins, even if known findings affect the search. """
    for rule in rules:
        for kind, f, threshold in rule.conditions:
            if not ctx.check(kind in ('numerical_leq', 'numerical_gr') and any(
                    abs(threshold - t) <= 1e-5 * max(1.0, abs(t)) for t in types[f].thresholds),
                    f'the threshold of a condition of {rule} does not separate any bins'):
                return 'violation'
    return 'only thresholds'


# Specific inputs that violate the property. See the known findings.
FINDINGS = [
    ('binned-leq-sparse', config(FREQUENCY, 0.3, 2, 2, max_conditions=1), [[1], [1], [1], [2], [2], [2]], 0),
    ('binned-filtered', config(FREQUENCY, 0.5, sparse=True, max_conditions=2),
     [[-4, -4], [-4, -4], [-4, -1], [-4, -2], [-2, 0], [-2, -1]], 5),
    ('equal-width-empty-bin', config(WIDTH, 0.6), [[-8], [-3], [-3], [0], [0], [0]], 4),
    ('equal-width-boundary', config(WIDTH, 0.3, 2, 2), [[-4], [-4], [-2], [-2], [0], [-1]], 1),
    ('binned-zero-weight', config(FREQUENCY, 0.4, alphabet='zero', examples=(WO, 3, 0.5)),
     [[-4, -4], [-4, -8], [-4, -1], [-4, -2], [-4, -4], [-4, -8]], 0),
]


def known(k, ctx):
    name, c, x, l = FINDINGS[k]
    y = labels(c, l)
    ctx.case({'config': c, 'x': x, 'y': y})
    types = types_of(c, x)
    ctx.state()
    broken = Findings(ctx)
    if 'examples' in c:
        spec = p10.Sampled(c, x, y, types, 2)
        for _, rules in choices.explore(lambda: fit(c, x, y, 2), 5):
            spec.validate(broken, rules)
    else:
        p10.validate(broken, c, x, y, types, fit(c, x, y))
    if broken.messages:
        ctx.violation(broken.messages[0], name)


class Findings:
    """ Collects violations of a specific input. """

    def __init__(self, ctx):
        self.messages = []
        self.step = ctx.step

    def violation(self, message, finding=None):
        self.messages.append(message)

    def check(self, condition, message, finding=None):
        if not condition:
            self.messages.append(message)
        return condition


def run(job, ctx):
    if 'known' in job:
        known(job['known'], ctx)
        return
    c = CONFIGS[job['config']]
    alphabet = ALPHABETS[c['alphabet']]
    second = SECOND[job['second']]
    for k, values in enumerate(itertools.product(alphabet, repeat=N)):
        if (k + job['second']) % job['step']:
            continue
        x = [[a, alphabet[b]] for a, b in zip(values, second)]
        y = labels(c, k)
        ctx.case({'config': c, 'x': x, 'y': y})
        rules = fit(c, x, y)
        ctx.state()
        ctx.outcome([r.key() for r in rules])
        types = types_of(c, x)
        if all(regular(c, [r[f] for r in x]) for f in range(2)):
            ctx.count(p10.validate(ctx, c, x, y, types, rules))
        else:
            ctx.count(only_thresholds(ctx, types, rules))
