"""
P14: the calibration of probabilities is an isotonic regression on the training or holdout set.

For all small label matrices, several models and all possible holdout sets, the calibration models that are learned are
compared to an independent isotonic regression of the true labels (label vectors) on the marginal (joint) probabilities
that are predicted for the training or holdout set. Predicted probabilities are monotonic functions of the
uncalibrated ones and never leave [0, 1]. The bins of all calibration models over a small grid are used for predictions.
"""
import itertools
import math

import numpy as np
import scipy.sparse as sp

import choices
import harness as h
import p15

PROPERTY = 'P14'
BOUNDS = {'examples': '6 for one label (all label vectors), 4 for two labels (all label matrices)', 'rules': '<= 4',
          'holdout': 'none and all sets of 2 or 3 examples', 'bins per label': '<= 3 on a grid of 5 thresholds and 4 '
          'probabilities (thorough: 6 and 5)'}
ASSUMPTIONS = ['Datasets are skipped, if two predicted probabilities differ by rounding errors only.']

X6 = np.array([[0, 1], [0, 0], [1, 0], [2, 1], [3, 0], [3, 1]], dtype=h.F32)
X4 = np.array([[0, 1], [0, 1], [1, 0], [2, 0]], dtype=h.F32)
XJ = np.array([[0, 0], [1, 0], [2, 1], [3, 1]], dtype=h.F32)


def learners():
    out = []
    for loss in ('logistic-decomposable', 'logistic-non-decomposable'):
        for max_rules, shrinkage, induction in ((2, 1.0, 'top-down-greedy{max_conditions=1}'), (3, 0.5, 'top-down-greedy{max_conditions=1}'),
                                                (4, 0.3, 'top-down-greedy{max_conditions=2}')):
            out.append({'loss': loss, 'max_rules': max_rules, 'shrinkage': shrinkage, 'rule_induction': induction,
                        'head_type': 'complete' if max_rules != 3 else 'single', 'l2_regularization_weight': 0.5})
    return out


LEARNERS = learners()
HOLDOUT = (None, 0.34, 0.5)


def prepare(tier):
    return choices.prepare()


def jobs(tier):
    out = []
    for i in range(len(LEARNERS)):
        for holdout in HOLDOUT:
            for use in ('true', 'false'):
                if holdout is None and use == 'false':
                    continue
                for lo, hi in h.chunks(64, 16 if holdout else 64):
                    if holdout and tier == 'quick' and (lo // 16 + i) % 2:
                        continue
                    out.append({'part': 'fit', 'learner': i, 'data': 'X6', 'holdout': holdout, 'use': use, 'lo': lo, 'hi': hi})
                for data in ('X4', 'XJ'):
                    for lo, hi in h.chunks(256, 64):
                        if holdout and tier == 'quick' and (lo // 64 + i + (data == 'X4')) % 4:
                            continue
                        out.append({'part': 'fit', 'learner': i, 'data': data, 'holdout': holdout, 'use': use, 'lo': lo,
                                    'hi': hi})
    grid = (0.1, 0.25, 0.5, 0.75, 1.0), (0.0, 0.3, 0.7, 1.0)
    if tier == 'thorough':
        grid = (0.1, 0.25, 0.4, 0.6, 0.75, 1.0), (0.0, 0.2, 0.5, 0.7, 1.0)
    total = len(bin_lists(grid))
    for lo, hi in h.chunks(total, 256):
        out.append({'part': 'calibrate', 'grid': grid, 'lo': lo, 'hi': hi})
    out.append({'part': 'zero'})
    for i in range(len(LEARNERS)):
        out.append({'part': 'pruning', 'learner': i})
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Reference
# ---------------------------------------------------------------------------------------------------------------------

class Ambiguous(Exception):
    pass


def logistic(s):
    return math.exp(s) / (1 + math.exp(s)) if s < 0 else 1 / (1 + math.exp(-s))


def scores_of(rules, x, num_labels):
    s = np.zeros((len(x), num_labels))
    for r in rules:
        for i in range(len(x)):
            if r.default or h.covers(r, x[i]):
                for o, v in r.head.items():
                    s[i, o] += v
    return s


def group(points):
    """ Groups (probability, truth) by the probability. Returns a list of [probability, mean, count]. """
    out = []
    for p, t in sorted(points):
        if out and p == out[-1][0]:
            out[-1][1].append(t)
        else:
            if out and p - out[-1][0] < 1e-12:
                raise Ambiguous()
            out.append([p, [t]])
    return [(p, sum(t) / len(t), len(t)) for p, t in out]


def isotonic(groups):
    """ The pool adjacent violators algorithm. Each pool is represented by its smallest probability. """
    pools = []
    for p, mean, n in groups:
        pools.append([p, mean, n])
        while len(pools) > 1 and pools[-2][1] >= pools[-1][1] - 1e-12:
            _, m, k = pools.pop()
            pools[-1][1] = (pools[-1][1] * pools[-1][2] + m * k) / (pools[-1][2] + k)
            pools[-1][2] += k
    return [(p, m) for p, m, _ in pools]


def unweighted(groups):
    """ Known finding: probabilities are pooled without taking into account how many examples they stand for. """
    bins = [[p, m] for p, m, _ in groups]
    n = len(bins)
    pools = list(range(n))
    i = 0
    while i < n and pools[i] + 1 < n:
        j = pools[i] + 1
        if bins[j][1] > bins[i][1]:
            i = j
            continue
        count = 2
        bins[i][1] += (bins[j][1] - bins[i][1]) / count
        last = bins[j][1]
        j = pools[j] + 1
        while j < n and not bins[j][1] > last:
            count += 1
            bins[i][1] += (bins[j][1] - bins[i][1]) / count
            last = bins[j][1]
            j = pools[j] + 1
        pools[i] = j - 1
        pools[j - 1] = i
        if i > 0:
            i = pools[i - 1]
    out = []
    i = 0
    while i < n:
        out.append(tuple(bins[i]))
        i = pools[i] + 1
    return out


def equal(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 for p, q in zip(a, b) for x, y in zip(p, q))


def calibrate(bins, p):
    return float(p15.calibrate(bins, np.array([p]))[0])


def compare(ctx, what, got, variants):
    """ `variants` is a list of (finding or None, points). """
    first = None
    for finding, points in variants:
        groups = group(points)
        want = isotonic(groups)
        first = first or want
        if equal(got, want):
            if finding:
                ctx.violation(f'{what}: {got} instead of {first}', finding)
            return True
        if equal(got, unweighted(groups)):
            ctx.violation(f'{what}: {got} instead of {first}', finding or 'isotonic-unweighted')
            return True
    ctx.violation(f'{what}: {got} instead of {first}')
    return False


def bins_of(model):
    return [[(float(t), float(p)) for t, p in bins] for bins in model.__reduce__()[2][1]]


def verify(ctx, l, rules, x, y, examples, extra=()):
    """
    `extra` is a list of further (finding, rules), if a deviation is to be expected.
    """
    num_labels = y.shape[1]
    marginal = bins_of(l.marginal_probability_calibration_model_)
    joint = bins_of(l.joint_probability_calibration_model_)
    known = [tuple(v) for v, _ in l.output_space_info_.__reduce__()[2][1]]
    ctx.check(len(marginal) == num_labels and len(joint) == len(known), 'the number of calibration models is wrong')
    candidates = [(None, rules)] + list(extra)
    scores = {f: scores_of(r, x, num_labels) for f, r in candidates}
    for o in range(num_labels):
        variants = [(f, [(logistic(scores[f][i, o]), int(y[i, o])) for i in examples]) for f, _ in candidates]
        compare(ctx, f'marginal calibration of label {o}', marginal[o], variants)
    for k, vector in enumerate(known):
        variants = []
        for f, _ in candidates:
            correct, prefix = [], []
            for i in examples:
                p = 1.0
                for o in range(num_labels):
                    m = logistic(scores[f][i, o])
                    m = calibrate(marginal[o], m)
                    p *= m if o in vector else 1 - m
                relevant = tuple(np.nonzero(y[i])[0].tolist())
                correct.append((p, int(relevant == vector)))
                prefix.append((p, int(relevant[:len(vector)] == vector)))
            variants.append((f, correct))
            variants.append((f or 'joint-prefix', prefix))
        compare(ctx, f'joint calibration of label vector {vector}', joint[k], variants)
    for bins in marginal + joint:
        ctx.check(all(a[0] < b[0] and a[1] < b[1] + 1e-12 for a, b in zip(bins, bins[1:])), f'not increasing: {bins}')
        ctx.check(all(0 <= v <= 1 for b in bins for v in b), f'not in [0, 1]: {bins}')


# ---------------------------------------------------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------------------------------------------------

def holdout_string(holdout):
    return 'none' if holdout is None else f'random{{holdout_set_size={holdout}}}'


_PARTITIONS = {}


def training_set(n, holdout, prefix):
    key = (n, holdout, tuple(prefix))
    if key not in _PARTITIONS:
        x = np.arange(n, dtype=h.F32).reshape(n, 1)
        y = np.array([[(-4.0)**(i + 1)] for i in range(n)], dtype=h.F32)
        l = h.learner('regr', {'default_rule': 'false', 'shrinkage': 1.0, 'l2_regularization_weight': 0.0,
                               'head_type': 'complete', 'max_rules': n, 'holdout': holdout_string(holdout),
                               'rule_induction': 'top-down-greedy{max_conditions=1}'}, nominal=[0])
        model, _, _ = choices.with_choices(prefix, lambda: l.fit(x, y).model_)
        index = {float(v): i for i, v in enumerate(y[:, 0])}
        _PARTITIONS[key] = sorted({index[r.head[0]] for r in h.rules_of(model) if r.head[0] in index})
    return _PARTITIONS[key]


def run_fit(job, ctx):
    x = {'X6': X6, 'X4': X4, 'XJ': XJ}[job['data']]
    num_labels = 1 if job['data'] == 'X6' else 2
    n = len(x)
    params = dict(LEARNERS[job['learner']], holdout=holdout_string(job['holdout']),
                  marginal_probability_calibration=f'isotonic{{use_holdout_set={job["use"]}}}',
                  joint_probability_calibration=f'isotonic{{use_holdout_set={job["use"]}}}')
    for index in range(job['lo'], job['hi']):
        y = np.array([(index >> i) & 1 for i in range(n * num_labels)], dtype=np.uint8).reshape(n, num_labels)
        fmt = sp.csr_array(y) if index % 3 == 0 else y
        l = h.make('boomer', **params)
        seen = set()
        stack = [[]]
        while stack:
            p = stack.pop()
            _, taken, alternatives = choices.with_choices(p, lambda: l.fit(x, fmt))
            for i in range(len(taken) - 1, len(p) - 1, -1):
                stack.extend(taken[:i] + [v] for v in range(alternatives[i]) if v != taken[i])
            training = list(range(n)) if job['holdout'] is None else training_set(n, job['holdout'], taken)
            if tuple(training) in seen:
                continue
            seen.add(tuple(training))
            examples = training if job['holdout'] is None or job['use'] == 'false' else \
                [i for i in range(n) if i not in training]
            ctx.case({'params': params, 'x': x.tolist(), 'y': y.tolist(), 'choices': taken, 'calibrated on': examples})
            ctx.state()
            ctx.step()
            rules = h.rules_of(l.model_)
            try:
                verify(ctx, l, rules, x, y, examples)
            except Ambiguous:
                ctx.count('ambiguous')
            ctx.outcome(hash(str(bins_of(l.marginal_probability_calibration_model_))) & 0xfff)
            got = h.dense(l.predict_proba(x))
            ctx.check(np.all((got >= 0) & (got <= 1 + 1e-9)), f'{got.tolist()} is not in [0, 1]',
                      'isotonic-nan' if np.any(np.isnan(got)) else None)
        if job['holdout'] is not None:
            want = math.comb(n, int(n * job['holdout']))
            ctx.check(len(seen) == want, f'{len(seen)} instead of {want} holdout sets')


def run_pruning(job, ctx):
    """ If not all rules of a model are used, probabilities should be calibrated to the predictions of the used ones. """
    for index in range(64):
        y = np.array([(index >> i) & 1 for i in range(6)], dtype=np.uint8).reshape(6, 1)
        params = dict(LEARNERS[job['learner']], max_rules=5, holdout='none', marginal_probability_calibration='isotonic',
                      joint_probability_calibration='isotonic',
                      global_pruning='post-pruning{use_holdout_set=false,min_rules=1,interval=2,remove_unused_rules=false}')
        l = h.make('boomer', **params)
        choices.with_choices([], lambda: l.fit(X6, y))
        rules = h.rules_of(l.model_)
        used = rules[:l.model_.get_num_used_rules()]
        ctx.case({'params': params, 'x': X6.tolist(), 'y': y.tolist(), 'used rules': len(used)})
        ctx.state()
        ctx.step()
        try:
            verify(ctx, l, used, X6, y, range(6), [] if len(used) == len(rules) else [('calibration-unused-rules', rules)])
        except Ambiguous:
            ctx.count('ambiguous')
        ctx.outcome(len(used))


def bin_lists(grid):
    thresholds, probabilities = grid
    out = [[]]
    for k in (1, 2, 3):
        for t in itertools.combinations(thresholds, k):
            for p in itertools.combinations(probabilities, k):
                out.append(list(zip(t, p)))
    return out


_CACHE = {}


def calibrated_learner():
    if not _CACHE:
        x = np.zeros((2, 1), dtype=h.F32)
        y = np.array([[0, 0], [1, 1]], dtype=np.uint8)
        l = h.make('boomer', max_rules=1, head_type='complete', probability_predictor='output-wise').fit(x, y)
        ps = [0.01, 0.1, 0.17, 0.25, 0.3, 0.45, 0.5, 0.6, 0.75, 0.8, 0.95, 1 - 1e-6]
        scores = [math.log(p / (1 - p)) for p in ps]
        scores += [-745.2 * 2, 745.2, 0.0, -30.0]
        l.model_ = h.craft([([('nominal_eq', 0, i + 1)], {0: s, 1: -s}, True) for i, s in enumerate(scores)], True)
        _CACHE.update(l=l, scores=scores, x=np.arange(1, len(scores) + 1, dtype=h.F32).reshape(-1, 1))
    return _CACHE


def probe(ctx, bins, finding=None):
    from mlrl.common.cython.probability_calibration import IsotonicMarginalProbabilityCalibrationModel
    c = calibrated_learner()
    model = IsotonicMarginalProbabilityCalibrationModel()
    model.__setstate__((0, [list(bins), list(bins)]))
    ctx.check([tuple(b) for b in bins_of(model)[0]] == [tuple(b) for b in bins], 'bins are not restored')
    c['l'].marginal_probability_calibration_model_ = model
    got = c['l'].predict_proba(c['x'])
    ctx.case({'bins': bins})
    ctx.state(2 * len(c['scores']))
    ctx.step()
    for o, sign in ((0, 1), (1, -1)):
        for i, s in enumerate(c['scores']):
            want = calibrate(bins, logistic(sign * s))
            ctx.check(abs(got[i, o] - want) <= 1e-9, f'probability {logistic(sign * s)!r} is calibrated to {got[i, o]!r} instead of {want!r}',
                      finding if math.isnan(got[i, o]) and logistic(sign * s) == 0 else None)
    order = np.argsort(c['scores'])
    ctx.outcome(round(float(got[3, 0]), 6))
    if finding is None:
        ctx.check(np.all(np.diff(got[order, 0]) >= -1e-12), 'calibrated probabilities are not monotonic')


def run_calibrate(job, ctx):
    for bins in bin_lists(job['grid'])[job['lo']:job['hi']]:
        probe(ctx, bins)


def run_zero(job, ctx):
    for bins in ([(0.0, 0.2)], [(0.0, 0.0), (0.5, 0.3)], [(0.0, 0.2), (1.0, 0.8)]):
        probe(ctx, bins, 'isotonic-nan')


def run(job, ctx):
    globals()['run_' + job['part']](job, ctx)
