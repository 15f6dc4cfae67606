"""
P15: predictions that take dependencies between labels into account are optimal among all known or all possible label
vectors.

Explores all sets of known label vectors (together with different frequencies) for a small number of labels, on all
vectors of scores over a grid, for all loss functions, all types of predictors, formats of the predictions and models for
the calibration of probabilities. The predictions are compared to a brute-force search over the label vectors. The sets
of label vectors that are gathered from training data are compared to the label matrices of all small datasets.
"""
import itertools

import numpy as np
import scipy.sparse as sp

import harness as h

PROPERTY = 'P15'
TOL = 1e-9
BIG = 800.0
GRIDS = {1: (-BIG, -2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, BIG), 2: (-BIG, -2.0, -0.5, 0.0, 0.5, 0.7, 1.0, 2.5, BIG),
         3: (-3.0, -0.5, 0.0, 0.5, 1.25), 4: (-1.0, 0.0, 0.6)}
BOUNDS = {'labels': '<= 4', 'known label vectors': 'all non-empty sets for <= 3 labels, all sets of <= 2 (thorough: <= 4) '
          'and of >= 15 label vectors for 4 labels', 'scores': {str(k): len(v)**k for k, v in GRIDS.items()},
          'loss functions': 6, 'calibration models': 4}
ASSUMPTIONS = ['If two candidates differ by less than 1e-9 in terms of the optimized measure, either one is accepted, '
               'unless they are necessarily tied.']
LOSSES = ('logistic-decomposable', 'logistic-non-decomposable', 'squared-error-decomposable', 'squared-error-non-decomposable',
          'squared-hinge-decomposable', 'squared-hinge-non-decomposable')
# (binary predictor, based on probabilities, whether the calibration models are used)
BINARY = [('auto', False, True), ('output-wise', False, True), ('output-wise', True, True), ('output-wise', True, False),
          ('example-wise', False, True), ('example-wise', True, True), ('example-wise', True, False), ('gfm', True, True),
          ('gfm', True, False)]
PROBABILITY = [('auto', True), ('output-wise', True), ('output-wise', False), ('marginalized', True), ('marginalized', False)]
BINS = [[(0.2, 0.1), (0.6, 0.55), (0.9, 0.7)], [], [(0.05, 0.3), (0.5, 0.45)], [(0.5, 0.8), (1.0, 0.9)]]
CALIBRATION = ('none', 'marginal', 'joint', 'both')


def vectors(num_labels):
    return list(itertools.product((0, 1), repeat=num_labels))


def label_sets(num_labels, tier):
    all_vectors = vectors(num_labels)
    if num_labels <= 3:
        sizes = range(1, len(all_vectors) + 1)
    else:
        sizes = [1, 2, 15, 16] + ([3, 4] if tier == 'thorough' else [])
    out = []
    for size in sizes:
        out.extend(itertools.combinations(all_vectors, size))
    return out


def jobs(tier):
    out = []
    for num_labels in (1, 2, 3, 4):
        n = len(label_sets(num_labels, tier))
        for loss in LOSSES:
            size = {1: 3, 2: 15, 3: 128, 4: 170 if tier != 'thorough' else 500}[num_labels]
            for lo, hi in h.chunks(n, size):
                out.append({'part': 'predict', 'labels': num_labels, 'loss': loss, 'lo': lo, 'hi': hi, 'tier': tier})
    for n, num_labels in ((1, 3), (2, 3), (3, 3), (4, 2)) + (((4, 3),) if tier == 'thorough' else ()):
        total = 2**(n * num_labels)
        for lo, hi in h.chunks(total, 512):
            out.append({'part': 'gather', 'examples': n, 'labels': num_labels, 'lo': lo, 'hi': hi})
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Reference
# ---------------------------------------------------------------------------------------------------------------------

def calibrate(bins, p):
    """ Linear interpolation between the bins, (0, 0) and (1, 1). """
    points = list(bins)
    if not points or points[0][0] > 0:
        points.insert(0, (0.0, 0.0))
    if points[-1][0] < 1:
        points.append((1.0, 1.0))
    return np.interp(p, [t for t, _ in points], [v for _, v in points])


def logistic(s):
    with np.errstate(over='ignore'):
        return np.where(s < 0, np.exp(np.minimum(s, 0)) / (1 + np.exp(np.minimum(s, 0))), 1 / (1 + np.exp(-np.maximum(s, 0))))


def label_losses(loss, scores):
    """ The terms that irrelevant and relevant labels contribute to a loss, as an array (2, rows, labels). """
    out = []
    for y in (0, 1):
        t = 1.0 if y else -1.0
        if loss.startswith('logistic'):
            out.append(-t * scores)
        elif loss.startswith('squared-error'):
            out.append((t - scores)**2)
        else:
            out.append(np.maximum(1 - scores, 0)**2 if y else np.maximum(scores, 0)**2)
    return np.array(out)


def distances(loss, scores, known):
    """ The losses, if each of the known label vectors was the true one, as an array (rows, label vectors). """
    terms = label_losses(loss, scores)
    sel = np.stack([np.where(np.array(v, dtype=bool), terms[1], terms[0]) for v in known], axis=1)
    if loss == 'logistic-decomposable':
        return np.mean(np.logaddexp(0, sel), axis=2), terms
    if loss == 'logistic-non-decomposable':
        return np.logaddexp.reduce(np.concatenate([np.zeros(sel.shape[:2] + (1,)), sel], axis=2), axis=2), terms
    if loss.endswith('non-decomposable'):
        return np.sqrt(np.sum(sel, axis=2)), terms
    return np.mean(sel, axis=2), terms


class Reference:

    def __init__(self, loss, scores, known, frequencies, marginal, joint):
        self.loss, self.scores, self.known, self.frequencies = loss, scores, known, frequencies
        self.marginal_bins, self.joint_bins = marginal, joint
        self.matrix = np.array(known, dtype=bool)

    def marginals(self, calibrated):
        p = logistic(self.scores)
        if calibrated and self.marginal_bins is not None:
            p = np.stack([calibrate(self.marginal_bins[i], p[:, i]) for i in range(p.shape[1])], axis=1)
        return p

    def joint(self, calibrated):
        p = self.marginals(calibrated)
        j = np.stack([np.prod(np.where(v, p, 1 - p), axis=1) for v in self.matrix], axis=1)
        if calibrated and self.joint_bins is not None:
            j = np.stack([calibrate(self.joint_bins[i], j[:, i]) for i in range(j.shape[1])], axis=1)
        return j

    def normalized(self, calibrated):
        j = self.joint(calibrated)
        total = np.sum(j, axis=1, keepdims=True)
        return np.where(total > 0, j / np.where(total > 0, total, 1), 0)

    def threshold(self):
        return 0.5 if self.loss.startswith('squared-hinge') else 0.0


def check_closest(ctx, name, ref, got, distance, equal_terms):
    """
    `equal_terms` is an array (rows, labels) that specifies whether a label being relevant or irrelevant makes no
    difference at all.
    """
    best = np.min(distance, axis=1, keepdims=True)
    close = (distance <= best + TOL) | (distance == best)
    equal = np.all(got[:, None, :].astype(bool) == ref.matrix[None, :, :], axis=2)
    if not np.all(np.any(equal, axis=1)):
        i = int(np.argmin(np.any(equal, axis=1)))
        ctx.violation(f'{name}: {got[i].tolist()} is not among the known label vectors (scores {ref.scores[i].tolist()})')
        return
    ok = np.any(equal & close, axis=1)
    if not np.all(ok):
        i = int(np.argmin(ok))
        ctx.violation(f'{name}: {got[i].tolist()} is not the closest label vector to the scores {ref.scores[i].tolist()}, '
                      f'{ref.known[int(np.argmin(distance[i]))]} is')
        return
    if equal_terms is None:
        return
    for i in np.nonzero(np.sum(close, axis=1) > 1)[0]:
        tied = np.nonzero(close[i])[0]
        diff = np.any(ref.matrix[tied] != ref.matrix[tied[0]], axis=0)
        if np.all(equal_terms[i][diff]):
            frequency = max(ref.frequencies[k] for k in tied)
            k = int(np.argmax(equal[i]))
            ctx.count('ties')
            if ref.frequencies[k] != frequency:
                ctx.violation(f'{name}: {got[i].tolist()} is not the most frequent one among the closest label vectors '
                              f'(scores {ref.scores[i].tolist()})')
                return


def check_gfm(ctx, name, ref, got, joint):
    num_labels = ref.scores.shape[1]
    candidates = np.array(vectors(num_labels), dtype=float)
    known = ref.matrix.astype(float)
    inter = candidates @ known.T
    total = candidates.sum(axis=1)[:, None] + known.sum(axis=1)[None, :]
    f1 = np.where(total > 0, 2 * inter / np.where(total > 0, total, 1), 1.0)
    expected = joint @ f1.T
    best = np.max(expected, axis=1)
    index = (got.astype(int) @ (2**np.arange(num_labels)[::-1])).astype(int)
    value = expected[np.arange(len(index)), index]
    ok = value >= best - TOL
    if not np.all(ok):
        i = int(np.argmin(ok))
        ctx.violation(f'{name}: the expected F1-measure of {got[i].tolist()} is {value[i]!r}, but '
                      f'{candidates[int(np.argmax(expected[i]))].tolist()} achieves {best[i]!r} (scores {ref.scores[i].tolist()})')


def check_output_wise(ctx, name, got, values, threshold, exact):
    want = values > threshold
    sure = (np.abs(values - threshold) > TOL) | exact
    bad = sure & (got.astype(bool) != want)
    if np.any(bad):
        i = int(np.argmax(np.any(bad, axis=1)))
        ctx.violation(f'{name}: predicts {got[i].tolist()} for {values[i].tolist()}')


def check_binary(ctx, name, kind, based, calibrated, ref, got):
    calibration = calibrated and (ref.marginal_bins is not None or ref.joint_bins is not None)
    if kind == 'auto':
        kind = 'example-wise' if ref.loss.endswith('non-decomposable') else 'output-wise'
    if kind == 'output-wise':
        if based:
            exact = (ref.scores == 0) & (not (calibrated and ref.marginal_bins is not None))
            check_output_wise(ctx, name, got, ref.marginals(calibrated), 0.5, exact)
        else:
            check_output_wise(ctx, name, got, ref.scores, ref.threshold(), np.ones_like(ref.scores, dtype=bool))
    elif kind == 'example-wise':
        if based:
            equal = None if calibration else ref.scores == 0
            check_closest(ctx, name, ref, got, 1 - ref.joint(calibrated), equal)
        else:
            distance, terms = distances(ref.loss, ref.scores, ref.known)
            check_closest(ctx, name, ref, got, distance, terms[0] == terms[1])
    else:
        check_gfm(ctx, name, ref, got, ref.normalized(calibrated))


def check_probabilities(ctx, name, kind, calibrated, ref, got):
    if kind == 'auto':
        kind = 'marginalized' if ref.loss.endswith('non-decomposable') else 'output-wise'
    if kind == 'output-wise':
        want = ref.marginals(calibrated)
    else:
        want = ref.normalized(calibrated) @ ref.matrix.astype(float)
    if not h.close(got, want):
        i = int(np.argmax(np.any(~(np.abs(got - want) <= 1e-9 + 1e-9 * np.abs(want)), axis=1)))
        ctx.violation(f'{name}: predicts {got[i].tolist()} instead of {want[i].tolist()} for the scores {ref.scores[i].tolist()}')
    elif np.any(got < 0) or np.any(got > 1 + TOL):
        ctx.violation(f'{name}: predicts values that are not in [0, 1]')


# ---------------------------------------------------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------------------------------------------------

def craft_models(num_labels, known, frequencies):
    from mlrl.common.cython.output_space_info import LabelVectorSet
    from mlrl.common.cython.probability_calibration import IsotonicJointProbabilityCalibrationModel, \
        IsotonicMarginalProbabilityCalibrationModel, NoJointProbabilityCalibrationModel, \
        NoMarginalProbabilityCalibrationModel
    state = [([i for i, v in enumerate(vector) if v], f) for vector, f in zip(known, frequencies)]
    info = LabelVectorSet()
    info.__setstate__((_version(), state))
    marginal_bins = [BINS[i % len(BINS)] for i in range(num_labels)]
    joint_bins = [BINS[(sum(v) + 3 * v[0]) % len(BINS)] for v in known]
    none = (NoMarginalProbabilityCalibrationModel(), NoJointProbabilityCalibrationModel())
    for m in none:
        m.__setstate__(())
    marginal = IsotonicMarginalProbabilityCalibrationModel()
    marginal.__setstate__((0, [list(b) for b in marginal_bins]))
    joint = IsotonicJointProbabilityCalibrationModel()
    joint.__setstate__((0, [list(b) for b in joint_bins]))
    return info, {'none': (none[0], none[1], None, None), 'marginal': (marginal, none[1], marginal_bins, None),
                  'joint': (none[0], joint, None, joint_bins), 'both': (marginal, joint, marginal_bins, joint_bins)}


_V = []


def _version():
    if not _V:
        l = h.make('boomer', max_rules=1, binary_predictor='example-wise')
        l.fit(np.array([[0.], [1.]], dtype=h.F32), np.array([[0], [1]], dtype=np.uint8))
        _V.append(l.output_space_info_.__reduce__()[2][0])
    return _V[0]


def options(*pairs):
    return '{' + ','.join(f'{k}={str(v).lower()}' for k, v in pairs) + '}'


_LEARNERS = {}


def learners(num_labels, loss):
    key = (num_labels, loss)
    if key not in _LEARNERS:
        x = np.zeros((2, 1), dtype=h.F32)
        y = np.array([[0] * num_labels, [1] * num_labels], dtype=np.uint8)
        out = []
        base = {'max_rules': 1, 'loss': loss, 'head_type': 'complete', 'statistic_format': 'dense'}
        for kind, based, calibrated in BINARY:
            if based and not loss.startswith('logistic'):
                continue
            value = kind
            if kind == 'gfm':
                value += options(('use_probability_calibration', calibrated))
            elif kind != 'auto':
                value += options(('based_on_probabilities', based), ('use_probability_calibration', calibrated))
            for fmt in ('dense', 'sparse'):
                l = h.make('boomer', binary_predictor=value, prediction_format=fmt, **base).fit(x, y)
                out.append((f'binary_predictor={value} ({fmt})', 'binary', kind, based, calibrated, l))
        if loss.startswith('logistic'):
            for kind, calibrated in PROBABILITY:
                value = kind if kind == 'auto' else kind + options(('use_probability_calibration', calibrated))
                l = h.make('boomer', probability_predictor=value, **base).fit(x, y)
                out.append((f'probability_predictor={value}', 'probability', kind, True, calibrated, l))
        _LEARNERS[key] = out
    return _LEARNERS[key]


def frequency_patterns(size):
    return [[1] * size, [1 + (i % 3) for i in range(size)], [1 + ((size - i) * 2) % 5 for i in range(size)]]


def run_predict(job, ctx):
    num_labels, loss = job['labels'], job['loss']
    grid = np.array(list(itertools.product(GRIDS[num_labels], repeat=num_labels)))
    if loss.startswith('squared'):
        grid = grid[np.max(np.abs(grid), axis=1) < BIG]
    x = np.arange(1, len(grid) + 1, dtype=h.F32).reshape(-1, 1)
    model = h.craft([([('nominal_eq', 0, i + 1)], dict(enumerate(row.tolist())), True) for i, row in enumerate(grid)], True)
    ls = learners(num_labels, loss)
    sets = label_sets(num_labels, job['tier'])
    for index in range(job['lo'], job['hi']):
        known = sets[index]
        size = len(known)
        order = known if index % 2 else known[::-1]
        patterns = frequency_patterns(size)
        patterns = patterns if num_labels <= 2 else [patterns[index % 3]]
        for frequencies in patterns:
            info, models = craft_models(num_labels, order, frequencies)
            for calibration in CALIBRATION if loss.startswith('logistic') else ('none',):
                marginal, joint, marginal_bins, joint_bins = models[calibration]
                ref = Reference(loss, grid, order, frequencies, marginal_bins, joint_bins)
                for name, what, kind, based, calibrated, l in ls:
                    if kind == 'output-wise' and (size > 2 or calibration in ('joint', 'both')):
                        continue
                    if calibration != 'none' and not (based and calibrated):
                        # The models must be ignored, which is verified for a part of the sets
                        if index % 5:
                            continue
                    ctx.case({'loss': loss, 'known': order, 'frequencies': frequencies, 'calibration': calibration,
                              'predictor': name})
                    ctx.state(len(grid))
                    ctx.step()
                    l.model_, l.output_space_info_ = model, info
                    l.marginal_probability_calibration_model_ = marginal
                    l.joint_probability_calibration_model_ = joint
                    if what == 'binary':
                        got = l.predict(x)
                        if sp.issparse(got):
                            indptr, indices = got.indptr, got.indices
                            ctx.check(all(np.all(np.diff(indices[indptr[i]:indptr[i + 1]]) > 0)
                                          for i in range(got.shape[0])), f'{name}: indices are not sorted')
                        got = h.dense(got)
                        check_binary(ctx, name, kind, based, calibrated, ref, got)
                    else:
                        got = h.dense(l.predict_proba(x))
                        if num_labels == 1:
                            # By convention, the probabilities of both classes are returned
                            ctx.check(got.shape[1] == 2 and h.close(got[:, 0], 1 - got[:, 1]), f'{name}: {got[0].tolist()}')
                            got = got[:, -1:]
                        check_probabilities(ctx, name, kind, calibrated, ref, got)
                    ctx.outcome(hash(got.tobytes()) & 0xfff)


def run_gather(job, ctx):
    n, num_labels = job['examples'], job['labels']
    x = np.arange(n, dtype=h.F32).reshape(-1, 1)
    kinds = [dict(binary_predictor='example-wise'), dict(binary_predictor='gfm'), dict(probability_predictor='marginalized')]
    ls = [h.make('boomer', max_rules=1, **k) for k in kinds]
    for index in range(job['lo'], job['hi']):
        bits = [(index >> i) & 1 for i in range(n * num_labels)]
        y = np.array(bits, dtype=np.uint8).reshape(n, num_labels)
        want = {}
        for row in y:
            v = tuple(int(i) for i in np.nonzero(row)[0])
            want[v] = want.get(v, 0) + 1
        for fmt in ('dense', 'csr'):
            l = ls[(index + (fmt == 'csr')) % 3]
            ctx.case({'y': y.tolist(), 'format': fmt})
            ctx.state()
            ctx.step()
            l.fit(x, y if fmt == 'dense' else sp.csr_array(y))
            info = l.output_space_info_
            state = info.__reduce__()[2][1]
            got = {tuple(v): f for v, f in state}
            ctx.check(len(got) == len(state), f'the label vectors {state} are not unique')
            ctx.check(got == want, f'the known label vectors are {got} instead of {want}')
            ctx.outcome(len(want))


def run(job, ctx):
    if job['part'] == 'predict':
        run_predict(job, ctx)
    else:
        run_gather(job, ctx)
