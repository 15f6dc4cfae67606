"""
P04: the representation of the ground truth, of internal statistics and of predictions does not affect their values.

Explores all label matrices (and regression matrices) of a bounded shape, each one stored in many ways, for a set of
configurations that cover the losses, heads, samplings, holdouts and predictors. The learners must result in the same
model and the same predictions of all types. The sparse and dense representation of gradients must result in the same
models, and sparse and dense predictions must be equal.
"""
import numpy as np
import scipy.sparse as sp

import harness as h

PROPERTY = 'P04'
X = {3: [[0, 0], [1, 0], [0, 1]], 4: [[0, 0], [1, 0], [0, 1], [2, 1]],
     6: [[0, 0], [1, 0], [0, 1], [2, 1], [1, 2], [2, 0]]}
BASE = {'max_rules': 3}
BOOMER = [
    {}, {'loss': 'logistic-non-decomposable', 'binary_predictor': 'gfm', 'probability_predictor': 'marginalized',
         'joint_probability_calibration': 'isotonic'},
    {'loss': 'squared-hinge-decomposable', 'head_type': 'single', 'default_rule': 'false'},
    {'loss': 'squared-error-decomposable', 'head_type': 'partial-fixed{output_ratio=0.5,min_outputs=2}'},
    {'loss': 'squared-error-non-decomposable', 'head_type': 'complete', 'binary_predictor': 'example-wise'},
    {'loss': 'squared-hinge-non-decomposable', 'label_binning': 'equal-width{bin_ratio=0.5,min_bins=1}',
     'head_type': 'complete'},
    {'head_type': 'partial-dynamic{threshold=0.5}', 'marginal_probability_calibration': 'isotonic',
     'binary_predictor': 'output-wise{based_on_probabilities=true}'},
    {'instance_sampling': 'stratified-output-wise{sample_size=0.5}', 'holdout': 'stratified-example-wise',
     'global_pruning': 'post-pruning{use_holdout_set=true,min_rules=1,interval=1}'},
    {'instance_sampling': 'stratified-example-wise{sample_size=0.5}', 'holdout': 'stratified-output-wise',
     'rule_pruning': 'irep', 'marginal_probability_calibration': 'isotonic',
     'joint_probability_calibration': 'isotonic', 'binary_predictor': 'example-wise{based_on_probabilities=true}'},
    {'instance_sampling': 'with-replacement{sample_size=0.7}', 'holdout': 'random', 'feature_sampling':
     'without-replacement{sample_size=0.5}', 'output_sampling': 'without-replacement{min_samples=1}',
     'rule_pruning': 'irep', 'global_pruning': 'pre-pruning{use_holdout_set=true,min_rules=1}'},
]
SECO = [{}, {'head_type': 'partial', 'lift_function': 'peak'}, {'head_type': 'partial', 'lift_function': 'kln',
                                                               'heuristic': 'm-estimate'},
        {'head_type': 'single', 'heuristic': 'accuracy', 'rule_pruning': 'none'},
        {'instance_sampling': 'stratified-output-wise{sample_size=0.67}', 'rule_pruning': 'irep', 'holdout': 'random'}]
REGR = [{}, {'head_type': 'single'}, {'loss': 'squared-error-non-decomposable', 'head_type': 'complete'},
        {'holdout': 'random', 'global_pruning': 'post-pruning{use_holdout_set=true,min_rules=1,interval=1}'},
        {'instance_sampling': 'with-replacement'}]
SPARSE = [{'head_type': 'single'}, {'head_type': 'partial-fixed{output_ratio=0.5,min_outputs=2}'},
          {'head_type': 'complete'}, {'head_type': 'single', 'shrinkage': '1.0'},
          {'head_type': 'partial-dynamic{threshold=0.3}'},
          {'head_type': 'single', 'instance_sampling': 'with-replacement', 'rule_pruning': 'irep'}]
BOUNDS = {'label matrices': 'all of shape 3x3 and 4x2 (quick), 4x3 (thorough)', 'configs': len(BOOMER) + len(SECO)
          + len(REGR) + len(SPARSE)}


def jobs(tier):
    out = []
    shapes = [(3, 3), (4, 2)] if tier == 'quick' else [(3, 3), (4, 2), (4, 3), (6, 2)]
    for n, l in shapes:
        for kind, configs in (('boomer', BOOMER), ('seco', SECO)):
            for c in range(len(configs)):
                for lo, hi in h.chunks(2**(n * l), 256):
                    out.append({'part': 'labels', 'kind': kind, 'config': c, 'n': n, 'l': l, 'lo': lo, 'hi': hi})
        for c in range(len(SPARSE)):
            for lo, hi in h.chunks(2**(n * l), 256):
                out.append({'part': 'statistics', 'config': c, 'n': n, 'l': l, 'lo': lo, 'hi': hi})
    for c in range(len(REGR)):
        for lo, hi in h.chunks(3**6 if tier == 'quick' else 3**8, 365):
            out.append({'part': 'regression', 'config': c, 'n': 3 if tier == 'quick' else 4, 'l': 2, 'lo': lo, 'hi': hi})
    return out


def nth(index, n, l, alphabet, dtype):
    y = np.empty((n, l), dtype=dtype)
    for i in range(n):
        for j in range(l):
            y[i, j] = alphabet[index % len(alphabet)]
            index //= len(alphabet)
    return y


def storages(y, regression):
    coo = sp.coo_array(y)
    csr = sp.csr_array(coo)
    n, l = y.shape
    full = sp.csr_array((y.reshape(-1).copy(), np.tile(np.arange(l), n), np.arange(0, n * l + 1, l)), shape=y.shape)
    rev = csr.copy()
    for i in range(n):
        s = slice(rev.indptr[i], rev.indptr[i + 1])
        rev.data[s], rev.indices[s] = rev.data[s][::-1].copy(), rev.indices[s][::-1].copy()
    rev.has_sorted_indices = False
    dense = [('c', y), ('fortran', np.asfortranarray(y)), ('double', y.astype(np.float64)), ('int', None if regression
             else y.astype(np.int64)), ('bool', None if regression else y.astype(bool)), ('csr', csr),
             ('full', full), ('lil', sp.lil_array(coo))]
    sparse = [('csr', csr), ('csc', sp.csc_matrix(coo)), ('coo', coo), ('lil', sp.lil_array(coo)),
              ('dok', sp.dok_array(coo)), ('full', full), ('unsorted', rev), ('double', csr.astype(np.float64))]
    return [('dense', k, v) for k, v in dense if v is not None] + [('sparse', k, v) for k, v in sparse]


def similar(a, b):
    return len(a[0]) == len(b[0]) and a[1:] == b[1:] and all(
        r[0] == q[0] and r[2:] == q[2:] and [i for i, _ in r[1]] == [i for i, _ in q[1]]
        and h.close([s for _, s in r[1]], [s for _, s in q[1]]) for r, q in zip(a[0], b[0]))


def observe(l, kind, x, seco_rules):
    """ All types of predictions. """
    obs = {'binary': l.predict(x)}
    if kind == 'boomer':
        obs['scores'] = l.predict(x, predict_scores=True)
        try:
            obs['proba'] = l.predict_proba(x)
        except RuntimeError as e:
            obs['proba'] = np.array([[len(str(e))]])
    return obs


def labels(job, ctx):
    n, nl, kind = job['n'], job['l'], job['kind']
    params = dict(BASE, **(BOOMER if kind == 'boomer' else SECO)[job['config']])
    x = np.array(X[n], dtype=np.float32)
    for index in range(job['lo'], job['hi']):
        y = nth(index, n, nl, (0, 1), np.uint8)
        ctx.state()
        ref = None
        previous = None
        for fmt, name, m in storages(y, False):
            if fmt != previous and 'stratified-example-wise' in str(params):
                # The order in which distinct label vectors are processed, and hence the random sample, may differ
                ref = None
            previous = fmt
            for pred in ('dense', 'sparse') if name == 'csr' else ('dense',):
                ctx.case({'params': params, 'kind': kind, 'y': y, 'output_format': fmt, 'storage': name,
                          'prediction_format': pred})
                l = h.make(kind, **dict(params, output_format=fmt, prediction_format=pred)).fit(x, m)
                key = h.model_key(l.model_)
                obs = observe(l, kind, x, None)
                ctx.step()
                if pred == 'sparse':
                    ctx.check(sp.issparse(obs['binary']), 'no sparse predictions have been returned')
                if ref is None:
                    ref = (key, obs)
                    ctx.outcome(key)
                    continue
                ctx.check(similar(key, ref[0]), lambda: f'the model is {key} instead of {ref[0]}')
                for k, v in obs.items():
                    if kind == 'seco' and pred == 'sparse':
                        if not np.array_equal(h.dense(v), h.dense(ref[1][k])):
                            union = conflicts(l.model_, x)
                            ctx.violation(f'{pred} predictions are {h.dense(v).tolist()} instead of '
                                          f'{h.dense(ref[1][k]).tolist()}', 'seco-sparse-union' if union else None)
                    else:
                        ctx.check(h.close(h.dense(v), h.dense(ref[1][k])),
                                  lambda: f'{k} are {h.dense(v).tolist()} instead of {h.dense(ref[1][k]).tolist()}')


def conflicts(model, x):
    """ Whether rules that cover the same example provide different predictions for a label. """
    rules = h.rules_of(model)
    for row in x:
        seen = {}
        for r in rules:
            if h.covers(r, row):
                for i, s in r.head.items():
                    if seen.setdefault(i, s > 0) != (s > 0):
                        return True
    return False


def statistics(job, ctx):
    n, nl = job['n'], job['l']
    params = dict(BASE, loss='squared-hinge-decomposable', default_rule='false', **SPARSE[job['config']])
    x = np.array(X[n], dtype=np.float32)
    for index in range(job['lo'], job['hi']):
        y = nth(index, n, nl, (0, 1), np.uint8)
        ctx.state()
        ref = None
        for stat in ('dense', 'sparse'):
            for fmt in ('dense', 'sparse'):
                ctx.case({'params': params, 'y': y, 'statistic_format': stat, 'output_format': fmt})
                l = h.make('boomer', **dict(params, statistic_format=stat, output_format=fmt))
                l.fit(x, sp.csr_array(y))
                key = h.model_key(l.model_)
                scores = l.predict(x, predict_scores=True)
                ctx.step()
                if ref is None:
                    ref = (key, scores)
                    ctx.outcome(key)
                else:
                    ctx.check(similar(key, ref[0]), lambda: f'the model is {key} instead of {ref[0]}')
                    ctx.check(h.close(scores, ref[1]), 'predicted scores differ')


def regression(job, ctx):
    n, nl = job['n'], job['l']
    params = dict(BASE, **REGR[job['config']])
    x = np.array(X[n], dtype=np.float32)
    for index in range(job['lo'], job['hi']):
        y = nth(index, n, nl, (0.0, 1.5, -2.25), np.float32)
        ctx.state()
        ref = None
        for fmt, name, m in storages(y, True):
            ctx.case({'params': params, 'y': y, 'output_format': fmt, 'storage': name})
            l = h.make('regr', **dict(params, output_format=fmt)).fit(x, m)
            key = h.model_key(l.model_)
            scores = h.dense(l.predict(x))
            ctx.step()
            if ref is None:
                ref = (key, scores)
                ctx.outcome(key)
            else:
                finding = None
                if fmt == 'sparse' and any(len(r[1]) < nl for k in (key, ref[0]) for r in k[0]):
                    finding = 'regression-dense-partial-update'
                ctx.check(similar(key, ref[0]), lambda: f'the model is {key} instead of {ref[0]}', finding)
                ctx.check(h.close(scores, ref[1]), 'predicted scores differ', finding)


def run(job, ctx):
    globals()[job['part']](job, ctx)
