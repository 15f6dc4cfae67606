"""
P07: incremental predictions agree with ordinary predictions that use the corresponding number of rules.

Explores, for models of up to five rules, every sequence of steps of an incremental predictor (and every interleaving of
two incremental predictors that have been created for the same model), for all types of predictions, prediction
strategies, matrix formats and limits on the number of rules. The oracle is the non-incremental prediction.
"""
import numpy as np
import scipy.sparse as sp

import harness as h
import p05

PROPERTY = 'P07'
L = 3
ROWS = np.array([(a, b, c) for a in (-1.0, 0.5, 1.0, h.NAN) for b in (0.0, 1.0) for c in (0.0, 2.0)], dtype=np.float32)
C = p05.CONDITIONS
DEFAULT = (None, {0: -0.5, 1: 0.25, 2: 0.125}, True)
BOOM = [((C[0],), {0: 0.5, 1: -0.25, 2: 1.0}, True), ((C[3],), {1: 0.75}, False),
        ((C[1], C[14]), {0: -0.25, 2: -0.5}, False), ((C[13],), {0: 1.0, 1: 0.25, 2: -1.0}, True)]
SECO = [((C[0],), {0: 1.0}, False), ((C[3],), {1: 1.0, 2: 1.0}, False), ((C[1], C[14]), {0: 1.0, 2: 1.0}, False),
        ((C[13],), {0: 1.0, 1: 1.0, 2: 1.0}, True)]
SDEFAULT = (None, {0: 0.0, 1: 0.0, 2: 0.0}, True)
CONFIGS = [('boomer', {}), ('boomer', {'loss': 'squared-hinge-decomposable'}),
           ('boomer', {'binary_predictor': 'output-wise{based_on_probabilities=true}'}),
           ('boomer', {'binary_predictor': 'example-wise'}),
           ('boomer', {'binary_predictor': 'example-wise{based_on_probabilities=true}'}),
           ('boomer', {'binary_predictor': 'gfm'}),
           ('boomer', {'probability_predictor': 'marginalized'}),
           ('boomer', {'loss': 'logistic-non-decomposable', 'binary_predictor': 'gfm',
                       'probability_predictor': 'marginalized'}),
           ('boomer', {'loss': 'logistic-non-decomposable', 'binary_predictor': 'example-wise',
                       'marginal_probability_calibration': 'isotonic',
                       'joint_probability_calibration': 'isotonic', 'holdout': 'none'}),
           ('boomer', {'marginal_probability_calibration': 'isotonic', 'binary_predictor':
                       'output-wise{based_on_probabilities=true}', 'holdout': 'none'}),
           ('regr', {}), ('seco', {})]
KINDS = {'boomer': ('scores', 'binary', 'proba'), 'regr': ('binary',), 'seco': ('binary',)}
BOUNDS = {'configs': len(CONFIGS), 'rules': '0..4 + default rule', 'steps': '1..3, all sequences up to exhaustion',
          'rows': len(ROWS)}
_CACHE = {}


def fitted(config, fmt, pred):
    key = (config, fmt, pred)
    if key not in _CACHE:
        kind, params = CONFIGS[config]
        p = dict(params, max_rules=3, feature_format=fmt, prediction_format=pred)
        x = np.array([[0, 0, 0], [1, 1, 1], [2, 0, 1], [1, 0, 0], [0, 1, 1]], dtype=np.float32)
        y = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 1], [0, 0, 1], [0, 1, 0]], dtype=np.uint8)
        _CACHE[key] = h.make(kind, **p).fit(x, y.astype(np.float32) if kind == 'regr' else y)
    return _CACHE[key]


def jobs(tier):
    out = []
    for config, (kind, _) in enumerate(CONFIGS):
        for fmt in ('dense', 'sparse'):
            for pred in ('dense', 'sparse'):
                if kind == 'regr' and pred == 'sparse':
                    continue
                for n in range(5):
                    out.append({'config': config, 'fmt': fmt, 'pred': pred, 'n': n, 'tier': tier})
    return out


def call(l, what, x, kw):
    if what == 'scores':
        return l.predict(x, predict_scores=True, **kw)
    if what == 'proba':
        return l.predict_proba(x, **kw)
    return l.predict(x, **kw)


def incremental(l, what, x, kw):
    if what == 'scores':
        return l.predict_incrementally(x, predict_scores=True, **kw)
    if what == 'proba':
        return l.predict_proba_incrementally(x, **kw)
    return l.predict_incrementally(x, **kw)


def equal(a, b):
    if sp.issparse(a) != sp.issparse(b):
        return False
    a, b = h.dense(a), h.dense(b)
    return h.close(a, b, 1e-12, 1e-12)


def sequences(total, sizes):
    """ All sequences of step sizes that exhaust `total` rules. """
    if total <= 0:
        yield []
        return
    for s in sizes:
        for rest in sequences(total - s, sizes):
            yield [s] + rest


def run(job, ctx):
    kind, _ = CONFIGS[job['config']]
    l = fitted(job['config'], job['fmt'], job['pred'])
    x = ROWS if job['fmt'] == 'dense' else h.sparse_features(ROWS, sp.csr_array)
    sizes = (1, 2, 3) if job['tier'] == 'quick' else (1, 2, 3, 4, 7)
    pool, default = (SECO, SDEFAULT) if kind == 'seco' else (BOOM, DEFAULT)
    for with_default in (True, False):
        rules = ([default] if with_default else []) + pool[:job['n']]
        total = len(rules)
        for num_used in range(0, total + 1):
            model = h.craft(rules, kind != 'seco', num_used)
            l.model_ = model
            available = num_used or total
            for limit in range(0, total + 2):
                kw = {'max_rules': limit} if limit else {}
                n = min(available, limit) if limit else available
                for what in KINDS[kind]:
                    base = {'config': CONFIGS[job['config']], 'fmt': job['fmt'], 'pred': job['pred'], 'rules': total,
                            'default': with_default, 'num_used': num_used, 'max_rules': limit, 'what': what}
                    ctx.case(base)
                    if what == 'proba' and 'hinge' in str(CONFIGS[job['config']]):
                        unsupported(ctx, l, what, x, kw)
                        continue
                    batch = [None] + [call(l, what, x, {'max_rules': k}) for k in range(1, n + 1)]
                    if n:
                        ctx.check(equal(call(l, what, x, kw), batch[n]), 'max_rules does not restrict the rules used')
                    for i in range(1, n + 1):
                        ctx.outcome(h.dense(batch[i]).tobytes())
                    for seq in sequences(n, sizes):
                        ctx.case(dict(base, steps=seq))
                        single(ctx, l, what, x, kw, n, seq, batch)
                    if limit == 0 and num_used == 0:
                        # Two predictors, the steps of which are interleaved
                        for seq in sequences(n, (1, 2)):
                            ctx.case(dict(base, interleaved=seq))
                            double(ctx, l, what, x, kw, n, seq, batch)


def unsupported(ctx, l, what, x, kw):
    """ Both ways of predicting must refuse to predict if a type of prediction is not supported. """
    for f in (call, incremental):
        error = None
        try:
            f(l, what, x, kw)
        except Exception as e:  # pylint: disable=broad-except
            error = e
        ctx.step()
        ctx.check(isinstance(error, RuntimeError) and not isinstance(error, RecursionError),
                  f'an unsupported type of prediction is not rejected properly: {type(error)}')


def single(ctx, l, what, x, kw, n, seq, batch):
    p = incremental(l, what, x, kw)
    done = 0
    for s in seq:
        ctx.check(p.has_next(), 'has_next() is False before all rules have been used')
        ctx.check(p.get_num_next() == n - done, f'get_num_next() = {p.get_num_next()}, expected {n - done}')
        got = p.apply_next(s)
        done = min(n, done + s)
        ctx.state()
        ctx.step()
        ctx.check(equal(got, batch[done]), lambda: f'the incremental prediction after {done} rules is '
                  f'{h.dense(got).tolist()}, but {h.dense(batch[done]).tolist()} when using {done} rules')
    ctx.check(not p.has_next(), 'has_next() is True after all rules have been used')
    ctx.check(p.get_num_next() == 0, 'get_num_next() is not 0 after all rules have been used')


def double(ctx, l, what, x, kw, n, seq, batch):
    """ A second predictor takes steps of size 1 whenever the first one takes a step. """
    p, q = incremental(l, what, x, kw), incremental(l, what, x, kw)
    a = b = 0
    kept = []
    for s in seq:
        r1 = p.apply_next(s)
        a = min(n, a + s)
        kept.append((a, r1, h.dense(r1).copy()))
        if q.has_next():
            r2 = q.apply_next(1)
            b += 1
            ctx.check(equal(r2, batch[b]), 'interleaved incremental predictors influence each other')
        ctx.check(equal(r1, batch[a]), 'interleaved incremental predictors influence each other')
        ctx.check(equal(call(l, what, x, {'max_rules': 1}), batch[1]),
                  'incremental prediction influences ordinary prediction')
        ctx.step(2)
        ctx.state()
