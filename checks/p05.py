"""
P05: predictions of a boosted model are the sums of the heads of the rules that cover an example.

Explores all models with up to two rules (three in the thorough tier) over an alphabet of bodies and heads, in
combination with all query examples over a small alphabet of feature values, all storage formats of the query matrix,
and all limits on the number of rules. The reference evaluates each condition independently of the library.
"""
import itertools

import numpy as np
import scipy.sparse as sp

import harness as h

PROPERTY = 'P05'
L = 3
V_NUM = [-1.0, 0.0, 0.5, 1.0, 2.0, h.NAN]
V_CAT = [-1.0, 0.0, 1.0, 2.0, h.NAN]
ROWS = np.array([(a, b, c) for a in V_NUM for b in V_CAT for c in (0.0, 2.0, h.NAN)], dtype=np.float32)

CONDITIONS = [(k, 0, t) for k in ('numerical_leq', 'numerical_gr') for t in (0.0, 0.75)] + \
             [(k, 1, t) for k in ('ordinal_leq', 'ordinal_gr', 'nominal_eq', 'nominal_neq') for t in (-1, 1)] + \
             [('numerical_gr', 1, -0.5), ('nominal_eq', 2, 0), ('nominal_neq', 2, 2), ('ordinal_leq', 2, 1),
              ('numerical_leq', 2, 1.0)]
BODIES1 = [(c,) for c in CONDITIONS]
BODIES2 = [c for c in itertools.combinations(CONDITIONS, 2)]
BODIES3 = [c for c in itertools.combinations(CONDITIONS, 3)]
COMPLETE = ({0: 0.5, 1: -0.25, 2: 1.0}, True)
HEADS = [COMPLETE, ({1: 0.75}, False), ({0: -0.5, 2: 0.25}, False)]
DEFAULT = ({0: -0.5, 1: 0.25, 2: 0.0}, True)
BOUNDS = {'rows': len(ROWS), 'bodies_1': len(BODIES1), 'bodies_2': len(BODIES2), 'bodies_3': len(BODIES3),
          'heads': len(HEADS), 'rules_per_model': '<= 3 (+ default rule)'}
ASSUMPTIONS = ['scores are dyadic rationals, such that sums are exact in any order']


def formats():
    """ (name, query matrix, keyword arguments, feature format, equivalent dense matrix) """
    res = [('dense', ROWS, {}, None, ROWS),
           ('fortran64', np.asfortranarray(ROWS.astype(np.float64)), {}, 'dense', ROWS),
           ('csr0', h.sparse_features(ROWS, sp.csr_array), {}, 'sparse', ROWS),
           ('csr2', h.sparse_features(ROWS, sp.csr_array, 2.0), {'sparse_feature_value': 2.0}, 'sparse', ROWS),
           ('csr-auto', h.sparse_features(ROWS, sp.csr_array), {}, 'auto', ROWS),
           ('csr-dense', h.sparse_features(ROWS, sp.csr_array), {}, 'dense', ROWS),
           ('csr2-dense', h.sparse_features(ROWS, sp.csr_array, 2.0), {'sparse_feature_value': 2.0}, 'dense', ROWS)]
    m = h.sparse_features(ROWS, sp.csr_array)
    data, indices = m.data.copy(), m.indices.copy()
    for i in range(m.shape[0]):
        s = slice(m.indptr[i], m.indptr[i + 1])
        data[s], indices[s] = data[s][::-1], indices[s][::-1]
    res.append(('csr-unsorted', sp.csr_matrix((data, indices, m.indptr), shape=m.shape), {}, 'sparse', ROWS))
    full = sp.csr_array((ROWS.reshape(-1).copy(), np.tile(np.arange(3), len(ROWS)), np.arange(0, 3 * len(ROWS) + 1, 3)),
                        shape=ROWS.shape)
    res.append(('csr-explicit', full, {}, 'sparse', ROWS))
    for cls in (sp.csc_array, sp.coo_array, sp.lil_array, sp.dok_array):
        res.append((cls.__name__, h.sparse_features(ROWS, cls), {}, 'sparse', ROWS))
    # A single row and no row that stores a value
    res.append(('one', ROWS[7:8], {}, None, ROWS[7:8]))
    res.append(('csr-empty', sp.csr_array((2, 3), dtype=np.float32), {'sparse_feature_value': 1.0}, 'sparse',
                np.ones((2, 3), dtype=np.float32)))
    return res


_CACHE = {}


def setup():
    if _CACHE:
        return _CACHE
    x = np.array([[0, 0, 0], [1, 1, 1], [2, 0, 1]], dtype=np.float32)
    y = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 1]], dtype=np.uint8)
    learners = {}
    for fmt in (None, 'dense', 'sparse', 'auto'):
        for pred in ('dense', 'sparse'):
            for name, params in (('logistic', {}),
                                 ('hinge', {'loss': 'squared-hinge-decomposable'}),
                                 ('sqerr', {'loss': 'squared-error-non-decomposable'}),
                                 ('proba', {'binary_predictor': 'output-wise{based_on_probabilities=true}'})):
                p = dict({'binary_predictor': 'output-wise', 'max_rules': 2, 'feature_format': fmt,
                          'prediction_format': pred}, **params)
                learners[(fmt, pred, name)] = h.make('boomer', **p).fit(x, y)
        learners[(fmt, 'regr')] = h.make('regr', max_rules=2, feature_format=fmt).fit(x, y.astype(np.float32))
    cov = {}
    for c in CONDITIONS:
        r = h.Rule([c], {}, True)
        cov[c] = np.array([h.covers(r, row) for row in ROWS])
    _CACHE.update(learners=learners, cov=cov, formats=formats())
    return _CACHE


def jobs(tier):
    out = []
    step = 4
    for lo, hi in h.chunks(len(BODIES1) + len(BODIES2), 8):
        out.append({'part': 'one', 'lo': lo, 'hi': hi})
    for i in range(len(BODIES1)):
        out.append({'part': 'two', 'first': i})
    for name_index in range(len(formats())):
        out.append({'part': 'formats', 'format': name_index})
    if tier == 'thorough':
        for lo, hi in h.chunks(len(BODIES3), 10):
            out.append({'part': 'deep', 'lo': lo, 'hi': hi})
        for i in range(len(BODIES2)):
            out.append({'part': 'two-deep', 'first': i})
        for i, j in itertools.product(range(len(BODIES1)), repeat=2):
            out.append({'part': 'three', 'first': i, 'second': j})
    return out


def head_vector(head):
    v = np.zeros(L)
    for i, s in head.items():
        v[i] = s
    return v


def expected(c, rules, rows=None):
    s = np.zeros((len(ROWS), L))
    for conditions, head, _ in rules:
        m = np.ones(len(ROWS), dtype=bool)
        for cond in conditions or ():
            m &= c['cov'][cond]
        s[m] += head_vector(head)
    return s


def expected_on(rules, rows):
    s = np.zeros((len(rows), L))
    for conditions, head, _ in rules:
        r = h.Rule(list(conditions or ()), {}, True)
        for i, row in enumerate(rows):
            if h.covers(r, row):
                s[i] += head_vector(head)
    return s


def probe(ctx, c, rules, num_used, fmt, losses, limits=(0,), regr=False):
    """ Compares all predictions of one model with the reference. """
    name, x, kwargs, feature_format, equivalent = fmt
    model = h.craft(rules, True, num_used)
    # The default rule comes first
    order = [r for r in rules if r[0] is None] + [r for r in rules if r[0] is not None]
    if num_used:
        order = order[:num_used]
    for limit in limits:
        used = order[:limit] if limit else order
        ctx.case({'rules': rules, 'num_used': num_used, 'format': name, 'max_rules': limit})
        ctx.state()
        scores = expected(c, used) if equivalent is ROWS else expected_on(used, equivalent)
        kw = dict(kwargs)
        if limit:
            kw['max_rules'] = limit
        for loss in losses:
            threshold = 0.5 if loss == 'hinge' else 0.0
            for pred in ('dense', 'sparse'):
                l = c['learners'][(feature_format, pred, loss)]
                l.model_ = model
                if pred == 'dense':
                    got = np.asarray(l.predict(x, predict_scores=True, **kw))
                    ctx.step()
                    if not np.array_equal(got, scores):
                        ctx.violation(f'predicted scores {diff(got, scores, equivalent)}')
                got = l.predict(x, **kw)
                ctx.step()
                if pred == 'sparse':
                    ctx.check(sp.issparse(got), 'prediction_format=sparse does not return a sparse matrix')
                    ctx.check(got.nnz == int((scores > threshold).sum()), 'number of non-zero predictions')
                got = h.dense(got)
                if not np.array_equal(got, (scores > threshold)):
                    ctx.violation(f'{loss}/{pred}: binary predictions '
                                  f'{diff(got, (scores > threshold).astype(int), equivalent)}')
        if regr:
            l = c['learners'][(feature_format, 'regr')]
            l.model_ = model
            got = np.asarray(l.predict(x, **kw))
            ctx.step()
            if not np.array_equal(got, scores):
                ctx.violation(f'predicted regression scores {diff(got, scores, equivalent)}')
        ctx.outcome(scores.tobytes())


def diff(got, want, rows):
    if got.shape != want.shape:
        return f'have shape {got.shape}, expected {want.shape}'
    i = int(np.argwhere((got != want).any(axis=1))[0][0])
    return f'for {rows[i].tolist()} are {got[i].tolist()}, expected {want[i].tolist()}'


def run(job, ctx):
    c = setup()
    fmts = {f[0]: f for f in c['formats']}
    part = job['part']
    bodies = BODIES1 + BODIES2
    default = (None,) + DEFAULT
    if part in ('one', 'deep'):
        sel = (bodies if part == 'one' else BODIES3)[job['lo']:job['hi']]
        for body in sel:
            for head, complete in HEADS:
                for rules in ([(body, head, complete)], [default, (body, head, complete)]):
                    for f in ('dense', 'csr0', 'csr2'):
                        probe(ctx, c, rules, 0, fmts[f], ('logistic', 'hinge'), (0, 1), regr=True)
    elif part in ('two', 'two-deep'):
        first = (BODIES1 if part == 'two' else BODIES2)[job['first']]
        for second in bodies:
            for (h1, c1), (h2, c2) in itertools.product(HEADS, HEADS):
                rules = [(first, h1, c1), (second, h2, c2)]
                fmt = 'csr0' if (len(second) + len(h1)) % 2 else 'csr2'
                for f in ('dense', fmt):
                    probe(ctx, c, rules, 0, fmts[f], ('logistic',))
    elif part == 'three':
        first, second = BODIES1[job['first']], BODIES1[job['second']]
        for third in BODIES1:
            rules = [default, (first,) + HEADS[0], (second,) + HEADS[1], (third,) + HEADS[2]]
            for f in ('dense', 'csr0', 'csr2'):
                probe(ctx, c, rules, 0, fmts[f], ('logistic',), (0, 1, 2, 3, 4))
    else:
        fmt = c['formats'][job['format']]
        sample = BODIES1 + [(CONDITIONS[0], CONDITIONS[9]), (CONDITIONS[2], CONDITIONS[4], CONDITIONS[14]), (CONDITIONS[13], CONDITIONS[15])]
        for i, body in enumerate(sample):
            other = sample[(i * 5 + 3) % len(sample)]
            rules = [default, (body,) + HEADS[0], (other,) + HEADS[1], (sample[(i + 7) % len(sample)],) + HEADS[2]]
            for num_used in (0, 1, 2, 3, 4):
                probe(ctx, c, rules, num_used, fmt, ('logistic', 'hinge', 'sqerr', 'proba'), (0, 1, 2, 3, 4, 5),
                      regr=True)
            for n in (1, 2, 3):
                probe(ctx, c, rules[1:1 + n], 0, fmt, ('logistic', 'proba'), (0, 1, 2, 3), regr=True)
        # Models without any rules
        probe(ctx, c, [], 0, fmt, ('logistic', 'hinge', 'sqerr', 'proba'), (0, 1), regr=True)
        probe(ctx, c, [default], 0, fmt, ('logistic', 'hinge', 'sqerr', 'proba'), (0, 1), regr=True)
