"""
P03: the representation of the feature values does not affect what is learned.

Explores all feature matrices of a bounded shape over small alphabets for numerical, ordinal and nominal features and
mixtures thereof. Each matrix is stored in many ways (memory layouts, data types, sparse formats, values that are
represented by sparse elements, explicitly stored sparse values, unsorted indices) and a learner is trained on each of
them. The targets are generic, i.e., no two different sets of examples result in the same quality, such that the greedy
search for rules has a unique result up to conditions that cover exactly the same examples.
"""
import itertools

import numpy as np
import scipy.sparse as sp

import harness as h

PROPERTY = 'P03'
N3 = [-3.0, -2.0, -1.0]
TARGETS = {3: [1.0, 3.5, -9.25], 4: [1.0, 3.5, 9.25, -20.0], 5: [1.0, 3.5, 9.25, -20.0, 37.0]}
LABELS = {3: [[1, 0], [1, 1], [0, 1]], 4: [[1, 0], [1, 1], [0, 0], [0, 1]], 5: [[1, 0], [1, 1], [0, 0], [0, 1], [1, 1]]}

# name: (number of examples, alphabets of the features, ordinal, nominal, sparse values)
SPACES = {
    'ordinal': (4, [[-1.0, 0.0, 2.0]] * 2, [0, 1], [], [-1.0, 0.0, 2.0]),
    'nominal': (4, [[-1.0, 0.0, 2.0]] * 2, [], [0, 1], [-1.0, 0.0, 2.0]),
    'binary': (4, [[0.0, 1.0]] * 3, [], [0, 1, 2], [0.0, 1.0]),
    'mixed': (4, [[0.0, 1.0, 2.0], [-1.0, 0.0]], [0], [1], [0.0, 1.0, -1.0]),
    'negative': (4, [N3] * 2, [], [], [-1.0, 0.0]),
    'mixed-numerical': (4, [N3, [-1.0, 0.0, 1.0]], [], [1], [-1.0, 0.0]),
    'positive': (4, [[0.0, 1.0, 2.0], [0.0, 1.0]], [], [], [0.0]),
}
DEEP = {
    'ordinal5': (5, [[-1.0, 0.0, 1.0, 2.0], [0.0, 1.0]], [0, 1], [], [-1.0, 0.0, 1.0]),
    'nominal5': (5, [[-1.0, 0.0, 1.0, 2.0], [0.0, 1.0]], [], [0, 1], [-1.0, 0.0, 1.0]),
    'nominal3x': (4, [[0.0, 1.0, 2.0]] * 3, [], [0, 2], [0.0, 1.0]),
    'negative5': (5, [N3, [-1.0, 0.0]], [], [], [0.0, -1.0]),
}
SAME = {'num': [0.0, 1.0, -1.0, h.NAN], 'ord': [0.0, 1.0, h.NAN], 'nom': [0.0, 2.0, h.NAN]}
BOUNDS = {k: f'{v[0]} examples, alphabets {v[1]}' for k, v in SPACES.items()}
# Learners for testing how query examples are represented: kind, parameters, ordinal and nominal features
QUERY_MODELS = [
    ('boomer', {'max_rules': 12}, [], []),
    ('boomer', {'max_rules': 12, 'loss': 'logistic-non-decomposable', 'head_type': 'complete',
                'binary_predictor': 'example-wise', 'marginal_probability_calibration': 'isotonic'}, [0], [1]),
    ('boomer', {'max_rules': 12, 'binary_predictor': 'gfm', 'probability_predictor': 'marginalized',
                'head_type': 'single', 'prediction_format': 'sparse'}, [], [0, 1, 2]),
    ('regr', {'max_rules': 12}, [1], []),
    ('seco', {}, [], []),
    ('seco', {'head_type': 'partial', 'prediction_format': 'sparse', 'rule_pruning': 'none'}, [0], [2]),
]
QUERY_VALUES = [0.0, 1.0, -1.0, h.NAN]
BOUNDS['query examples'] = f'all pairs of values for 3 features over {QUERY_VALUES}, {len(QUERY_MODELS)} learners'
ASSUMPTIONS = ['generic targets, such that the greedy search has a unique result up to equivalent conditions']


def jobs(tier):
    out = []
    spaces = dict(SPACES, **(DEEP if tier == 'thorough' else {}))
    for name, (n, alphabets, _, _, _) in spaces.items():
        total = int(np.prod([len(a) for a in alphabets]))**n
        for lo, hi in h.chunks(total, 800):
            out.append({'part': 'families', 'space': name, 'lo': lo, 'hi': hi})
    for types in SAME:
        total = len(SAME[types])**(6 if tier == 'quick' else 8)
        for kind in ('boomer', 'seco', 'regr'):
            for lo, hi in h.chunks(total, 700):
                out.append({'part': 'storage', 'types': types, 'kind': kind, 'lo': lo, 'hi': hi,
                            'n': 3 if tier == 'quick' else 4})
    for m in range(len(QUERY_MODELS)):
        for lo, hi in h.chunks(len(QUERY_VALUES)**3, 16):
            out.append({'part': 'queries', 'model': m, 'lo': lo, 'hi': hi, 'pairs': tier == 'thorough'})
    return out


def nth_matrix(index, n, alphabets):
    x = np.empty((n, len(alphabets)), dtype=np.float32)
    for i in range(n):
        for j, a in enumerate(alphabets):
            x[i, j] = a[index % len(a)]
            index //= len(a)
    return x


def families(job, ctx):
    n, alphabets, ordinal, nominal, sparse_values = dict(SPACES, **DEEP)[job['space']]
    numerical = [j for j in range(len(alphabets)) if j not in ordinal and j not in nominal]
    y = np.array([[t] for t in TARGETS[n]], dtype=np.float32)
    for index in range(job['lo'], job['hi']):
        x = nth_matrix(index, n, alphabets)
        ctx.state()
        for induction in (['top-down-greedy'] if not numerical else ['top-down-greedy{max_conditions=1}',
                                                                       'top-down-greedy']):
            ref = None
            for v in [None] + sparse_values:
                ctx.case({'space': job['space'], 'x': x, 'sparse_value': v, 'rule_induction': induction})
                l = h.learner('regr', {'max_rules': 3, 'rule_induction': induction,
                                       'feature_format': 'dense' if v is None else 'sparse'}, ordinal, nominal)
                if v is None:
                    l.fit(x, y)
                else:
                    l.fit(h.sparse_features(x, sp.csc_array, v), y, sparse_feature_value=v)
                ctx.step()
                got = np.asarray(l.predict(x))
                if ref is None:
                    ref, ref_model = got, l.model_
                    ctx.outcome(got.tobytes())
                elif not h.close(got, ref, 1e-6, 1e-6):
                    finding = None
                    if any((x[:, j] > v).any() or (x[:, j] >= 0).any() for j in numerical):
                        finding = 'numerical-smallest-non-sparse'
                    elif 'max_conditions' not in induction and any(repeated(r, numerical) for m in (ref_model, l.model_) for r in h.rules_of(m)):
                        finding = 'numerical-filtered-equal'
                    ctx.violation(f'a model that is trained on sparse features (sparse value {v}) predicts '
                                  f'{got[:, 0].tolist()}, but {ref[:, 0].tolist()} if trained on dense features: '
                                  f'{h.rules_of(l.model_)} vs. {h.rules_of(ref_model)}', finding)


def repeated(rule, numerical):
    """ Whether a rule contains a condition after which no second condition on the same feature may be found. """
    features = [f for _, f, _ in rule.conditions if f in numerical]
    return len(features) != len(set(features)) or any(k == 'numerical_gr' for k, _, _ in rule.conditions)


def storage(job, ctx):
    """ Formats that only differ in how the same values are laid out must result in exactly the same model. """
    n = job['n']
    alphabet = SAME[job['types']]
    ordinal = [0, 1] if job['types'] == 'ord' else None
    nominal = [0, 1] if job['types'] == 'nom' else None
    y = np.array(LABELS[n], dtype=np.uint8) if job['kind'] != 'regr' else \
        np.array([[t] for t in TARGETS[n]], dtype=np.float32)
    for index in range(job['lo'], job['hi']):
        x = nth_matrix(index, n, [alphabet] * 2)
        ctx.state()
        coo = h.sparse_features(x, sp.coo_array)
        csc = sp.csc_array(coo)
        rev = csc.copy()
        for j in range(2):
            s = slice(rev.indptr[j], rev.indptr[j + 1])
            rev.data[s], rev.indices[s] = rev.data[s][::-1].copy(), rev.indices[s][::-1].copy()
        rev.has_sorted_indices = False
        full = sp.csc_array((x.T.reshape(-1).copy(), np.tile(np.arange(n), 2), np.array([0, n, 2 * n])), shape=(n, 2))
        groups = [('dense', [('c', x), ('fortran', np.asfortranarray(x)), ('double', x.astype(np.float64)),
                             ('slice', np.hstack([x, x])[:, :2]), ('csc', csc), ('csr-explicit', sp.csr_array(full)),
                             ('list', x.tolist())]),
                  ('sparse', [('csc', csc), ('csr', sp.csr_matrix(coo)), ('coo', coo), ('lil', sp.lil_array(coo)),
                              ('dok', sp.dok_array(coo)), ('unsorted', rev),
                              ('int64', sp.csc_array((csc.data.astype(np.float64), csc.indices.astype(np.int64),
                                                      csc.indptr.astype(np.int64)), shape=csc.shape))])]
        for fmt, members in groups:
            ref = None
            for name, m in members:
                ctx.case({'x': x, 'kind': job['kind'], 'types': job['types'], 'feature_format': fmt, 'storage': name})
                l = h.learner(job['kind'], {'max_rules': 3, 'feature_format': fmt}, ordinal, nominal)
                l.fit(m, y)
                ctx.step()
                key = h.model_key(l.model_)
                if ref is None:
                    ref = key
                    ctx.outcome(key)
                elif name == 'unsorted':
                    # The order of equal values, and therefore of floating point additions, may differ
                    if job['types'] != 'num' or not (x > 0).any():
                        ctx.check(similar(key, ref), lambda: f'{key} instead of {ref}')
                else:
                    ctx.check(key == ref, lambda: f'{key} instead of {ref}')


def similar(a, b):
    return len(a[0]) == len(b[0]) and a[1:] == b[1:] and all(
        r[0] == q[0] and r[2:] == q[2:] and [i for i, _ in r[1]] == [i for i, _ in q[1]]
        and h.close([s for _, s in r[1]], [s for _, s in q[1]]) for r, q in zip(a[0], b[0]))


def observe(l, kind, x, **kwargs):
    result = [h.dense(l.predict(x, **kwargs))]
    if kind == 'boomer':
        result.append(np.asarray(l.predict(x, predict_scores=True, **kwargs)))
        result.append(np.asarray(l.predict_proba(x, **kwargs)))
    return result


def queries(job, ctx):
    """ The same query examples must result in the same predictions, no matter how they are stored. """
    kind, params, ordinal, nominal = QUERY_MODELS[job['model']]
    train = np.array(list(itertools.product((-1, 0, 1), repeat=3)), dtype=np.float32)
    target = np.array([[a + b > 0, a * c > 0 or b == 0, c < 0] for a, b, c in train])
    y = target.astype(np.float32) * 2.5 if kind == 'regr' else target.astype(np.uint8)
    l = h.learner(kind, params, ordinal, nominal).fit(train, y)
    for index in range(job['lo'], job['hi']):
        first = nth_matrix(index, 1, [QUERY_VALUES] * 3)
        others = [first[:, ::-1]] if not job['pairs'] else \
            [nth_matrix(i, 1, [QUERY_VALUES] * 3) for i in range(0, len(QUERY_VALUES)**3, 3)]
        for other in others:
            x = np.vstack([first, other])
            ctx.state()
            l.feature_format = 'dense'
            ref = observe(l, kind, x)
            ctx.outcome(repr(ref))
            for fmt in ('dense', 'sparse', 'auto'):
                l.feature_format = fmt
                stored = [('c', x, None), ('fortran', np.asfortranarray(x), None), ('double', x.astype(np.float64), None)]
                for v in (0.0, 1.0, -1.0):
                    for cls in (sp.csr_array, sp.csc_array, sp.coo_array, sp.lil_array, sp.dok_array):
                        if v and cls in (sp.lil_array, sp.dok_array):
                            continue  # These formats do not store zeros
                        stored.append((cls.__name__, h.sparse_features(x, cls, v), v))
                    full = sp.csr_array((x.reshape(-1).copy(), np.tile(np.arange(3), 2), np.array([0, 3, 6])), shape=(2, 3))
                    stored.append(('explicit', full, v))
                    rev = sp.csr_array((x[:, ::-1].reshape(-1).copy(), np.tile(np.arange(3)[::-1], 2), np.array([0, 3, 6])),
                                       shape=(2, 3))
                    stored.append(('unsorted', rev, v))
                for name, m, v in stored:
                    ctx.case({'kind': kind, 'params': params, 'x': x, 'feature_format': fmt, 'storage': name,
                              'sparse_value': v})
                    got = observe(l, kind, m, **({} if v is None else {'sparse_feature_value': v}))
                    ctx.step()
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(got, ref)), lambda: f'{got} instead of {ref}')


def run(job, ctx):
    {'families': families, 'storage': storage, 'queries': queries}[job['part']](job, ctx)
