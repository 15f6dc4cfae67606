"""
P06: the predictions of a separate-and-conquer model follow the semantics of a decision list.

Explores all decision lists with up to two rules (and a default rule) over an alphabet of bodies and heads, and all
lists with three rules over a smaller one, on all query examples over a small alphabet, for all formats of the query
matrix and of the predictions and for all limits on the number of rules.
"""
import itertools

import numpy as np
import scipy.sparse as sp

import harness as h
import p05

PROPERTY = 'P06'
L = 3
ROWS = p05.ROWS
CONDITIONS = p05.CONDITIONS
BODIES = [(c,) for c in CONDITIONS] + [(CONDITIONS[a], CONDITIONS[b]) for a, b in ((0, 2), (1, 5), (3, 9), (4, 7), (8, 13), (6, 14))]
SMALL = [(CONDITIONS[0],), (CONDITIONS[3],), (CONDITIONS[5],), (CONDITIONS[8],), (CONDITIONS[1], CONDITIONS[14])]
HEADS = [({0: 1.0}, False), ({1: 0.0}, False), ({0: 0.0, 2: 1.0}, False), ({1: 1.0, 2: 0.0}, False),
         ({0: 1.0, 1: 0.0, 2: 1.0}, True)]
DEFAULTS = [None, ({0: 0.0, 1: 0.0, 2: 0.0}, True), ({0: 0.0, 1: 1.0, 2: 1.0}, True)]
BOUNDS = {'rows': len(ROWS), 'bodies': len(BODIES), 'heads': len(HEADS), 'defaults': len(DEFAULTS),
          'rules_per_model': '<= 2 over all bodies, 3 over a reduced alphabet'}
_CACHE = {}


def setup():
    if _CACHE:
        return _CACHE
    x = np.array([[0, 0, 0], [1, 1, 1], [2, 0, 1]], dtype=np.float32)
    y = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 1]], dtype=np.uint8)
    learners = {}
    for fmt in (None, 'dense', 'sparse', 'auto'):
        for pred in ('dense', 'sparse'):
            learners[(fmt, pred)] = h.make('seco', max_rules=2, feature_format=fmt, prediction_format=pred).fit(x, y)
    cov = {}
    for c in CONDITIONS:
        r = h.Rule([c], {}, True)
        cov[c] = np.array([h.covers(r, row) for row in ROWS])
    _CACHE.update(learners=learners, cov=cov, formats=p05.formats())
    return _CACHE


def jobs(tier):
    out = []
    for i in range(len(p05.formats())):
        for d in range(len(DEFAULTS)):
            out.append({'part': 'formats', 'format': i, 'default': d})
    for i in range(len(BODIES)):
        for d in range(len(DEFAULTS)):
            out.append({'part': 'two', 'first': i, 'default': d})
    for d in range(len(DEFAULTS)):
        for i in range(len(SMALL)):
            for j in range(len(HEADS)):
                out.append({'part': 'three', 'first': i, 'head': j, 'default': d})
    if tier == 'thorough':
        for d in range(len(DEFAULTS)):
            for i, j in itertools.product(range(len(BODIES)), repeat=2):
                out.append({'part': 'deep', 'first': i, 'second': j, 'default': d})
    return out


def coverage(c, conditions, equivalent):
    if equivalent is ROWS:
        m = np.ones(len(ROWS), dtype=bool)
        for cond in conditions or ():
            m &= c['cov'][cond]
        return m
    r = h.Rule(list(conditions or ()), {}, True)
    return np.array([h.covers(r, row) for row in equivalent])


def reference(c, rules, equivalent):
    """ Returns the predictions of a decision list, and the union of all positive predictions. """
    n = len(equivalent)
    pred = np.zeros((n, L), dtype=np.uint8)
    done = np.zeros((n, L), dtype=bool)
    union = np.zeros((n, L), dtype=np.uint8)
    for conditions, head, _ in rules:
        m = coverage(c, conditions, equivalent)
        for i, v in head.items():
            sel = m & ~done[:, i]
            pred[sel, i] = 1 if v > 0 else 0
            done[m, i] = True
            if v != 0:
                union[m, i] = 1
    return pred, union


def probe(ctx, c, rules, default, num_used, fmt, limits=(0,)):
    name, x, kwargs, feature_format, equivalent = fmt
    all_rules = ([] if default is None else [(None,) + default]) + rules
    model = h.craft(all_rules, False, num_used)
    for limit in limits:
        k = num_used or len(all_rules)
        if limit:
            k = min(k, limit)
        used = (rules[:k - 1] + [(None,) + default]) if default is not None else rules[:k]
        ctx.case({'rules': rules, 'default': default, 'num_used': num_used, 'format': name, 'max_rules': limit})
        ctx.state()
        want, union = reference(c, used, equivalent)
        kw = dict(kwargs)
        if limit:
            kw['max_rules'] = limit
        for pred in ('dense', 'sparse'):
            l = c['learners'][(feature_format, pred)]
            l.model_ = model
            got = l.predict(x, **kw)
            ctx.step()
            if pred == 'sparse':
                ctx.check(sp.issparse(got), 'prediction_format=sparse does not return a sparse matrix')
                indptr, indices = got.indptr, got.indices
                ctx.check(all(np.all(np.diff(indices[indptr[i]:indptr[i + 1]]) > 0) for i in range(got.shape[0])),
                          'the indices of sparse predictions are not sorted or not unique')
            got = h.dense(got)
            if not np.array_equal(got, want):
                finding = None
                if pred == 'sparse' and np.array_equal(got, union):
                    finding = 'seco-sparse-union'
                ctx.violation(f'{pred} predictions {p05.diff(got, want, equivalent)}', finding)
        ctx.outcome(want.tobytes())


def run(job, ctx):
    c = setup()
    fmts = {f[0]: f for f in c['formats']}
    default = DEFAULTS[job['default']]
    part = job['part']
    if part == 'two':
        first = BODIES[job['first']]
        for h1 in HEADS:
            probe(ctx, c, [(first,) + h1], default, 0, fmts['dense'], (0, 1, 2))
            for second, h2 in itertools.product(BODIES, HEADS):
                probe(ctx, c, [(first,) + h1, (second,) + h2], default, 0,
                      fmts['dense' if (len(h1[0]) + len(second)) % 2 else 'csr0'])
    elif part == 'three':
        first, h1 = SMALL[job['first']], HEADS[job['head']]
        for second, h2 in itertools.product(SMALL, HEADS):
            for third, h3 in itertools.product(SMALL, HEADS):
                probe(ctx, c, [(first,) + h1, (second,) + h2, (third,) + h3], default, 0,
                      fmts[('dense', 'csr0', 'csr2')[(len(h2[0]) + len(h3[0])) % 3]])
    elif part == 'deep':
        first, second = BODIES[job['first']], BODIES[job['second']]
        for h1, h2 in itertools.product(HEADS, HEADS):
            for third, h3 in itertools.product(BODIES, HEADS):
                probe(ctx, c, [(first,) + h1, (second,) + h2, (third,) + h3], default, 0, fmts['dense'])
    else:
        fmt = c['formats'][job['format']]
        n = len(BODIES)
        probe(ctx, c, [], default, 0, fmt, (0, 1, 2))
        for i in range(n):
            rules = [(BODIES[(i * 3 + j * 5) % n],) + HEADS[(i + j) % len(HEADS)] for j in range(3)]
            total = len(rules) + (default is not None)
            for num_used in range(total + 1):
                probe(ctx, c, rules, default, num_used, fmt, range(total + 2))
