""" Access to the library under test, and reference semantics of rules that are independent of it. """
import itertools
import math
import pickle

import numpy as np
import scipy.sparse as sp

NAN = float('nan')
F32 = np.float32

KINDS = ('numerical_leq', 'numerical_gr', 'ordinal_leq', 'ordinal_gr', 'nominal_eq', 'nominal_neq')


def classes():
    from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor
    from mlrl.seco.seco_learners import SeCoClassifier
    return {'boomer': BoomerClassifier, 'regr': BoomerRegressor, 'seco': SeCoClassifier}


_CLASSES = {}


def make(kind, **params):
    if not _CLASSES:
        _CLASSES.update(classes())
    if kind in ('boomer', 'regr'):
        params.setdefault('feature_sampling', 'none')
    return _CLASSES[kind](**params)


def learner(kind, params, ordinal=None, nominal=None):
    l = make(kind, **params)
    if ordinal:
        l.set_ordinal_feature_indices(list(ordinal))
    if nominal:
        l.set_nominal_feature_indices(list(nominal))
    return l


class Rule:
    """ conditions: a list of (kind, feature, threshold); head: {output: score}; complete: True for a complete head """

    __slots__ = ('conditions', 'head', 'complete', 'default')

    def __init__(self, conditions, head, complete, default=False):
        self.conditions, self.head, self.complete, self.default = conditions, head, complete, default

    def key(self):
        return (tuple(sorted(self.conditions)), tuple(sorted(self.head.items())), self.complete, self.default)

    def __repr__(self):
        body = ' & '.join(f'{k}[{f}]{t!r}' for k, f, t in self.conditions) if not self.default else 'default'
        return f'{{{body}}} -> {self.head}'


_VISITOR = None


def _visitor():
    global _VISITOR
    if _VISITOR is None:
        from mlrl.common.cython.rule_model import RuleModelVisitor

        class Visitor(RuleModelVisitor):

            def __init__(self):
                self.rules = []
                self.body = None

            def visit_empty_body(self, _):
                self.body = None

            def visit_conjunctive_body(self, body):
                self.body = []
                for kind in KINDS:
                    idx = getattr(body, kind + '_indices')
                    thr = getattr(body, kind + '_thresholds')
                    if idx is not None:
                        for i, t in zip(np.asarray(idx).tolist(), np.asarray(thr).tolist()):
                            self.body.append((kind, i, t))

            def _add(self, head, complete):
                self.rules.append(Rule([] if self.body is None else self.body, head, complete, self.body is None))

            def visit_complete_head(self, head):
                self._add(dict(enumerate(np.asarray(head.scores).tolist())), True)

            def visit_partial_head(self, head):
                self._add(dict(zip(np.asarray(head.indices).tolist(), np.asarray(head.scores).tolist())), False)

        _VISITOR = Visitor
    return _VISITOR()


def rules_of(model, used=False):
    v = _visitor()
    if used:
        model.visit_used(v)
    else:
        model.visit(v)
    return v.rules


def model_key(model):
    return (tuple(r.key() for r in rules_of(model)), model.get_num_rules(), model.get_num_used_rules())


def covers(rule, row):
    """ Whether a rule covers an example. No condition holds for a missing value. """
    for kind, f, t in rule.conditions:
        v = float(row[f])
        if math.isnan(v):
            return False
        if kind == 'numerical_leq' or kind == 'ordinal_leq':
            ok = v <= t
        elif kind == 'numerical_gr' or kind == 'ordinal_gr':
            ok = v > t
        elif kind == 'nominal_eq':
            ok = v == t
        else:
            ok = v != t
        if not ok:
            return False
    return True


# ---------------------------------------------------------------------------------------------------------------------
# Construction of arbitrary models
# ---------------------------------------------------------------------------------------------------------------------

def craft(rules, default_first, num_used=0):
    """
    Creates a model that consists of given rules, each one a tuple (conditions or None, {output: score}, complete).
    """
    from mlrl.common.cython.rule_model import RuleList
    version = _version()
    state = []
    for conditions, head, complete in rules:
        if conditions is None:
            body = None
        else:
            body = []
            for kind in KINDS:
                sel = [(f, t) for k, f, t in conditions if k == kind]
                dtype = np.float32 if kind.startswith('num') else np.int32
                body.append(np.array([t for _, t in sel], dtype=dtype) if sel else None)
                body.append(np.array([f for f, _ in sel], dtype=np.uint32) if sel else None)
            body = tuple(body)
        idx = sorted(head)
        scores = np.array([head[i] for i in idx], dtype=np.float64)
        state.append([body, (scores,) if complete else (scores, np.array(idx, dtype=np.uint32))])
    m = RuleList()
    m.__setstate__((version, (state, bool(default_first), int(num_used))))
    return m


_V = []


def _version():
    if not _V:
        l = make('boomer', max_rules=1)
        l.fit(np.array([[0.], [1.]], dtype=F32), np.array([[0], [1]], dtype=np.uint8))
        _V.append(l.model_.__reduce__()[2][0])
    return _V[0]


# ---------------------------------------------------------------------------------------------------------------------
# Input formats
# ---------------------------------------------------------------------------------------------------------------------

def sparse_features(x, cls, sparse_value=0.0):
    """ Converts a dense matrix into a sparse one, the sparse elements of which stand for `sparse_value`. """
    rows, cols, vals = [], [], []
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            if not x[i, j] == sparse_value:
                rows.append(i)
                cols.append(j)
                vals.append(x[i, j])
    if cls in (sp.lil_array, sp.dok_array, sp.lil_matrix, sp.dok_matrix):
        m = cls(x.shape, dtype=F32)
        for r, c, v in zip(rows, cols, vals):
            m[r, c] = v
        return m
    coo = sp.coo_array((np.array(vals, dtype=F32), (np.array(rows, dtype=np.int32), np.array(cols, dtype=np.int32))),
                       shape=x.shape)
    return cls(coo)


def dense(m):
    return np.asarray(m.todense() if sp.issparse(m) else m)


def same(a, b):
    """ Exact equality of two prediction matrices. """
    a, b = dense(a), dense(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f' else \
        a.shape == b.shape and np.array_equal(a, b)


def close(a, b, rel=1e-9, abs_=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b)))
                                              | (np.isnan(a) & np.isnan(b)) | (a == b)))


def matrices(n, m, alphabet):
    """ All matrices of a given shape over an alphabet. """
    for values in itertools.product(alphabet, repeat=n * m):
        yield np.array(values, dtype=float).reshape(n, m)


def chunks(total, size):
    return [(i, min(total, i + size)) for i in range(0, total, size)]


def dumps(obj):
    return pickle.dumps(obj)
