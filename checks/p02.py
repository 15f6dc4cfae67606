"""
P02: what is learned and predicted depends on the data, the parameters and the random seed only, not on history.

Explores all sequences of operations on a learner (fitting, attempts to fit that fail, predictions of all types, creating
and advancing incremental predictors, changing parameters, copying, cloning, pickling, deleting, using other learners and
the global random number generators) up to a bounded length. Each observation must be the one that is made by a fresh
learner that has been fitted once to the most recent training data, objects that have been returned earlier must keep
their contents, and inputs must not be modified. The library is instrumented with sanitizers, such that the use of memory
that has been freed in the meantime does not remain unnoticed. The reference observations are repeated in new processes, in
which uninitialised memory has different contents and objects have different hashes and addresses.
"""
import copy
import gc
import itertools
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

import harness as h

PROPERTY = 'P02'
VARIANT = 'asan'
JOB_TIMEOUT = 880

X0 = np.array([[0, 0, 2], [1, 1, 0], [2, 0, 1], [1, 0, 0], [0, 1, 1], [2, 1, 2]], dtype=h.F32)
Y0 = np.array([[0, 1], [1, 0], [1, 1], [0, 0], [0, 1], [1, 0]], dtype=np.uint8)
X1 = np.array([[1, 0], [0, 0], [2, 1], [0, 1], [1, 1]], dtype=h.F32)
Y1 = np.array([[1, 0, 1], [0, 0, 1], [1, 1, 0], [0, 1, 0], [1, 0, 1]], dtype=np.uint8)

# kind, parameters, parameters that are changed by the operation "toggle", nominal features (changed by it, too)
CONFIGS = [
    ('boomer', {'head_type': 'single', 'feature_sampling': 'without-replacement', 'random_state': 7},
     {'shrinkage': 0.9}, [0]),
    ('boomer', {'loss': 'logistic-non-decomposable', 'head_type': 'complete', 'binary_predictor': 'example-wise',
                'probability_predictor': 'marginalized', 'marginal_probability_calibration': 'isotonic',
                'joint_probability_calibration': 'isotonic'},
     {'binary_predictor': 'gfm'}, []),
    ('boomer', {'instance_sampling': 'with-replacement', 'holdout': 'random{holdout_set_size=0.34}', 'random_state': 3,
                'global_pruning': 'post-pruning{use_holdout_set=true,remove_unused_rules=false}'},
     {'random_state': 2}, []),
    ('boomer', {'prediction_format': 'sparse', 'feature_format': 'sparse', 'feature_binning': 'equal-width',
                'head_type': 'partial-dynamic'},
     {'prediction_format': 'dense'}, []),
    ('boomer', {'rule_induction': 'top-down-beam-search', 'loss': 'squared-error-decomposable', 'head_type': 'complete'},
     {'binary_predictor': 'output-wise{based_on_probabilities=false}'}, [1]),
    ('regr', {'feature_sampling': 'without-replacement{sample_size=0.5}', 'instance_sampling': 'without-replacement'},
     {'l2_regularization_weight': 0.5}, []),
    ('seco', {'rule_pruning': 'irep', 'instance_sampling': 'without-replacement', 'head_type': 'single'},
     {'random_state': 5}, [0]),
    ('seco', {'head_type': 'partial', 'prediction_format': 'sparse', 'rule_pruning': 'none'},
     {'prediction_format': 'dense'}, []),
    ('boomer', {'sequential_post_optimization': 'true', 'instance_sampling': 'without-replacement',
                'feature_sampling': 'without-replacement'},
     {'sequential_post_optimization': 'false'}, []),
]
MAX_RULES = 4
OPS = ['fit0', 'fit1', 'fail-length', 'fail-inf', 'fail-param', 'fail-index', 'pred', 'inc', 'step', 'toggle', 'pickle',
       'deepcopy', 'clone', 'drop', 'other', 'noise']
FEW = ['fit0', 'fit1', 'fail-inf', 'pred', 'inc', 'step', 'toggle', 'pickle', 'drop', 'other']
BOUNDS = {'configurations': len(CONFIGS), 'operations': OPS, 'length': 'all sequences of 3 operations after fitting once '
          f'(thorough: also all sequences of 4 operations out of {FEW})',
          'processes': '3 per configuration, different contents of uninitialised memory'}
_REF = {}


def data(kind, d):
    x, y = (X0, Y0) if d == 0 else (X1, Y1)
    if kind == 'regr':
        y = (y * 2.5 - np.arange(y.shape[1]) % 2).astype(h.F32)
    return x.copy(), y.copy()


def convert(config, x):
    return h.sparse_features(x, h.sp.csr_array) if CONFIGS[config][1].get('feature_format') == 'sparse' else x


def create(config, toggled=False):
    kind, params, toggle, nominal = CONFIGS[config]
    l = h.learner(kind, dict(params, max_rules=MAX_RULES) | (toggle if toggled else {}))
    return declare(config, l, toggled)


def declare(config, l, toggled):
    """ Declares the types of features, which are changed by the operation "toggle", too. """
    nominal = CONFIGS[config][3]
    l.set_nominal_feature_indices((None if nominal else [0]) if toggled else list(nominal) or None)
    l.set_ordinal_feature_indices([0] if toggled and nominal else None)
    return l


def originals(config, l):
    """ The values of the parameters that are changed by the operation "toggle". """
    fresh = create(config).get_params()
    return {k: fresh[k] for k in CONFIGS[config][2]}


METHODS = {'boomer': ('binary', 'scores', 'proba'), 'regr': ('binary',), 'seco': ('binary', 'scores', 'proba')}


def call(l, method, x, **kw):
    if method == 'binary':
        return l.predict(x, **kw)
    if method == 'scores':
        return l.predict(x, predict_scores=True, **kw)
    return l.predict_proba(x, **kw)


def frozen(value):
    """ The contents of a result in a hashable form """
    if isinstance(value, Exception):
        return type(value).__name__, str(value)
    if h.sp.issparse(value):
        return ('sparse', value.shape, h.dense(value).tobytes())
    return ('dense', value.shape, str(value.dtype), np.ascontiguousarray(value).tobytes())


def attempt(f):
    try:
        return f()
    except Exception as e:  # pylint: disable=broad-except
        return e


def observe(config, l, d):
    """ All predictions for the training data, and for single examples """
    kind = CONFIGS[config][0]
    x = data(kind, d)[0]
    out = []
    for method in METHODS[kind]:
        for q in (x, x[1:2]):
            out.append(attempt(lambda m=method, v=q: call(l, m, convert(config, v))))
    return out


def prefix(config, l, d, k):
    kind = CONFIGS[config][0]
    x = convert(config, data(kind, d)[0])
    return [frozen(attempt(lambda m=m: call(l, m, x, max_rules=k))) for m in METHODS[kind]]


def reference(config, d, fitted, now):
    """ What is observed if a fresh learner has been fitted once """
    key = (config, d, fitted, now)
    if key not in _REF:
        l = create(config, fitted)
        x, y = data(CONFIGS[config][0], d)
        l.fit(convert(config, x), y)
        model = (h.model_key(l.model_), h.model_key(l.model_))
        l.set_params(**(CONFIGS[config][2] if now else originals(config, l)))
        used = min(l.model_.get_num_used_rules(), MAX_RULES)
        _REF[key] = {'model': model[0], 'pred': [frozen(v) for v in observe(config, l, d)],
                     'prefix': [prefix(config, l, d, k + 1) for k in range(used)], 'used': used}
    return _REF[key]


def jobs(tier):
    out = [{'part': 'process', 'config': c} for c in range(len(CONFIGS))]
    for c in range(len(CONFIGS)):
        for op in OPS:
            out.append({'part': 'history', 'config': c, 'first': op, 'ops': OPS, 'length': 3})
    if tier == 'thorough':
        for c in range(len(CONFIGS)):
            for op in itertools.product(FEW, FEW):
                out.append({'part': 'history', 'config': c, 'first': list(op), 'ops': FEW, 'length': 4})
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Histories
# ---------------------------------------------------------------------------------------------------------------------

def visited(l):
    from mlrl.common.cython.output_space_info import LabelVectorSet, LabelVectorSetVisitor
    from mlrl.common.cython.rule_model import RuleModelVisitor
    out = []

    class Visitor(RuleModelVisitor, LabelVectorSetVisitor):

        def visit_empty_body(self, _):
            pass

        def visit_conjunctive_body(self, body):
            for kind in h.KINDS:
                out.extend((getattr(body, kind + '_indices'), getattr(body, kind + '_thresholds')))

        def visit_complete_head(self, head):
            out.append(head.scores)

        def visit_partial_head(self, head):
            out.extend((head.indices, head.scores))

        def visit_label_vector(self, label_vector, _):
            out.append(label_vector)

    l.model_.visit(Visitor())
    if isinstance(l.output_space_info_, LabelVectorSet):
        l.output_space_info_.visit(Visitor())
    return [value for value in out if value is not None]


class World:

    def __init__(self, config, ctx):
        self.config, self.ctx = config, ctx
        self.kind, _, self.toggle_params, _ = CONFIGS[config]
        self.learner = create(config)
        self.data = None        # the index of the dataset the model has been fitted to
        self.fitted = False     # whether the parameters were toggled when it was fitted
        self.now = False        # whether they are toggled now
        self.predictors = []
        self.returned = []      # what has been returned, and what it looked like then

    def keep(self, value):
        if not isinstance(value, Exception):
            self.returned.append((value, frozen(value)))
        return frozen(value)

    def ref(self):
        return reference(self.config, self.data, self.fitted, self.now)

    def fit(self, d):
        x, y = data(self.kind, d)
        xs = convert(self.config, x)
        before = (frozen(xs), frozen(y))
        result = self.learner.fit(xs, y)
        self.ctx.check(result is self.learner, 'fit() does not return the learner')
        self.ctx.check((frozen(xs), frozen(y)) == before, 'fit() has modified its arguments')
        x[:] = 77  # The training data is not needed anymore
        y[:] = 1
        self.data, self.fitted = d, self.now
        self.ctx.check(h.model_key(self.learner.model_) == reference(self.config, d, self.now, self.now)['model'],
                       'the model depends on the operations performed earlier')

    def fail(self, how):
        x, y = data(self.kind, 1 if self.data == 0 else 0)
        l = self.learner
        error = None
        restore = []
        if how == 'length':
            y = y[:-1]
        elif how == 'inf':
            x[0, 0] = np.inf
        elif how == 'param':
            name = 'loss' if self.kind != 'seco' else 'heuristic'
            restore = [lambda v=l.get_params()[name]: l.set_params(**{name: v})]
            l.set_params(**{name: 'nonsense'})
        else:
            restore = [lambda v=l.ordinal_feature_indices: l.set_ordinal_feature_indices(v)]
            l.set_ordinal_feature_indices([X0.shape[1]])
        try:
            l.fit(convert(self.config, x), y)
        except Exception as e:  # pylint: disable=broad-except
            error = e
        for r in restore:
            r()
        self.ctx.check(isinstance(error, ValueError), f'invalid training data or parameters ({how}) are not rejected')

    def predict(self):
        if self.data is None:
            got = attempt(lambda: self.learner.predict(data(self.kind, 0)[0]))
            self.ctx.check(isinstance(got, Exception), 'a learner that is not fitted makes predictions')
            return
        got = [self.keep(v) for v in observe(self.config, self.learner, self.data)]
        self.ctx.outcome(got)
        self.ctx.check(got == self.ref()['pred'], 'predictions depend on the operations performed earlier')
        # What is provided to visitors may be kept by them
        for value in visited(self.learner):
            self.keep(value)
        # Other data, the number of features of which is different
        other = convert(self.config, data(self.kind, 1 - self.data)[0])
        got = attempt(lambda: self.learner.predict(other))
        self.ctx.check(isinstance(got, ValueError), 'query examples with a wrong number of features are not rejected')

    def incremental(self):
        if self.data is None:
            return
        x = convert(self.config, data(self.kind, self.data)[0])
        for i, method in enumerate(METHODS[self.kind]):
            if method == 'binary':
                p = attempt(lambda: self.learner.predict_incrementally(x))
            elif method == 'scores':
                p = attempt(lambda: self.learner.predict_incrementally(x, predict_scores=True))
            else:
                p = attempt(lambda: self.learner.predict_proba_incrementally(x))
            ref = self.ref()
            if isinstance(p, Exception):
                self.ctx.check(all(isinstance(frozen_[i][0], str) and frozen_[i][0] not in ('dense', 'sparse')
                                   for frozen_ in ref['prefix']), lambda: f'no incremental predictor is available: {p!r}')
            else:
                self.predictors.append([p, i, 0, ref])
        self.step()

    def step(self):
        for entry in self.predictors:
            p, i, k, ref = entry
            self.ctx.check(p.get_num_next() == ref['used'] - k, 'the number of remaining rules depends on history')
            if k < ref['used']:
                got = self.keep(p.apply_next(1))
                entry[2] = k + 1
                self.ctx.check(got[0] == ref['prefix'][k][i][0] and got[-1] == ref['prefix'][k][i][-1],
                               'incremental predictions depend on the operations performed in between')

    def op(self, name):
        self.ctx.step()
        if name in ('fit0', 'fit1'):
            self.fit(int(name[-1]))
        elif name.startswith('fail'):
            self.fail(name[5:])
        elif name == 'pred':
            self.predict()
        elif name == 'inc':
            self.incremental()
        elif name == 'step':
            self.step()
        elif name == 'toggle':
            self.now = not self.now
            self.learner.set_params(**(self.toggle_params if self.now else originals(self.config, self.learner)))
            declare(self.config, self.learner, self.now)
        elif name == 'pickle':
            # The contents of arrays may be transferred separately (PEP 574)
            buffers = []
            content = pickle.dumps(self.learner, protocol=5, buffer_callback=buffers.append)
            self.learner = None
            gc.collect()
            self.learner = pickle.loads(content, buffers=buffers)
        elif name == 'deepcopy':
            self.learner = copy.deepcopy(self.learner)
        elif name == 'clone':
            from sklearn.base import clone
            old, self.learner = self.learner, clone(self.learner)
            self.learner.set_nominal_feature_indices(old.nominal_feature_indices)
            self.learner.set_ordinal_feature_indices(old.ordinal_feature_indices)
            self.ctx.check(self.learner.get_params() == old.get_params(), 'a clone has different parameters')
            self.data = None
        elif name == 'drop':
            self.learner = create(self.config, self.now)
            self.data = None
            gc.collect()
        elif name == 'other':
            l = create((self.config + 1) % len(CONFIGS))
            l.fit(convert((self.config + 1) % len(CONFIGS), data(l_kind(self.config + 1), 0)[0]), data(l_kind(self.config + 1), 0)[1])
            l.predict(convert((self.config + 1) % len(CONFIGS), data(l_kind(self.config + 1), 0)[0]))
        elif name == 'noise':
            np.random.seed(5)
            random.seed(9)
            np.random.rand(3)
            garbage = [np.full((n, ), np.nan) for n in range(1, 60)]
            del garbage

    def finish(self):
        self.step()
        self.predict()
        del self.learner
        for value, before in self.returned:
            if frozen(value) != before:
                self.ctx.violation('predictions that have been returned earlier have changed')
                return
        self.step()
        self.predictors.clear()
        for value, before in self.returned:
            if frozen(value) != before:
                self.ctx.violation('predictions that have been returned by an incremental predictor have changed')
                return


def l_kind(config):
    return CONFIGS[config % len(CONFIGS)][0]


def history(job, ctx):
    first = job['first'] if isinstance(job['first'], list) else [job['first']]
    for rest in itertools.product(job['ops'], repeat=job['length'] - len(first)):
        ops = ['fit0'] + first + list(rest)
        ctx.case({'config': CONFIGS[job['config']], 'operations': ops})
        world = World(job['config'], ctx)
        for name in ops:
            world.op(name)
            ctx.state()
        world.finish()


# ---------------------------------------------------------------------------------------------------------------------
# Processes
# ---------------------------------------------------------------------------------------------------------------------

def digest(config):
    out = []
    for d in (0, 1):
        for t in (False, True):
            ref = reference(config, d, t, t)
            out.append(repr((ref['model'], ref['pred'], ref['prefix'])))
    return out


def process(job, ctx):
    here = os.path.dirname(os.path.abspath(__file__))
    expected = digest(job['config'])
    for fill, seed in (('0', '0'), ('255', '1'), ('63', '2')):
        ctx.case({'config': CONFIGS[job['config']], 'memory is filled with': fill, 'hash seed': seed})
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONMALLOC='malloc')
        env['ASAN_OPTIONS'] = env.get('ASAN_OPTIONS', '') + f':max_malloc_fill_size=1048576:malloc_fill_byte={fill}'
        code = 'import sys, json; sys.path[:0] = json.loads(sys.argv[1]); import p02; ' \
               'print(json.dumps(p02.digest(int(sys.argv[2]))))'
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, json.dumps([here, os.path.join(here, '..', 'lib')] +
                                                                                 sys.path), str(job['config'])],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, check=False)
        ctx.state()
        if not ctx.check(r.returncode == 0, lambda: 'the process has failed: ' + r.stderr[-1500:]):
            continue
        got = json.loads(r.stdout.strip().splitlines()[-1])
        ctx.step(len(got))
        ctx.check(got == expected, 'models or predictions differ between processes, i.e., they depend on uninitialised '
                  'memory, addresses or hashes')


def run(job, ctx):
    (process if job['part'] == 'process' else history)(job, ctx)
