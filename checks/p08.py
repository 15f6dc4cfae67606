"""
P08: what is saved and loaded is the same as before, or an error is raised.

Explores all models that consist of bodies with up to two conditions per type, heads of all kinds and special values, with
and without default rules and unused rules, all small label vector sets and calibration models, as well as learners that have
been trained with all combinations of components that affect what is persisted. Each of them is saved and restored in all
supported ways, also repeatedly and in another process, and must not differ from the original afterwards. Model files are
truncated at every byte, all following bytes are replaced by zeros at every byte, and the operating system refuses to write
more than any possible number of bytes: loading a file afterwards must either result in the complete model or in none at all.
All sequences of saving and loading models and parameters of different folds are explored, and all documented values of all
parameters must survive being written to and read from a file.
"""
import copy
import itertools
import json
import logging
import os
import pickle
import resource
import struct
import subprocess
import sys
import tempfile

import numpy as np

import harness as h
import p19

PROPERTY = 'P08'
VARIANT = 'plain'
BOUNDS = {'conditions': '<= 2 of each of 6 types (729 bodies)', 'rules': '<= 3, <= 1 default rule, every number of used rules',
          'pickle protocols': '0 to 5, copy, deepcopy, twice in a row', 'label vectors': '<= 3 over 3 labels, all frequencies '
          'out of 3', 'calibration models': '<= 3 lists of <= 2 bins', 'faults': 'every byte of a model file',
          'files': 'all sequences of <= 3 (thorough: 4) saves of 4 models, 3 folds and overall, 2 names'}
ASSUMPTIONS = ['Files are truncated or filled with zeros by a crash. Arbitrary changes to individual bytes are not detected '
               'by the file format and are not considered.']

WAYS = [('pickle protocol %d' % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(6)]
WAYS += [('copy', copy.copy), ('deepcopy', copy.deepcopy),
         ('saved twice', lambda o: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o, -1)), 2)))]
INT32 = (-2**31, 2**31 - 1)
FEATURES = (0, 1, 2**32 - 1, 3, 7, 5)
THRESHOLDS = (0.1, -0.0, float('inf'), 1e-45, float('-inf'), 3.4028234e38)
INTEGERS = (INT32[0], 0, -1, INT32[1], 5, 16777217)
SCORES = (0.1, -0.0, 5e-324, 1.7976931348623157e308, float('inf'), 1 / 3)
HEADS = [({0: 0.1, 1: -0.0, 2: 1 / 3}, True), ({0: 5e-324, 1: float('-inf'), 2: 1.7976931348623157e308}, True),
         ({1: 0.1}, False), ({0: 1 / 3, 2: -1e-310}, False), ({0: 0.25, 1: -0.1, 2: 16777217.0}, False)]


def jobs(tier):
    out = [{'part': 'bodies', 'lo': lo, 'hi': hi, 'heads': len(HEADS) if tier == 'thorough' else 2}
           for lo, hi in h.chunks(729, 46)]
    out += [{'part': 'lists', 'rules': n} for n in range(4)]
    out += [{'part': 'labels', 'vectors': n} for n in range(4)]
    out += [{'part': 'bins', 'lists': n} for n in range(3 if tier == 'quick' else 4)]
    out += [{'part': 'versions'}]
    total = len(learners())
    out += [{'part': 'learners', 'lo': lo, 'hi': hi} for lo, hi in h.chunks(total, 6)]
    out += [{'part': 'processes', 'lo': lo, 'hi': hi} for lo, hi in h.chunks(total, 60)]
    for kind in ('boomer', 'regr', 'seco'):
        for fault in ('truncated', 'zeros', 'limit', 'limit-over'):
            out.append({'part': 'faults', 'kind': kind, 'fault': fault, 'all': tier == 'thorough'})
    out += [{'part': 'sequences', 'length': 3 if tier == 'quick' else 4, 'first': i} for i in range(8)]
    out += [{'part': 'parameters', 'kind': kind} for kind in ('boomer', 'regr', 'seco')]
    out += [{'part': 'texts', 'length': 4 if tier == 'quick' else 5, 'first': i} for i in range(len(CHARACTERS))]
    return out


def prepare(tier):
    del tier
    logging.disable(logging.CRITICAL)


def run(job, ctx):
    logging.disable(logging.CRITICAL)
    {'bodies': run_bodies, 'lists': run_lists, 'labels': run_labels, 'bins': run_bins, 'versions': run_versions,
     'learners': run_learners, 'processes': run_processes, 'faults': run_faults, 'sequences': run_sequences,
     'parameters': run_parameters, 'texts': run_texts}[job['part']](job, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# Models
# ---------------------------------------------------------------------------------------------------------------------

def bits(value, kind):
    return struct.pack({'f': '<f', 'd': '<d', 'i': '<i'}[kind], value)


def described(rules, default_first):
    """ What a visitor must see, given a list of tuples (conditions or None, head, complete). """
    out = []
    for conditions, head, complete in rules:
        body = None
        if conditions is not None:
            body = tuple((k, f, bits(t, 'f' if k.startswith('num') else 'i')) for kind in h.KINDS
                         for k, f, t in conditions if k == kind)
        out.append((body, tuple((i, bits(s, 'd')) for i, s in sorted(head.items())), complete))
    default = [r for r in out if r[0] is None]
    others = [r for r in out if r[0] is not None]
    return default + others if default_first else others + default


def seen(model, used=False):
    out = []
    for rule in h.rules_of(model, used):
        body = None
        if not rule.default:
            body = tuple((k, f, bits(t, 'f' if k.startswith('num') else 'i')) for k, f, t in rule.conditions)
        out.append((body, tuple((i, bits(s, 'd')) for i, s in rule.head.items()), rule.complete))
    return out


def check_model(ctx, name, model, expected, num_used):
    ok = ctx.check(seen(model) == expected, '%s: rules are %s instead of %s' % (name, seen(model), expected))
    ok = ctx.check(model.get_num_rules() == len(expected), '%s: %d rules instead of %d'
                   % (name, model.get_num_rules(), len(expected))) and ok
    used = num_used if num_used > 0 else len(expected)
    ok = ctx.check(model.get_num_used_rules() == used, '%s: %d used rules instead of %d'
                   % (name, model.get_num_used_rules(), used)) and ok
    return ctx.check(seen(model, True) == used_of(expected, used), '%s: used rules are %s instead of %s'
                     % (name, seen(model, True), used_of(expected, used))) and ok


def used_of(expected, used):
    """ A default rule that comes last is used in any case. """
    if expected and expected[-1][0] is None and len(expected) > 1:
        return expected[:used - 1] + expected[-1:]
    return expected[:used]


def body(index):
    conditions = []
    position = 0
    for kind in h.KINDS:
        index, n = divmod(index, 3)
        for _ in range(n):
            values = THRESHOLDS if kind.startswith('num') else INTEGERS
            conditions.append((kind, FEATURES[position % 6], values[(position * 5 + n) % 6]))
            position += 1
    return conditions


def float32(x):
    return float(np.float32(x))


def run_bodies(job, ctx):
    for index in range(job['lo'], job['hi']):
        conditions = [(k, f, float32(t) if k.startswith('num') else t) for k, f, t in body(index)]
        for j in range(job['heads']):
            head, complete = HEADS[(j * 2 + index) % len(HEADS)]
            ctx.case({'body': index, 'head': head, 'complete': complete})
            rules = [(conditions, head, complete)]
            expected = described(rules, True)
            model = h.craft(rules, True)
            if not check_model(ctx, 'original', model, expected, 0):
                continue
            for name, way in WAYS:
                restored = way(model)
                ctx.step(1)
                check_model(ctx, name, restored, expected, 0)
            check_model(ctx, 'original afterwards', model, expected, 0)
            ctx.state()


def run_lists(job, ctx):
    n = job['rules']
    bodies = [body(0), body(364), body(728)]
    learner = h.learner('boomer', {'max_rules': 1})
    x = np.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=3)), dtype=h.F32)
    learner.fit(x, np.array([[i % 2, i % 3 == 0, 1] for i in range(len(x))], dtype=np.uint8))
    simple = [[('numerical_leq', 0, 0.0)], [('nominal_neq', 1, 2), ('ordinal_gr', 2, -1)], [('numerical_gr', 2, 0.0)]]
    for default in (None, 'first', 'last'):
        for positions in range(n + 1 if default is not None else 1):
            for num_used in range(0, n + (default is not None) + 1):
                for heads in itertools.product(range(len(HEADS)), repeat=min(n, 2)):
                    for kinds in (bodies, simple):
                        chosen = [HEADS[heads[i]] if i < len(heads) else HEADS[0] for i in range(n)]
                        rules = [(kinds[i],) + chosen[i] for i in range(n)]
                        if default is not None:
                            rules.insert(positions, (None,) + HEADS[(sum(heads)) % 2])
                        ctx.case({'rules': n, 'default': default, 'position': positions, 'num_used': num_used,
                                  'heads': heads, 'simple': kinds is simple})
                        rules = [(c and [(k, f, float32(t) if k.startswith('num') else t) for k, f, t in c], s, b)
                                 for c, s, b in rules]
                        expected = described(rules, default == 'first')
                        model = h.craft(rules, default == 'first', num_used)
                        if not check_model(ctx, 'original', model, expected, num_used):
                            continue
                        before = None
                        if kinds is simple:
                            learner.model_ = model
                            before = h.dense(learner.predict(x, predict_scores=True))
                        for name, way in WAYS:
                            restored = way(model)
                            ctx.step(1)
                            ok = check_model(ctx, name, restored, expected, num_used)
                            if ok and kinds is simple:
                                learner.model_ = restored
                                after = h.dense(learner.predict(x, predict_scores=True))
                                ctx.check(before.tobytes() == after.tobytes(), '%s: predictions differ' % name)
                        # A model that has been restored may be changed without affecting the original
                        restored = pickle.loads(pickle.dumps(model))
                        if expected:
                            restored.set_num_used_rules(1)
                            ctx.check(restored.get_num_used_rules() == 1, 'number of used rules cannot be set')
                        check_model(ctx, 'original afterwards', model, expected, num_used)
                        ctx.state()


# ---------------------------------------------------------------------------------------------------------------------
# Label vectors and calibration models
# ---------------------------------------------------------------------------------------------------------------------

def label_vectors(info):
    from mlrl.common.cython.output_space_info import LabelVectorSetVisitor

    class Visitor(LabelVectorSetVisitor):

        def __init__(self):
            self.vectors = []

        def visit_label_vector(self, label_vector, frequency):
            self.vectors.append((tuple(int(i) for i in label_vector), frequency))

    visitor = Visitor()
    info.visit(visitor)
    return visitor.vectors


def bins_of(model):
    from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor

    class Visitor(IsotonicProbabilityCalibrationModelVisitor):

        def __init__(self):
            self.bins = []

        def visit_bin(self, list_index, threshold, probability):
            self.bins.append((list_index, bits(threshold, 'd'), bits(probability, 'd')))

    visitor = Visitor()
    model.visit(visitor)
    return visitor.bins


def version_of(cls, fallback):
    """ The version that is expected by the current implementation. """
    for version in [fallback] + list(range(0, 32)):
        try:
            cls.__new__(cls).__setstate__((version, []))
            return version
        except AssertionError:
            pass
    raise ValueError('No version is accepted')


def run_labels(job, ctx):
    from mlrl.common.cython.output_space_info import LabelVectorSet, NoOutputSpaceInfo
    version = version_of(LabelVectorSet, 3)
    subsets = [list(s) for n in range(4) for s in itertools.combinations(range(3), n)] + [[0, 2**32 - 1]]
    for vectors in itertools.permutations(subsets, job['vectors']):
        for frequencies in itertools.product((1, 7, 2**32 - 1), repeat=job['vectors']):
            ctx.case({'label vectors': vectors, 'frequencies': frequencies})
            info = LabelVectorSet()
            info.__setstate__((version, list(zip(vectors, frequencies))))
            expected = [(tuple(v), f) for v, f in zip(vectors, frequencies)]
            if not ctx.check(label_vectors(info) == expected, 'visited %s' % label_vectors(info)):
                continue
            for name, way in WAYS:
                restored = way(info)
                ctx.step(1)
                ctx.check(type(restored) is LabelVectorSet and label_vectors(restored) == expected,
                          '%s: %s instead of %s' % (name, label_vectors(restored), expected))
            ctx.check(label_vectors(info) == expected, 'original afterwards: %s' % label_vectors(info))
            ctx.state()
    if job['vectors'] == 0:
        ctx.case({'label vectors': None})
        info = NoOutputSpaceInfo()
        info.__setstate__(())
        for name, way in WAYS:
            ctx.check(type(way(info)) is NoOutputSpaceInfo, '%s: %s' % (name, type(way(info))))


def run_bins(job, ctx):
    from mlrl.common.cython import probability_calibration as c
    values = [(0.1, 1 / 3), (5e-324, -0.0), (1.0, 1.0)]
    lists = [list(s) for n in range(3) for s in itertools.permutations(values, n)]
    for cls in (c.IsotonicMarginalProbabilityCalibrationModel, c.IsotonicJointProbabilityCalibrationModel):
        version = version_of(cls, 0)
        for bins in itertools.product(lists, repeat=job['lists']):
            ctx.case({'model': cls.__name__, 'bins': bins})
            model = cls()
            model.__setstate__((version, [list(b) for b in bins]))
            expected = [(i, bits(t, 'd'), bits(p, 'd')) for i, b in enumerate(bins) for t, p in b]
            if not ctx.check(bins_of(model) == expected, 'visited %s' % bins_of(model)):
                continue
            for name, way in WAYS:
                restored = way(model)
                ctx.step(1)
                ctx.check(type(restored) is cls and bins_of(restored) == expected,
                          '%s: %s instead of %s' % (name, bins_of(restored), expected))
                # The number of lists (which may be empty) is not visible to visitors
                ctx.check(len(restored.__reduce__()[2][1]) == len(bins), '%s: number of lists' % name)
            ctx.check(bins_of(model) == expected, 'original afterwards: %s' % bins_of(model))
            ctx.state()
    if job['lists'] == 0:
        for cls in (c.NoMarginalProbabilityCalibrationModel, c.NoJointProbabilityCalibrationModel):
            ctx.case({'model': cls.__name__})
            model = cls()
            model.__setstate__(())
            for name, way in WAYS:
                ctx.check(type(way(model)) is cls, '%s: %s' % (name, type(way(model))))


def run_versions(job, ctx):
    """ The state of an incompatible version must be rejected. """
    from mlrl.common.cython import probability_calibration as c
    from mlrl.common.cython.output_space_info import LabelVectorSet
    from mlrl.common.cython.rule_model import RuleList
    model = h.craft([([('numerical_leq', 0, 0.0)], {0: 1.0}, True)], True)
    info = LabelVectorSet()
    info.__setstate__((version_of(LabelVectorSet, 3), [([0], 1)]))
    objects = [model, info]
    for cls in (c.IsotonicMarginalProbabilityCalibrationModel, c.IsotonicJointProbabilityCalibrationModel):
        objects.append(cls())
        objects[-1].__setstate__((version_of(cls, 0), [[(0.5, 0.5)]]))
    for obj in objects:
        cls, arguments, state = obj.__reduce__()
        for version in list(range(-2, 16)) + [2**31 - 1]:
            ctx.case({'type': cls.__name__, 'version': version})
            error = None
            try:
                cls(*arguments).__setstate__((version,) + tuple(state[1:]))
            except Exception as e:  # pylint: disable=broad-except
                error = e
            ctx.step(1)
            ctx.check((error is None) == (version == state[0]), 'version %d instead of %d results in %r'
                      % (version, state[0], error))
    ctx.check(RuleList is type(model), 'type of the model')


# ---------------------------------------------------------------------------------------------------------------------
# Learners
# ---------------------------------------------------------------------------------------------------------------------

X = np.array([[0, 0, 2, 1], [1, 1, 0, 3], [2, 0, 1, 2], [1, 0, 0, 1], [0, 1, 1, 2], [2, 1, 2, 3]], dtype=h.F32)
Y = np.array([[0, 1, 1], [1, 0, 0], [1, 1, 0], [0, 0, 0], [0, 1, 1], [1, 0, 0]], dtype=np.uint8)
YR = np.array([[0.5, -1.0], [1.25, 0.0], [-0.75, 2.0], [0.0, 0.0], [3.0, -1.5], [1.0, 0.5]], dtype=h.F32)
Q = np.vstack([X, [[h.NAN] * 4, [0.5, 1.5, -1, h.NAN], [7, 0, 1, 2], [1, h.NAN, 2, 0]]]).astype(h.F32)


def learners():
    """ All combinations of components that affect what is persisted, as (kind, parameters, sparse features). """
    out = []
    for loss in ('logistic-decomposable', 'logistic-non-decomposable'):
        for head in ('single', 'complete', 'partial-fixed{min_outputs=2,max_outputs=2}'):
            if loss == 'logistic-non-decomposable' and head.startswith('partial'):
                continue
            for binary, probability in (('output-wise{based_on_probabilities=true}', 'output-wise'),
                                        ('example-wise{based_on_probabilities=true}', 'marginalized'),
                                        ('gfm', 'marginalized')):
                for marginal in ('none', 'isotonic'):
                    for joint in ('none', 'isotonic'):
                        for default in ('true', 'false'):
                            out.append(('boomer', {'loss': loss, 'head_type': head, 'binary_predictor': binary,
                                                   'probability_predictor': probability, 'default_rule': default,
                                                   'marginal_probability_calibration': marginal,
                                                   'joint_probability_calibration': joint}, default == 'false'))
    for pruning in ('none', 'post-pruning{min_rules=1,remove_unused_rules=false}',
                    'post-pruning{min_rules=1,remove_unused_rules=true}'):
        for head in ('single', 'complete'):
            out.append(('boomer', {'global_pruning': pruning, 'holdout': 'random{holdout_set_size=0.34}',
                                   'head_type': head}, False))
            for default in ('true', 'false'):
                out.append(('regr', {'head_type': head, 'default_rule': default, 'global_pruning': pruning,
                                     'holdout': 'random{holdout_set_size=0.34}'}, default == 'false'))
    for head in ('single', 'partial'):
        for fmt in ('dense', 'sparse'):
            for induction in ('top-down-greedy', 'top-down-beam-search'):
                out.append(('seco', {'head_type': head, 'prediction_format': fmt, 'rule_induction': induction},
                            fmt == 'sparse'))
    return out


def trained(index):
    kind, params, sparse = learners()[index]
    params = dict(params, max_rules=8)
    learner = h.learner(kind, params, ordinal=[3], nominal=[2])
    x = h.sparse_features(X, h.sp.csc_array) if sparse else X
    learner.fit(x, YR if kind == 'regr' else Y)
    return kind, learner


PREDICTIONS = {'boomer': ({}, {'predict_scores': True}, 'proba'), 'regr': ({},), 'seco': ({},)}


def observe(kind, learner, everything=True):
    out = {}
    for sparse in (False, True):
        q = h.sparse_features(np.nan_to_num(Q, nan=5.0), h.sp.csr_array) if sparse else Q
        for arguments in PREDICTIONS[kind]:
            try:
                if arguments == 'proba':
                    prediction = learner.predict_proba(q)
                else:
                    prediction = learner.predict(q, **arguments)
                dense = h.dense(prediction)
                out['%s %s' % (sparse, arguments)] = ' '.join((type(prediction).__name__, str(dense.dtype),
                                                                 dense.tobytes().hex()))
            except Exception as error:  # pylint: disable=broad-except
                out['%s %s' % (sparse, arguments)] = repr(error)
    out['rules'] = repr(seen(learner.model_))
    out['used'] = repr(seen(learner.model_, True))
    out['nominal'] = repr(learner.nominal_feature_indices)
    out['ordinal'] = repr(learner.ordinal_feature_indices)
    out['params'] = repr(sorted(learner.get_params().items()))
    if everything:
        for name in sorted(vars(learner)):
            value = getattr(learner, name)
            text = type(value).__name__
            if text == 'LabelVectorSet':
                text += repr(label_vectors(value))
            elif 'Isotonic' in text:
                text += repr(bins_of(value))
            elif isinstance(value, (int, float, str, bool, list, tuple)) or value is None:
                text += repr(value)
            out['attribute ' + name] = text
    return out


def difference(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def run_learners(job, ctx):
    for index in range(job['lo'], min(job['hi'], len(learners()))):
        ctx.case({'learner': learners()[index]})
        kind, learner = trained(index)
        expected = observe(kind, learner)
        ctx.outcome(expected['rules'])
        for name, way in WAYS:
            restored = way(learner)
            ctx.step(1)
            got = observe(kind, restored)
            ctx.check(not difference(expected, got), '%s: %s' % (name, [(k, expected.get(k), got.get(k))
                                                                        for k in difference(expected, got)]))
        # Training the restored learner again results in the same model
        restored = pickle.loads(pickle.dumps(learner))
        restored.fit(h.sparse_features(X, h.sp.csc_array) if learners()[index][2] else X, YR if kind == 'regr' else Y)
        got = observe(kind, restored)
        ctx.check(not difference(expected, got), 'trained again: %s' % difference(expected, got))
        # The restored learner does not depend on the original one
        data = pickle.dumps(learner)
        learner.fit(X[:3], (YR if kind == 'regr' else Y)[:3])
        restored = pickle.loads(data)
        ctx.check(not difference(expected, observe(kind, restored)), 'original trained again')
        del learner
        ctx.check(not difference(expected, observe(kind, restored)), 'original deleted')
        ctx.state()


CHILD = '''
import json, pickle, sys
sys.path[:0] = json.loads(sys.argv[1])
import p08
out = []
for kind, data in pickle.load(open(sys.argv[2], 'rb')):
    learner = pickle.loads(data)
    out.append((p08.observe(kind, learner), pickle.dumps(learner).hex()))
print(json.dumps(out))
'''


def run_processes(job, ctx):
    """ Saves learners, restores and saves them in another process and restores them again. """
    hi = min(job['hi'], len(learners()))
    data, expected = [], []
    for index in range(job['lo'], hi):
        kind, learner = trained(index)
        data.append((kind, pickle.dumps(learner, index % 6)))
        expected.append(observe(kind, learner))
    directory = tempfile.mkdtemp(dir=os.getcwd())
    path = os.path.join(directory, 'learners')
    with open(path, 'wb') as f:
        pickle.dump(data, f)
    here = os.path.dirname(os.path.abspath(__file__))
    env = dict(os.environ, PYTHONHASHSEED='7')
    paths = [here, os.path.join(os.path.dirname(here), 'lib')]
    result = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, json.dumps(paths), path], env=env, check=False,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    ctx.case({'learners': (job['lo'], hi)})
    if not ctx.check(result.returncode == 0, 'failed in another process: %s' % result.stderr.decode()[-600:]):
        return
    for index, (got, again) in enumerate(json.loads(result.stdout)):
        ctx.case({'learner': learners()[job['lo'] + index]})
        ctx.step(2)
        ctx.check(not difference(expected[index], got), 'another process: %s' % difference(expected[index], got))
        last = observe(data[index][0], pickle.loads(bytes.fromhex(again)))
        ctx.check(not difference(expected[index], last), 'back: %s' % difference(expected[index], last))
        ctx.state()


# ---------------------------------------------------------------------------------------------------------------------
# Model files
# ---------------------------------------------------------------------------------------------------------------------

SMALL = {'boomer': {'max_rules': 2, 'marginal_probability_calibration': 'isotonic', 'binary_predictor': 'example-wise'},
         'regr': {'max_rules': 2}, 'seco': {'max_rules': 2}}


def small(kind, variant=0):
    learner = h.learner(kind, dict(SMALL[kind], max_rules=2 + variant))
    learner.fit(X, YR if kind == 'regr' else Y)
    return learner


def load(persistence, name, split):
    """ Returns the model, None, or the exception that has been raised. """
    try:
        return persistence.load_model(name, split)
    except Exception as error:  # pylint: disable=broad-except
        return error


def run_faults(job, ctx):
    from mlrl.testbed.data_splitting import NoSplit
    from mlrl.testbed.persistence import ModelPersistence
    kind, fault = job['kind'], job['fault']
    directory = tempfile.mkdtemp(dir=os.getcwd())
    persistence = ModelPersistence(directory)
    split = NoSplit()
    learner, older = small(kind), small(kind, 1)
    expected, outdated = observe(kind, learner), observe(kind, older)
    ctx.case({'kind': kind, 'fault': None})
    persistence.save_model(learner, 'm', split)
    files = os.listdir(directory)
    if not ctx.check(len(files) == 1, 'files are %s' % files):
        return
    path = os.path.join(directory, files[0])
    loaded = load(persistence, 'm', split)
    ctx.check(hasattr(loaded, 'model_') and observe(kind, loaded) == expected, 'model cannot be loaded: %r' % loaded)
    with open(path, 'rb') as f:
        content = f.read()
    limit = resource.getrlimit(resource.RLIMIT_FSIZE)
    # Content that is written at once is interrupted at every byte
    for size in range(0, len(content) + 1):
        ctx.case({'kind': kind, 'fault': fault, 'byte': size, 'size': len(content)})
        complete = (expected,)
        if fault in ('truncated', 'zeros'):
            with open(path, 'wb') as f:
                f.write(content[:size])
                if fault == 'zeros':
                    f.write(b'\0' * (len(content) - size))
        else:
            os.unlink(path)
            if fault == 'limit-over':
                persistence.save_model(older, 'm', split)
                complete = (expected, outdated)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, limit[1]))
            error = None
            try:
                persistence.save_model(learner, 'm', split)
            except Exception as e:  # pylint: disable=broad-except
                error = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
            ctx.check(error is None or isinstance(error, OSError), 'saving fails with %r' % error)
        loaded = load(persistence, 'm', split)
        ctx.step(2)
        if isinstance(loaded, Exception) or loaded is None:
            ctx.check(size < len(content), 'complete file results in %r' % loaded)
            ctx.outcome(type(loaded).__name__)
        else:
            got = observe(kind, loaded)
            ctx.check(got in complete, 'incomplete file results in another model')
            if size == len(content):
                ctx.check(got == expected, 'complete file results in another model')
            ctx.outcome('loaded')
        if size % 16 == 0:
            # A failure does not have any consequences
            persistence.save_model(learner, 'm', split)
            loaded = load(persistence, 'm', split)
            ctx.check(hasattr(loaded, 'model_') and observe(kind, loaded) == expected, 'save afterwards: %r' % loaded)
            ctx.check(observe(kind, learner) == expected, 'learner has been modified')
        ctx.state()
    for name, wrong in (('missing directory', os.path.join(directory, 'x', 'y')), ('file', path)):
        ctx.case({'kind': kind, 'directory': name})
        other = ModelPersistence(wrong)
        try:
            other.save_model(learner, 'm', split)
        except OSError:
            pass
        ctx.check(not hasattr(load(other, 'm', split), 'model_'), 'model loaded from nowhere')


def run_sequences(job, ctx):
    """ All sequences of saving four different models under two names, for three folds and without folds. """
    from mlrl.testbed.data_splitting import CrossValidationFold, NoSplit
    from mlrl.testbed.parameters import ParameterCsvInput
    from mlrl.testbed.persistence import ModelPersistence
    models = [small('boomer'), small('boomer', 1), small('regr'), small('seco', 2)]
    kinds = ['boomer', 'boomer', 'regr', 'seco']
    expected = [observe(k, m, False) for k, m in zip(kinds, models)]
    splits = [NoSplit()] + [CrossValidationFold(num_folds=12, fold=f, current_fold=-1) for f in (0, 1, 10)]
    slots = [(name, s) for name in ('model', 'model_fold-1') for s in range(len(splits))]
    for slots_used in itertools.product(range(len(slots)), repeat=job['length'] - 1):
        slots_used = (job['first'],) + slots_used
        ctx.case({'saved': [(slots[s][0], slots[s][1]) for s in slots_used]})
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as directory:
            persistence = ModelPersistence(directory)
            current = {}
            for i, s in enumerate(slots_used):
                name, split = slots[s]
                persistence.save_model(models[i % 4], name, splits[split])
                write_parameters(models[i % 4], directory, splits[split])
                current[s] = i % 4
                current[split] = current.get(split)
                ctx.step(1)
            parameters = {}
            for i, s in enumerate(slots_used):
                parameters[slots[s][1]] = i % 4
            reader = ModelPersistence(directory)
            for s, (name, split) in enumerate(slots):
                loaded = load(reader, name, splits[split])
                i = current.get(s)
                if i is None:
                    ctx.check(loaded is None, 'a model has never been saved, but is loaded: %s' % ((name, split),))
                else:
                    ctx.check(hasattr(loaded, 'model_') and observe(kinds[i], loaded, False) == expected[i],
                              'another model is loaded for %s' % ((name, split),))
            for split, data_split in enumerate(splits):
                got = ParameterCsvInput(directory).read_parameters(data_split)
                want = {}
                if split in parameters:
                    want = {k: str(v) for k, v in models[parameters[split]].get_params().items() if v is not None}
                ctx.check(got == want, 'parameters of %s are %s instead of %s' % (split, got, want))
            ctx.state()


# ---------------------------------------------------------------------------------------------------------------------
# Parameters
# ---------------------------------------------------------------------------------------------------------------------

def write_parameters(learner, directory, split):
    from mlrl.testbed.data import MetaData
    from mlrl.testbed.parameters import ParameterWriter
    from mlrl.testbed.problem_type import ProblemType
    writer = ParameterWriter([ParameterWriter.CsvSink(directory)])
    writer.write_output(problem_type=ProblemType.CLASSIFICATION, meta_data=MetaData([], [], outputs_at_start=False), x=None,
                        y=None, data_split=split, learner=learner)


def typed(kind, parameter, text):
    """ The values of Python types that are equivalent to a textual representation. """
    out = [text]
    spec = p19.NUMERICAL.get(parameter)
    if spec:
        try:
            out.append(spec[0](text))
        except ValueError:
            pass
    elif text in ('true', 'false') and text in p19.TABLES[kind].get(parameter, {}):
        out.append(text == 'true')
    return out


def values(kind):
    """ All parameters and their documented values with at most one option. """
    for parameter, table in sorted(p19.TABLES[kind].items()):
        for value, (_, options) in sorted(table.items()):
            yield parameter, value
            for option, (option_type, _, _, predicate) in sorted(options.items()):
                for text in p19.grid(option_type):
                    interpreted = p19.interpret(option_type, text)
                    if interpreted is not None and predicate(interpreted) is True:
                        yield parameter, '%s{%s=%s}' % (value, option, text)
            for (o1, s1), (o2, s2) in itertools.combinations(sorted(options.items()), 2):
                t1, t2 = ([t for t in p19.grid(s[0]) if p19.interpret(s[0], t) is not None
                           and s[3](p19.interpret(s[0], t)) is True][:1] for s in (s1, s2))
                if t1 and t2:
                    yield parameter, '%s{%s=%s,%s=%s}' % (value, o1, t1[0], o2, t2[0])
    for parameter, spec in sorted(p19.NUMERICAL.items()):
        if parameter in h.make(kind).get_params():
            for text in p19.grid(spec[0]):
                interpreted = p19.interpret(spec[0], text)
                if interpreted is not None and spec[1](interpreted) is True:
                    yield parameter, text


def configured(kind, params):
    """ The configuration of a learner: The methods that have been invoked and all values that can be read. """
    log, error = p19.configure(kind, params)
    if error is not None:
        return repr(error)
    out = {}
    for method, conf in log.items():
        out[method] = {}
        for getter in dir(conf):
            if getter.startswith(('get_', 'is_', 'are_')):
                out[method][getter] = str(getattr(conf, getter)())
    return out


def run_parameters(job, ctx):
    from mlrl.testbed.data_splitting import NoSplit
    from mlrl.testbed.parameters import ParameterCsvInput
    kind = job['kind']
    directory = tempfile.mkdtemp(dir=os.getcwd())
    cls = p19.learner_class(kind)
    everything = list(values(kind))
    ctx.case({'kind': kind, 'parameters': {}})
    learner = cls()
    write_parameters(learner, directory, NoSplit())
    loaded = ParameterCsvInput(directory).read_parameters(NoSplit())
    ctx.check({k: str(v) for k, v in learner.get_params().items() if v is not None} == loaded, 'read %s' % loaded)
    for i, (parameter, text) in enumerate(everything):
        for value in typed(kind, parameter, text):
            # Combined with another parameter
            other, other_value = everything[(i * 7 + 3) % len(everything)]
            params = {parameter: value}
            if other != parameter:
                params[other] = other_value
            ctx.case({'kind': kind, 'parameters': params})
            learner = cls(**params)
            write_parameters(learner, directory, NoSplit())
            loaded = ParameterCsvInput(directory).read_parameters(NoSplit())
            original = {k: v for k, v in learner.get_params().items() if v is not None}
            ctx.step(1)
            ctx.check({k: str(v) for k, v in original.items()} == loaded, 'wrote %s, but read %s' % (original, loaded))
            restored = cls()
            restored.set_params(**loaded)
            got = {k: v for k, v in restored.get_params().items() if v is not None}
            ctx.check({k: str(v) for k, v in got.items()} == loaded, 'learner has the parameters %s' % got)
            before, after = configured(kind, original), configured(kind, loaded)
            ctx.check(before == after, 'configuration is %s instead of %s' % (after, before))
            ctx.outcome(repr(after))
            ctx.state()


CHARACTERS = ('a', ',', '"', '{', '}', '=', ' ', '\n', "'", '\u00e4')


def run_texts(job, ctx):
    """ Arbitrary texts survive being written to a file. """
    from mlrl.testbed.data_splitting import NoSplit
    from mlrl.testbed.parameters import ParameterCsvInput
    directory = tempfile.mkdtemp(dir=os.getcwd())

    class Learner:

        def __init__(self, params):
            self.params = params

        def get_params(self, deep=True):
            del deep
            return self.params

    for n in range(0, job['length']):
        texts = [CHARACTERS[job['first']] + ''.join(t) for t in itertools.product(CHARACTERS, repeat=n)]
        for lo, hi in h.chunks(len(texts), 50):
            ctx.case({'texts': texts[lo:hi]})
            params = {'p%d' % i: t for i, t in enumerate(texts[lo:hi])}
            write_parameters(Learner(dict(params, none=None)), directory, NoSplit())
            loaded = ParameterCsvInput(directory).read_parameters(NoSplit())
            ctx.check(loaded == params, 'read %s' % loaded)
            ctx.step(hi - lo)
            ctx.state()
