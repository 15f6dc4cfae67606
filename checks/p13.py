"""
P13: stopping criteria and the pruning of entire models keep exactly those rules that should be kept.

For all small datasets, all samples that may be used as a holdout set, and many configurations of the stopping criteria,
the model that is learned is compared to the one that is predicted by an independent simulation of the documented
criteria. The simulation evaluates the rules of a model that is learned without any pruning on the training or holdout
set, one after the other.
"""
import ctypes
import itertools
import os

import numpy as np

import choices
import harness as h

PROPERTY = 'P13'
RULES = 7
TOL = 1e-7
BOUNDS = {'examples': '4 (all label matrices and all regression targets out of {-1, 0, 2})', 'outputs': '<= 2', 'rules': RULES,
          'holdout': 'none and all sets of one or two examples'}
ASSUMPTIONS = ['Decisions that depend on differences below 1e-7 may be taken either way, unless the scores are '
               'necessarily identical.']


def prepare(tier):
    return choices.prepare()


BOOL = ('false', 'true')


def pruning_configs():
    out = []
    for min_rules, interval, holdout, remove in itertools.product((1, 2, 5), (1, 2, 3), BOOL, BOOL):
        out.append({'kind': 'post', 'min_rules': min_rules, 'interval': interval, 'use_holdout_set': holdout,
                    'remove_unused_rules': remove})
    i = 0
    for agg, past, recent, improvement in itertools.product(('min', 'max', 'avg'), (1, 2, 3), (1, 2), (0, 0.02, 0.1, 0.5)):
        # The remaining options are combined such that each combination occurs with each aggregation function
        for update, factor, min_rules in ((1, 1, 1), (1, 2, 5), (2, 1, 4), (1, 1, 6)):
            i += 1
            out.append({'kind': 'pre', 'aggregation': agg, 'num_past': past, 'num_recent': recent,
                        'min_improvement': improvement, 'update_interval': update, 'stop_interval': update * factor,
                        'min_rules': min_rules, 'use_holdout_set': BOOL[(i // 2 + i // 7) % 2],
                        'remove_unused_rules': BOOL[(i // 3 + past) % 2]})
    return out


PRUNING = pruning_configs()
X4 = np.array([[0, 1], [1, 0], [2, 0], [3, 1]], dtype=h.F32)


def learners():
    base = {'rule_induction': 'top-down-greedy{max_conditions=1}', 'shrinkage': 1.0, 'l2_regularization_weight': 0.3}
    return [
        ('boomer', 'logistic', dict(base, loss='logistic-decomposable', head_type='single'), 1),
        ('boomer', 'logistic', dict(base, loss='logistic-decomposable', head_type='single', shrinkage=0.3), 2),
        ('boomer', 'logistic-joint', dict(base, loss='logistic-non-decomposable', head_type='complete'), 2),
        ('boomer', 'squared-error', dict(base, loss='squared-error-decomposable', head_type='single', default_rule='false'), 1),
        ('boomer', 'squared-hinge', dict(base, loss='squared-hinge-decomposable', head_type='complete', statistic_format='dense'), 2),
        ('regr', 'regression', dict(base, loss='squared-error-decomposable', head_type='complete'), 1),
        ('regr', 'regression', dict(base, loss='squared-error-decomposable', head_type='complete', default_rule='false', shrinkage=0.6), 1),
    ]


LEARNERS = learners()


def targets(index):
    kind, _, _, outputs = LEARNERS[index]
    if kind == 'regr':
        return list(itertools.product((-1.0, 0.0, 2.0), repeat=4))
    if outputs == 1:
        return list(itertools.product((0, 1), repeat=4))
    # Up to symmetry between labels
    return [r for r in itertools.product((0, 1), repeat=8) if r[0::2] <= r[1::2]]


def matrix(index, values):
    kind, _, _, outputs = LEARNERS[index]
    return np.array(values, dtype=h.F32 if kind == 'regr' else np.uint8).reshape(4, outputs)


HOLDOUT = (None, 0.3, 0.5)


def jobs(tier):
    out = []
    for index in range(len(LEARNERS)):
        n = len(targets(index))
        for lo, hi in h.chunks(n, 14):
            out.append({'part': 'pruning', 'learner': index, 'lo': lo, 'hi': hi, 'tier': tier})
        out.append({'part': 'size', 'learner': index})
        out.append({'part': 'time', 'learner': index})
    return out


def option_string(c):
    name = 'post-pruning' if c['kind'] == 'post' else 'pre-pruning'
    return name + '{' + ','.join(f'{k}={v}' for k, v in c.items() if k != 'kind') + '}'


# ---------------------------------------------------------------------------------------------------------------------
# Reference
# ---------------------------------------------------------------------------------------------------------------------

def loss_of(name, y, s):
    """ The loss for a single example. """
    if name == 'logistic':
        t = np.where(y > 0, 1.0, -1.0)
        return float(np.mean(np.log1p(np.exp(-t * s))))
    if name == 'logistic-joint':
        t = np.where(y > 0, 1.0, -1.0)
        return float(np.log1p(np.sum(np.exp(-t * s))))
    if name == 'squared-error':
        return float(np.mean((np.where(y > 0, 1.0, -1.0) - s)**2))
    if name == 'squared-hinge':
        return float(np.mean(np.where(y > 0, np.maximum(1 - s, 0), np.maximum(s, 0))**2))
    return float(np.mean((y.astype(float) - s)**2))


class Score:
    """ A score, together with an object that identifies the predictions it has been calculated from. """

    __slots__ = ('value', 'key')

    def __init__(self, value, key):
        self.value, self.key = value, key


def scores_of(loss, rules, y, examples):
    """ A list that contains, for each number of rules (starting at 0), the score on given examples. """
    s = np.zeros(y.shape)
    out = []
    for k in range(len(rules) + 1):
        if k:
            r = rules[k - 1]
            for i in range(len(y)):
                if r.default or h.covers(r, X4[i]):
                    for o, v in r.head.items():
                        s[i, o] += v
        e = sorted(examples)
        out.append(Score(float(np.mean([loss_of(loss, y[i], s[i]) for i in e])), s[e].tobytes()))
    return out


class Ambiguous(Exception):
    pass


class Simulation:
    """ Simulates stopping criteria. Decisions that cannot be taken reliably are explored both ways. """

    def __init__(self, c, scores, max_rules, first):
        self.c, self.scores, self.max_rules, self.first = c, scores, max_rules, first

    def less(self, a, b, identical):
        """ Whether a < b. """
        if identical:
            return False
        if abs(a - b) > TOL * max(1.0, abs(a), abs(b)) or np.isinf(a) != np.isinf(b):
            return a < b
        if self.pos == len(self.decisions):
            self.decisions.append(False)
        self.pos += 1
        return self.decisions[self.pos - 1]

    def run(self):
        """ Returns the set of all possible outcomes (number of rules in the model, number of used rules). """
        results = set()
        stack = [[]]
        while stack:
            self.decisions = stack.pop()
            start = len(self.decisions)
            self.pos = 0
            results.add(self.simulate())
            for i in range(start, len(self.decisions)):
                stack.append(self.decisions[:i] + [not self.decisions[i]])
        return results

    def simulate(self):
        c = self.c
        n = self.first
        used = 0
        best = Score(float('inf'), None)
        best_n = 0
        history = []
        stopped = False
        while True:
            stop = n >= self.max_rules
            if c['kind'] == 'post':
                if n >= c['min_rules'] and n % c['interval'] == 0:
                    s = self.scores[n]
                    if self.less(s.value, best.value, s.key == best.key):
                        best, used = s, n
            elif c['kind'] == 'pre':
                offset = max(0, c['min_rules'] - (c['num_past'] + c['num_recent']) * c['update_interval'])
                if not stopped and n > offset and n % c['update_interval'] == 0:
                    s = self.scores[n]
                    if len(history) >= c['num_past'] + c['num_recent']:
                        if self.less(s.value, best.value, s.key == best.key):
                            best, best_n = s, n
                        if n % c['stop_interval'] == 0:
                            recent = history[-c['num_recent']:]
                            past = history[-c['num_recent'] - c['num_past']:-c['num_recent']]
                            f = {'min': min, 'max': max, 'avg': lambda v: sum(v) / len(v)}[c['aggregation']]
                            p, r = f([v.value for v in past]), f([v.value for v in recent])
                            same = len(set(v.key for v in past + recent)) == 1
                            if r < 1e-12:
                                # Not a number, infinity, or a value that results from rounding errors
                                too_small = self.less(0, 0, False)
                            elif same:
                                too_small = 0 < c['min_improvement']
                            else:
                                too_small = self.less((p - r) / r, c['min_improvement'], False)
                            if too_small:
                                stop = stop or c['remove_unused_rules'] == 'true'
                                used = best_n
                                stopped = True
                    history.append(s)
            if stop or n + 1 >= len(self.scores):
                break
            n += 1
        if c['kind'] != 'none' and c['remove_unused_rules'] == 'true' and used:
            return used, used
        return n, used or n


# ---------------------------------------------------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------------------------------------------------

_PARTITIONS = {}


def training_set(holdout, prefix):
    """ Determines the examples a learner is trained on, given certain random choices, from a model that isolates them. """
    key = (holdout, tuple(prefix))
    if key not in _PARTITIONS:
        x = np.arange(4, dtype=h.F32).reshape(4, 1)
        y = np.array([[4.0], [-16.0], [64.0], [-256.0]], dtype=h.F32)
        l = h.learner('regr', {'default_rule': 'false', 'shrinkage': 1.0, 'l2_regularization_weight': 0.0,
                               'head_type': 'complete', 'max_rules': 4, 'holdout': holdout_string(holdout),
                               'rule_induction': 'top-down-greedy{max_conditions=1}'}, nominal=[0])
        model, _, _ = choices.with_choices(prefix, lambda: l.fit(x, y).model_)
        targets_of = {float(v): i for i, v in enumerate(y[:, 0])}
        _PARTITIONS[key] = sorted({targets_of[r.head[0]] for r in h.rules_of(model) if r.head[0] in targets_of})
    return _PARTITIONS[key]


def holdout_string(holdout):
    return 'none' if holdout is None else f'random{{holdout_set_size={holdout}}}'


def fit(index, y, extra, prefix=()):
    kind, _, params, _ = LEARNERS[index]
    l = h.make(kind, **dict(dict(params, max_rules=RULES), **extra))
    model, taken, alternatives = choices.with_choices(prefix, lambda: l.fit(X4, y).model_)
    return model, taken, alternatives


def explore_partitions(index, y, holdout):
    """ All sequences of random choices for dividing the data. """
    seen = []
    stack = [[]]
    while stack:
        p = stack.pop()
        model, taken, alternatives = fit(index, y, {'holdout': holdout_string(holdout)}, p)
        seen.append((taken, model))
        for i in range(len(taken) - 1, len(p) - 1, -1):
            for v in range(alternatives[i]):
                if v != taken[i]:
                    stack.append(taken[:i] + [v])
    return seen


def run(job, ctx):
    PARTS[job['part']](job, ctx)


def run_pruning(job, ctx):
    index = job['learner']
    loss = LEARNERS[index][1]
    first = 0 if LEARNERS[index][2].get('default_rule') == 'false' else 1
    quick = job['tier'] == 'quick'
    for number, values in list(enumerate(targets(index)))[job['lo']:job['hi']]:
        y = matrix(index, values)
        for holdout in HOLDOUT:
            training_sets = set()
            for count, (taken, reference) in enumerate(explore_partitions(index, y, holdout)):
                ctx.case({'learner': index, 'y': y.tolist(), 'holdout': holdout, 'choices': taken, 'pruning': None})
                ctx.state()
                rules = h.rules_of(reference)
                training = list(range(4)) if holdout is None else training_set(holdout, taken)
                training_sets.add(tuple(training))
                if not ctx.check(len(training) == 4 - int((holdout or 0) * 4),
                                 f'the training set {training} does not have the expected size'):
                    continue
                scores = {'false': scores_of(loss, rules, y, training)}
                scores['true'] = scores['false'] if holdout is None else \
                    scores_of(loss, rules, y, [i for i in range(4) if i not in training])
                keys = [r.key() for r in rules]
                for j, c in enumerate(PRUNING):
                    if quick and (j + number + 7 * count) % 23:
                        continue
                    if holdout is None and c['use_holdout_set'] == 'true' and quick:
                        continue
                    for max_rules in (RULES, ) if quick else (4, RULES):
                        ctx.case({'learner': index, 'params': LEARNERS[index][2], 'x': X4.tolist(), 'y': y.tolist(),
                                  'holdout': holdout, 'holdout set': [i for i in range(4) if i not in training],
                                  'choices': taken, 'max_rules': max_rules, 'pruning': option_string(c)})
                        ctx.state()
                        model, _, _ = fit(index, y, {'holdout': holdout_string(holdout), 'max_rules': max_rules,
                                                     'global_pruning': option_string(c)}, taken)
                        sim = Simulation(c, scores[c['use_holdout_set']], max_rules, first)
                        expected = sim.run()
                        ctx.step(len(rules))
                        got_rules = h.rules_of(model)
                        got = (len(got_rules), model.get_num_used_rules())
                        ctx.outcome((option_string(c), got))
                        ctx.check(got in expected,
                                  lambda: f'the model consists of {got[0]} rules, {got[1]} of them are used. Expected: '
                                          f'{sorted(expected)}. Scores: {[s.value for s in scores[c["use_holdout_set"]]]}')
                        ctx.check([r.key() for r in got_rules] == keys[:len(got_rules)],
                                  lambda: f'the rules {got_rules} are not the first ones of the unpruned model {rules}')
                        ctx.check(model.get_num_rules() == len(got_rules), 'the number of rules is inconsistent')
                        if len(expected) > 1:
                            ctx.count('ambiguous')
            if holdout is not None:
                ctx.case({'learner': index, 'y': y.tolist(), 'holdout': holdout})
                n = 4 if holdout == 0.3 else 6
                ctx.check(len(training_sets) == n, f'only {len(training_sets)} of {n} holdout sets are possible')


def run_size(job, ctx):
    """ The maximum number of rules. """
    index = job['learner']
    kind, _, params, _ = LEARNERS[index]
    first = 0 if params.get('default_rule') == 'false' else 1
    for values in targets(index):
        y = matrix(index, values)
        full = None
        for n in range(12, 0, -1):
            ctx.case({'learner': index, 'params': params, 'y': y.tolist(), 'max_rules': n})
            ctx.state()
            model = h.make(kind, **dict(params, max_rules=n)).fit(X4, y).model_
            rules = h.rules_of(model)
            ctx.step(len(rules))
            if full is None:
                full = rules
            expected = min(len(full), n)
            ctx.check(len(rules) == expected and model.get_num_used_rules() == expected,
                      f'the model consists of {len(rules)} rules, {model.get_num_used_rules()} of which are used, instead of {expected}')
            ctx.check([r.key() for r in rules] == [r.key() for r in full][:expected],
                      lambda: f'the rules {rules} are not the first ones of a larger model {full}')
            ctx.check(not rules or rules[0].default == bool(first), 'the default rule is not used as expected')
            ctx.outcome((n, len(rules)))


def run_time(job, ctx):
    """ The time that may be used for training (the clock is replaced and advances whenever features are sampled). """
    index = job['learner']
    kind, _, params, _ = LEARNERS[index]
    first = 0 if params.get('default_rule') == 'false' else 1
    lib = choices.lib()
    lib.clock_begin.argtypes = [ctypes.c_uint64]
    some = [matrix(index, v) for v in targets(index)[5:13:4]]
    p = dict(params, feature_sampling='without-replacement{sample_size=0.5}')
    for y in some:
        full, taken, _ = choices.with_choices((), lambda: h.make(kind, **dict(p, max_rules=RULES)).fit(X4, y).model_)
        rules = h.rules_of(full)
        # The number of random choices per rule
        per_rule = [0]
        for n in range(1 + first, len(rules) + 1):
            _, t, _ = choices.with_choices((), lambda: h.make(kind, **dict(p, max_rules=n)).fit(X4, y).model_)
            per_rule.append(len(t))
        for limit, step in itertools.product((1, 2, 3), (0, 1, 100, 250, 333, 334, 499, 500, 501, 999, 1000, 1001, 1500, 2999, 3000)):
            ctx.case({'learner': index, 'y': y.tolist(), 'time_limit': limit, 'milliseconds per choice': step})
            ctx.state()
            lib.clock_begin(step * 1000000)
            try:
                model, t, _ = choices.with_choices((), lambda: h.make(kind, **dict(p, max_rules=RULES, time_limit=limit)).fit(X4, y).model_)
            finally:
                lib.clock_end()
            expected = next((k for k, n in enumerate(per_rule) if n * step >= 1000 * limit and k > 0), len(rules) - first)
            got = len(h.rules_of(model)) - first
            ctx.step(len(t))
            ctx.outcome((limit, step, got))
            ctx.check(got == expected, f'{got} instead of {expected} rules are learned within {limit} s')
            ctx.check([r.key() for r in h.rules_of(model)] == [r.key() for r in rules][:got + first], 'other rules are learned')


PARTS = {'pruning': run_pruning, 'size': run_size, 'time': run_time}
