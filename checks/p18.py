"""
P18: pruning rules and relearning them afterwards does what is documented.

Explores small datasets, all samples of examples and configurations of both learners that prune rules by following the ideas
of IREP. An independent specification searches for all rules that may be the result of a greedy search (lib/oracle.py),
evaluates all of their prefixes on the examples that are not part of the sample and decides whether a rule that has been
learned is the shortest one among the best. The following rules must take into account exactly the examples that are covered
by the pruned rule. Sequential post-optimization is replayed in the same way: starting from the model that results from a
smaller number of iterations, each rule must be one that is found by a greedy search in the context of all other rules.
"""
import itertools

import numpy as np

import choices
import harness as h
import oracle
import p10
import p16

PROPERTY = 'P18'
WO, WR = 'without-replacement', 'with-replacement'
RULES = 3


def boosting(*args, sample=None, n=5, heuristic=None, **kwargs):
    del heuristic
    c = p10.config(*args, **kwargs)
    c.update({'n': n, 'family': 'boosting', 'pruning': True})
    if sample:
        c['examples'] = sample
    return c


def seco(heuristic, pruning, types='nom', head='single', lift=None, labels=2, sample=None, n=5, **search):
    c = p16.config(heuristic, types, head, lift, labels, examples=sample, **search)
    c.update({'n': n, 'family': 'seco', 'kind': 'seco', 'pruning': pruning})
    return c


PRUNED = [
    boosting('squared-error', head='single', types='nom', sample=(WO, 3, 0.6)),
    boosting('logistic', head='complete', types='nom', sample=(WO, 4, 0.66), n=6),
    boosting('squared-error', head='complete', types='nom', sample=(WR, 3, 0.7), n=4),
    boosting('squared-hinge', head='single', types='bin', sample=(WO, 4, 0.66), n=6, max_head_refinements=0),
    boosting('regression', kind='regr', head='complete', types='nom', sample=(WO, 3, 0.6)),
    boosting('logistic', joint=True, head='complete', types='nom', sample=(WO, 3, 0.6)),
    boosting('squared-error', head='complete', types='nom', sample=(WO, 4, 0.66), n=6, max_conditions=2),
    boosting('squared-error', head='single', types='bin', sample=(WO, 3, 0.6), recalculate_predictions='false'),
    seco(('precision', ), ('accuracy', ), sample=(WO, 3, 0.6)),
    seco(('f-measure', 0.25), ('precision', ), 'bin', sample=(WO, 4, 0.66), n=6),
    seco(('accuracy', ), ('f-measure', 0.5), 'nom', 'partial', ('kln', 0.3), sample=(WO, 3, 0.6)),
    seco(('laplace', ), ('laplace', ), 'nom', 'partial', ('peak', 2, 1.4, 1.0), labels=3, sample=(WO, 3, 0.6)),
    seco(('weighted-relative-accuracy', ), ('recall', ), 'bin', sample=(WR, 3, 0.7), n=4),
    seco(('precision', ), ('m-estimate', 5.5), 'nom', sample=(WO, 4, 0.66), n=6, max_conditions=3),
]
LONG = [
    boosting('squared-error', head='single', sample=(WO, 5, 0.5), n=9),
    boosting('logistic', head='complete', sample=(WO, 5, 0.5), n=9, recalculate_predictions='false'),
    seco(('precision', ), ('accuracy', ), sample=(WO, 5, 0.5), n=9),
    seco(('laplace', ), ('f-measure', 0.5), head='partial', lift=('kln', 0.3), sample=(WO, 5, 0.5), n=9),
]
LONGER = [
    boosting('squared-error', head='single', sample=(WO, 6, 0.54), n=11),
    boosting('logistic', head='complete', sample=(WO, 6, 0.54), n=11),
    seco(('precision', ), ('accuracy', ), sample=(WO, 6, 0.54), n=11),
    seco(('laplace', ), ('f-measure', 0.5), head='partial', lift=('kln', 0.3), sample=(WO, 6, 0.54), n=11),
]
# Configurations that relearn rules. The number of iterations, whether heads are refined and features are resampled
RELEARNED = [
    boosting('squared-error', head='single', types='nom', n=4),
    boosting('logistic', head='complete', types='nom', n=4),
    boosting('squared-hinge', head='complete', types='ord', n=4, max_conditions=1),
    boosting('logistic', head='single', types='num', n=4, max_conditions=1),
    boosting('squared-error', head='fixed2', types='nom', n=4),
    boosting('regression', kind='regr', head='complete', types='nom', n=4),
    boosting('logistic', joint=True, head='complete', types='nom', n=4),
    seco(('precision', ), None, 'nom', n=4),
    seco(('f-measure', 0.25), None, 'nom', n=4),
    seco(('accuracy', ), None, 'nom', 'partial', ('kln', 0.3), n=4),
    seco(('laplace', ), None, 'ord', 'partial', ('peak', 2, 1.4, 1.0), labels=3, n=4),
]
RELEARNED += [
    boosting('squared-error', head='single', n=9),
    boosting('logistic', head='complete', n=9),
    seco(('precision', ), None, n=9),
    seco(('laplace', ), None, head='partial', lift=('kln', 0.3), n=9),
    boosting('squared-error', head='single', n=11),
    boosting('logistic', head='complete', n=11),
    seco(('precision', ), None, n=11),
    seco(('laplace', ), None, head='partial', lift=('kln', 0.3), n=11),
]
# Rules with a single condition cannot be pruned
RESAMPLED = [dict(PRUNED[i], search=dict(PRUNED[i]['search'], max_conditions=1)) for i in (0, 1, 4, 8, 10)]
VARIANTS = [(1, 'false', 'true'), (2, 'false', 'true'), (1, 'true', 'true'), (3, 'true', 'false'), (1, 'false', 'false')]
BOUNDS = {'pruning': f'{len(PRUNED)} configurations, 10 (thorough: 30) datasets with 4 to 6 examples and 3 features each, all '
          f'outcomes of the first 4 (thorough: 6) random numbers; {len(LONG)} configurations that result in up to 3 conditions, '
          '24 (thorough: 80) datasets with 9 examples each, all outcomes of the first 3 (thorough: 4) random numbers; '
          f'{len(LONGER)} configurations that result in up to 4 conditions, 12 (thorough: 80) datasets with 11 examples and 4 '
          'features each, all outcomes of the first 2 (thorough: 3) random numbers, as well as all datasets with 5 examples that '
          'are not part of the sample and satisfy all conditions but one, where examples that do not satisfy the same condition '
          'have the same label (896), given the actual sample',
          'rules': RULES,
          'post-optimization': f'{len(RELEARNED)} configurations x {len(VARIANTS)} variants with up to 3 iterations, 60 '
          '(thorough: 600) datasets with 4, 9 or 11 examples and 3 or 4 features each',
          'resampling': f'{len(RESAMPLED)} configurations x 3 variants, 4 (thorough: 16) datasets, all outcomes of the first 3 '
          '(thorough: 4) random numbers during post-optimization'}
ASSUMPTIONS = ['Numerical features have two values if rules are pruned, such that thresholds are unambiguous for examples that '
               'are not part of a sample.']


def prepare(tier):
    return choices.prepare()


def jobs(tier):
    out = []
    for c in range(len(PRUNED)):
        total = 10 if tier == 'quick' else 30
        for lo, hi in h.chunks(total, 2 if tier == 'quick' else 4):
            out.append({'part': 'prune', 'config': c, 'lo': lo, 'hi': hi, 'depth': 4 if tier == 'quick' else 6})
    for c in range(len(PRUNED), len(PRUNED) + len(LONG)):
        for lo, hi in h.chunks(24 if tier == 'quick' else 80, 2):
            out.append({'part': 'prune', 'config': c, 'lo': lo, 'hi': hi, 'depth': 3 if tier == 'quick' else 4})
    for c in range(len(PRUNED) + len(LONG), len(PRUNED) + len(LONG) + len(LONGER)):
        for lo, hi in h.chunks(12 if tier == 'quick' else 80, 2):
            out.append({'part': 'prune', 'config': c, 'lo': lo, 'hi': hi, 'depth': 2 if tier == 'quick' else 3})
        for lo, hi in h.chunks(16 * len(OUTSIDE), 64):
            out.append({'part': 'prune', 'config': c, 'lo': SYSTEMATIC + lo, 'hi': SYSTEMATIC + hi, 'depth': 0})
    for c in range(len(RELEARNED)):
        for v in range(len(VARIANTS)):
            for lo, hi in h.chunks(60 if tier == 'quick' else 600, 60):
                out.append({'part': 'relearn', 'config': c, 'variant': v, 'lo': lo, 'hi': hi})
    for c in range(len(RESAMPLED)):
        for v in (0, 2, 4):
            for lo, hi in h.chunks(4 if tier == 'quick' else 16, 2):
                out.append({'part': 'resample', 'config': c, 'variant': v, 'lo': lo, 'hi': hi, 'base': 1,
                            'depth': 3 if tier == 'quick' else 4})
    return out


def run(job, ctx):
    if job['part'] == 'prune':
        prune(job, ctx)
    elif job['part'] == 'resample':
        resample(job, ctx)
    else:
        relearn(job, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# Data and learners
# ---------------------------------------------------------------------------------------------------------------------

def types_of(c):
    if c['types'] == 'bin':
        return ('nominal', 'numerical', 'numerical'), ((0, 1, 2), (-1, -2), (1, -1))
    types, alphabets = p10.types_of(c['types'])
    return types + types[:1], alphabets + alphabets[:1]


def dataset(c, d):
    if c['n'] > 6:
        return conjunctions(c, d)
    types, alphabets = types_of(c)
    rng = 2654435761 * (d + 1) % 2**32 + 17

    def draw(k):
        nonlocal rng
        rng = (rng * 6364136223846793005 + 1442695040888963407) % 2**64
        return (rng >> 33) % k

    n, l = c['n'], c.get('labels', 2)
    x = [[alphabets[f][draw(len(alphabets[f]))] for f in range(3)] for _ in range(n)]
    y = [[draw(2) for _ in range(l)] for _ in range(n)]
    return types, x, y


def ladder(width):
    return [(1, ) * width] * 2 + [tuple(int(i != j) for i in range(width)) for j in range(width)]


# Indices of datasets that are constructed systematically
SYSTEMATIC = 1 << 20
OUTSIDE = list(itertools.combinations_with_replacement(range(4), 5))


def conjunctions(c, d):
    """ Labels are conjunctions of three or four binary features, except for some of the examples. """
    width = 4 if c['n'] > 9 else 3
    types, n, l = ('nominal', 'numerical', 'nominal', 'numerical')[:width], c['n'], c.get('labels', 2)
    relevant = 3 if d % 4 == 3 else width
    steps = ladder(width)
    rng = 2654435761 * (d + 1) % 2**32 + 23

    def draw(k):
        nonlocal rng
        rng = (rng * 6364136223846793005 + 1442695040888963407) % 2**64
        return (rng >> 33) % k

    rows = [(bits, int(all(bits[:relevant]))) for bits in steps]
    if d >= SYSTEMATIC:
        kinds, rest = OUTSIDE[(d - SYSTEMATIC) // 16], (d - SYSTEMATIC) % 16
        rows = [(bits, int(all(bits))) for bits in steps] + [(steps[2 + k], rest >> k & 1) for k in kinds]
    else:
        rows += [(steps[draw(len(steps))], draw(2)) for _ in range(n - len(rows))]
    if d >= SYSTEMATIC:
        sample, others = iter(rows), iter(rows[len(steps):])
        rows = [next(sample if w else others) for w in sample_of(c)]
    elif not d % 2:
        rows = rows[::-1]
    x = [[(2 - b if t == 'nominal' else 1 - 2 * b) for b, t in zip(bits, types)] for bits, _ in rows]
    y = [[label if o == 0 else 1 - label if d >= SYSTEMATIC else int(bits[0] ^ (draw(4) == 0)) for o in range(l)] for bits, label in rows]
    return types, x, y


def parameters(c):
    if c['family'] == 'seco':
        p = p16.parameters(c)
        p['max_rules'] = RULES + 1
        if c['pruning']:
            name, *parameter = c['pruning']
            option = {'f-measure': 'beta', 'm-estimate': 'm'}.get(name)
            p['pruning_heuristic'] = name + (f'{{{option}={parameter[0]}}}' if parameter else '')
            p['rule_pruning'] = 'irep'
    else:
        p = p10.parameters(c, RULES)
        if c['pruning'] and c.get('examples'):
            p['rule_pruning'] = 'irep'
    return p


def targets(c, y):
    y = np.array(y, dtype=np.uint8)
    if c['kind'] == 'regr':
        y = y.astype(h.F32) * 2.5 - np.array([0, 1], dtype=h.F32)
    return y


def fit(c, x, y, types, params):
    learner = h.learner(c['kind'], params, ordinal=[i for i, t in enumerate(types) if t == 'ordinal'],
                        nominal=[i for i, t in enumerate(types) if t == 'nominal'])
    learner.fit(np.array(x, dtype=h.F32), y)
    rules = h.rules_of(learner.model_)
    return [r for r in rules if r.default], [r for r in rules if not r.default]


def initial(ctx, c, y, default):
    """ The state before any rules have been learned, or None, if the default rule is not as expected. """
    if c['family'] == 'seco':
        state = p16.State(c, y.tolist())
        expected = {o: float(m) for o, m in enumerate(state.majority)}
        ok = len(default) == 1 and default[0].head == expected
        state.unstable = False
        return state if ctx.check(ok, f'the default rules {default} should predict {expected}') else None
    state = oracle.State(c, y.tolist())
    if default:
        heads = state.heads(list(range(state.n)), list(range(state.l)), True)
        if heads is None:
            return None
        if not ctx.check(oracle.same_head(default[0].head, heads[0][0], 1.0),
                         f'the default rule predicts {default[0].head} instead of {heads[0][0]}'):
            return None
        state.apply(default[0], list(range(state.n)))
    return state


def apply(state, x, rule):
    state.apply(rule, [i for i in range(len(x)) if h.covers(rule, x[i])])


# ---------------------------------------------------------------------------------------------------------------------
# Pruning
# ---------------------------------------------------------------------------------------------------------------------

class Pruned(oracle.Search):
    """ Decides whether a rule may be the result of a greedy search, followed by pruning. """

    def __init__(self, c, state, x, types, weights):
        s = c['search']
        super().__init__(state, x, types, s.get('min_coverage', 1), s.get('max_conditions', 0),
                         s.get('max_head_refinements', 1), c.get('shrinkage', 1.0), weights=weights)
        self.c = c
        self.out = [1 if w == 0 else 0 for w in weights]
        self.recalculate = s.get('recalculate_predictions', 'true') == 'true'

    # The examples that remain if the last condition that has been learned is neglected are collected, if requested
    collected = None
    # How many conditions that cover all examples of the sample may be pruned
    redundant = 0

    def accepts(self, rule):
        ok = self._grow(rule, list(rule.conditions), [], self._examples(), self.outputs, False, None, 0.0, None)
        return ok if self.collected is None else bool(self.collected)

    def _grow(self, rule, remaining, path, covered, outputs, fixed, head, quality, prefix):
        """ prefix: the number of conditions of the rule, once all of them are part of the path """
        if prefix is None and not remaining:
            prefix = len(path)
        full = self.max_conditions and len(path) >= self.max_conditions
        small = bool(path) and len(covered) <= self.min_coverage
        if full or small:
            return prefix is not None and self._ends(rule, path, prefix, head)
        used = list(path)
        evaluated = self.evaluate(covered, outputs, fixed, used)
        if prefix is not None and path and self._tolerate(self.blockers(evaluated, quality)):
            if self._ends(rule, path, prefix, head):
                return True
        if len(path) > 8:
            return False
        for c, heads in evaluated:
            matching = [None] if prefix is not None else [i for i, r in enumerate(remaining) if c.matches(r)]
            for i in matching:
                for candidate, q in heads:
                    if not q < quality + oracle.TOL * max(1.0, abs(quality)):
                        continue
                    if len(c.mask) == len(covered) and c.optional not in oracle.COVERS_ALL:
                        continue
                    redundant = int(i is None and c.optional in oracle.COVERS_ALL)
                    if redundant > self.redundant or not self._tolerate(self.blockers(evaluated, q), c.feature):
                        continue
                    condition = (c.kind, c.feature, c.lower) if i is None else remaining[i]
                    rest = remaining if i is None else remaining[:i] + remaining[i + 1:]
                    k = len(path) + 1
                    fix = fixed or bool(self.max_head_refinements and k >= self.max_head_refinements)
                    outs = sorted(candidate) if fix and not fixed else outputs
                    self.redundant -= redundant
                    grown = self._grow(rule, rest, path + [condition], c.mask, outs, fix, candidate, q, prefix)
                    self.redundant += redundant
                    if grown:
                        return True
        return False

    def _ends(self, rule, path, prefix, head):
        if not self._pruned(rule, path, prefix, head):
            return False
        if self.collected is None:
            return True
        neglected = path[:-1] if 0 in self.weights and len(path) > 1 else path
        self.collected.add(tuple(i for i in range(self.state.n) if oracle.satisfies(self.x[i], neglected)))
        return False

    def _outside(self, conditions):
        """ The examples that are covered, but are not part of the sample """
        return [i for i in range(self.state.n) if self.out[i] and oracle.satisfies(self.x[i], conditions)]

    def _pruned(self, rule, path, prefix, head):
        outputs = sorted(head)
        if 0 in self.weights and len(path) > 1:
            qualities, masks = [], []
            for k in range(1, len(path) + 1):
                mask = self._outside(path[:k])
                masks.append(mask)
                qualities.append(self._quality(mask, outputs))
            self.steps += len(path)
            best = qualities[prefix - 1]
            if any(q < best - oracle.TOL * max(1.0, abs(best)) for q in qualities):
                self.reason = f'the prefixes of {path} have the qualities {qualities} on {masks}'
                return False
            for k in range(prefix - 1):
                if masks[k] == masks[prefix - 1]:
                    self.reason = f'a shorter prefix of {path} has the same quality ({qualities})'
                    return False
        elif prefix < len(path):
            return False
        if self.c['family'] == 'seco':
            return rule.head == head or self._reject(rule, head)
        if 0 in self.weights and self.recalculate:
            covered = [i for i in range(self.state.n) if oracle.satisfies(self.x[i], path[:prefix])]
            heads = self.state.heads(covered, outputs, True)
            if heads is None:
                raise oracle.Unstable()
            head = heads[0][0]
        return oracle.same_head(rule.head, head, self.shrinkage) or self._reject(rule, head)

    def _reject(self, rule, head):
        self.reason = f'the head {rule.head} should be {head} times {self.shrinkage}'
        return False

    def _quality(self, mask, outputs):
        if self.c['family'] == 'seco':
            original = self.state.c
            self.state.c = dict(original, heuristic=original['pruning'])
            heads = self.state.heads(mask, outputs, True, self.out)
            self.state.c = original
        else:
            heads = self.state.heads(mask, outputs, True, self.out)
        if heads is None:
            raise oracle.Unstable()
        return heads[0][1]


SAMPLES = {}


def sample_of(c):
    """ The weights of the examples in the sample that is used by the first rule, if no outcomes of random numbers are varied """
    n = c['n']
    if n not in SAMPLES:
        params = {'max_rules': 1, 'default_rule': 'false', 'loss': 'squared-error-decomposable', 'head_type': 'complete',
                  'label_binning': 'none', 'statistic_format': 'dense',
                  'instance_sampling': parameters(c)['instance_sampling']}
        weights = []
        for i in range(n):
            # There is a condition that separates the examples in the sample only if it contains the i-th example
            column = [[int(i == j)] for j in range(n)]
            for _, (_, rules) in choices.explore(
                    lambda: fit(dict(c, kind='boomer'), column, np.array(column, dtype=np.uint8), ('numerical', ), params), 0):
                weights.append(int(any(r.conditions for r in rules)))
        SAMPLES[n] = weights
    return SAMPLES[n]


def prune(job, ctx):
    c = (PRUNED + LONG + LONGER)[job['config']]
    params = parameters(c)
    weights = p10.weights_of(c) if c['family'] == 'boosting' else p16.weights_of(c)
    for d in range(job['lo'], job['hi']):
        types, x, y = dataset(c, d)
        y = targets(c, y)
        memo = {}
        limited = d >= SYSTEMATIC
        if limited:
            # Only the first rule is considered, because the sample it has been learned from is known
            weights = [sample_of(c)]
        for taken, (default, rules) in choices.explore(lambda: fit(c, x, y, types, params), job['depth']):
            ctx.case({'config': c, 'x': x, 'y': y.tolist(), 'choices': taken})
            ctx.state()
            ctx.outcome([r.key() for r in rules])
            state = initial(ctx, c, y, default)
            if state is None:
                continue
            limit = RULES - (1 if default and c['family'] == 'boosting' else 0)
            if limited:
                rules, limit = rules[:1], 1
            result = replay(ctx, c, state, x, types, weights, rules, limit, memo)
            if result and result != 'unstable':
                alternative = misapplied(ctx, c, y, x, types, weights, default, rules, limit)
                if alternative == 'unstable':
                    result = alternative
                else:
                    ctx.violation(f'{result} ({rules})', alternative)
                    result = alternative
            ctx.count(result or 'ok')


def replay(ctx, c, state, x, types, weights, rules, limit, memo):
    """ Returns None, if each rule is the result of a greedy search, followed by pruning, given the previous ones. """
    for k in range(limit + 1):
        rule = rules[k] if k < len(rules) else None
        if k >= limit or c['family'] == 'seco' and state.exhausted():
            return f'{rule} has been learned after the stopping criterion has been met' if rule else None
        key = tuple(r.key() for r in rules[:k + 1]) + (rule is None, )
        if key not in memo:
            memo[key] = decide(ctx, c, state, x, types, weights, rule)
        reason = memo[key]
        if reason == 'unstable':
            return reason
        if reason:
            return f'{rule} (at position {k}) is not the result of pruning a rule that has been found by a greedy search: {reason}'
        if rule is None:
            return None
        apply(state, x, rule)
    return None


FINDING = 'irep-subspace'


def misapplied(ctx, c, y, x, types, weights, default, rules, limit, redundant=0):
    """ Whether the rules are explained by predictions being applied to examples that satisfy all conditions but the last. """
    histories = [()]
    for k in range(limit + 1):
        rule = rules[k] if k < len(rules) else None
        following = set()
        for history in histories:
            state = initial(ctx, c, y, default)
            for other, mask in zip(rules, history):
                state.apply(other, list(mask))
            if k >= limit or c['family'] == 'seco' and state.exhausted():
                if rule is None:
                    return FINDING
                continue
            for w in weights:
                search = Pruned(c, state, x, types, w)
                search.collected, search.redundant = set(), redundant
                try:
                    if rule is None and search.accepts_none():
                        return FINDING
                    if rule is not None:
                        search.accepts(rule)
                        following.update(history + (mask, ) for mask in search.collected)
                except oracle.Unstable:
                    return 'unstable'
                finally:
                    ctx.step(search.steps)
        histories = sorted(following)
    return None if redundant else misapplied(ctx, c, y, x, types, weights, default, rules, limit, 1)


def decide(ctx, c, state, x, types, weights, rule):
    reason, unstable = None, False
    for w in weights:
        search = Pruned(c, state, x, types, w)
        try:
            ok = search.accepts(rule) if rule is not None else search.accepts_none()
        except oracle.Unstable:
            unstable = True
            continue
        finally:
            ctx.step(search.steps)
        if ok:
            return None
        reason = search.reason or reason
    return 'unstable' if unstable else reason or 'no sample explains it'


# ---------------------------------------------------------------------------------------------------------------------
# Post-optimization
# ---------------------------------------------------------------------------------------------------------------------

class Restriction:
    """ Restricts a search to some of the features and, optionally, to heads that predict for all given outputs. """

    features = None
    complete = False

    def evaluate(self, covered, outputs, fixed, used):
        return [(c, heads) for c, heads in super().evaluate(covered, outputs, fixed or self.complete, used)
                if self.features is None or c.feature in self.features]


class Restricted(Restriction, oracle.Search):
    """ A restricted search. """


class RestrictedPruned(Restriction, Pruned):
    """ A restricted search, followed by pruning. """


def resample(job, ctx):
    """ Rules are relearned on new samples and are pruned. """
    c = RESAMPLED[job['config']]
    iterations, refine, resample_features = VARIANTS[job['variant']]
    weights = p10.weights_of(c) if c['family'] == 'boosting' else p16.weights_of(c)
    base_params = dict(parameters(c), max_rules=3)
    params = dict(base_params, sequential_post_optimization='true{num_iterations=1,refine_heads=%s,resample_features=%s}' %
                  (refine, resample_features))
    for d in range(job['lo'], job['hi']):
        types, x, y = dataset(c, d + 2000)
        y = targets(c, y)
        for base, before in choices.explore(lambda: fit(c, x, y, types, base_params), job['base']):
            for taken, after in choices.explore(lambda: fit(c, x, y, types, params), len(base) + job['depth'], prefix=base,
                                                start=len(base)):
                ctx.case({'config': c, 'x': x, 'y': y.tolist(), 'choices': taken, 'base': len(base), 'refine_heads': refine,
                          'resample_features': resample_features})
                ctx.state()
                ctx.outcome([r.key() for r in after[1]])
                ctx.count(compare(ctx, c, x, y, types, before, after, refine == 'true', resample_features == 'true', weights))


def relearn(job, ctx):
    c = RELEARNED[job['config']]
    iterations, refine, resample = VARIANTS[job['variant']]
    for d in range(job['lo'], job['hi']):
        types, x, y = dataset(c, d + 1000)
        y = targets(c, y)
        before = fit(c, x, y, types, parameters(c))
        for i in range(1, iterations + 1):
            ctx.case({'config': c, 'x': x, 'y': y.tolist(), 'iteration': i, 'refine_heads': refine,
                      'resample_features': resample})
            params = dict(parameters(c), sequential_post_optimization='true{num_iterations=%d,refine_heads=%s,'
                          'resample_features=%s}' % (i, refine, resample))
            after = fit(c, x, y, types, params)
            ctx.state()
            ctx.outcome([r.key() for r in after[1]])
            ctx.check([r.key() for r in after[0]] == [r.key() for r in before[0]], 'the default rule is modified')
            result = compare(ctx, c, x, y, types, before, after, refine == 'true', resample == 'true')
            ctx.count(result)
            if result != 'ok':
                break
            before = after


def compare(ctx, c, x, y, types, before, after, refine, resample, weights=None):
    default, old = before
    new = after[1]
    if not ctx.check(len(old) == len(new), f'there are {len(new)} instead of {len(old)} rules'):
        return 'violation'
    s = c['search']
    findings = set()
    # The existing rules that have been kept, because no new rules could be learned, and are neglected from there on
    neglected = {()}
    misled = False
    for i, rule in enumerate(new):
        following, reason = set(), None
        for lost in sorted(neglected):
            # The context of the rule
            state = initial(ctx, c, y, default)
            if state is None:
                return 'unstable'
            for j, other in enumerate(new[:i] + old[i:]):
                if j != i and j not in lost:
                    apply(state, x, other)
            try:
                accepted, none, why = relearned(ctx, c, state, x, types, weights, rule, old[i], refine, resample, findings)
            except oracle.Unstable:
                return 'unstable'
            if accepted or none:
                following.add(lost)
            if none:
                following.add(lost + (i, ))
            reason = reason or why
        if not following:
            ctx.violation(f'{rule} replaces {old[i]} in {new[:i]} + {old[i + 1:]}, but is not the result of a greedy search: '
                          f'{reason}')
            return 'violation'
        if () not in following and not misled:
            misled = True
            ctx.violation(f'{rule} replaces {old[i]} in {new[:i]} + {old[i + 1:]}, which neglects a rule that has been kept',
                          'reverted-prediction')
        neglected = following
    if neglected != {()}:
        return 'kept'
    return 'finding' if findings else 'ok'


def relearned(ctx, c, state, x, types, weights, rule, old, refine, resample, findings):
    """ Whether a rule may be learned in a certain context and whether it may be possible that no rule is learned. """
    s = c['search']
    accepted, none, unstable, reason = False, False, False, None
    for w in weights or [None]:
        if w is None:
            search = Restricted(state, x, types, s.get('min_coverage', 1), s.get('max_conditions', 0),
                                s.get('max_head_refinements', 1), c.get('shrinkage', 1.0))
        else:
            search = RestrictedPruned(c, state, x, types, w)
        if not refine:
            search.outputs, search.complete = sorted(old.head), True
        if not resample:
            search.features = {f for _, f, _ in old.conditions}
        try:
            if not accepted and search.accepts(rule):
                accepted = True
                findings.update(search.findings)
            elif not accepted:
                reason = search.reason or reason
            none = none or rule.key() == old.key() and search.accepts_none()
        except oracle.Unstable:
            unstable = True
        finally:
            ctx.step(search.steps)
        if accepted and rule.key() != old.key():
            break
    if unstable:
        raise oracle.Unstable()
    return accepted, none, reason
