"""
P10: each rule is the result of a greedy search for the best conditions.

Explores all small datasets (feature matrices x label matrices over small alphabets) for configurations that differ in
the types of features, loss functions, heads, regularization, and the restrictions of the search. The models the real
learner comes up with are replayed by an independent specification (lib/oracle.py): at each step, it enumerates all
conditions that separate the covered examples, and decides whether the rule is one that is found by always adding the
condition with the best quality, until the quality does not improve any further.
"""
import itertools

import numpy as np

import choices
import harness as h
import oracle

PROPERTY = 'P10'
NAN = float('nan')


def config(loss='logistic', joint=False, head='complete', l1=0.0, l2=1.0, shrinkage=0.3, types='n', kind='boomer',
           **search):
    return {'loss': loss, 'joint': joint, 'head': head, 'l1': l1, 'l2': l2, 'shrinkage': shrinkage, 'types': types,
            'kind': kind, 'search': search}


CONFIGS = [
    config(head='single', types='num'),
    config(head='complete', types='num'),
    config(head='single', types='nom'),
    config(head='complete', types='nom'),
    config(head='single', types='ord'),
    config(head='complete', types='ord', max_conditions=1),
    config('squared-error', head='single', types='mix', max_head_refinements=0),
    config('squared-error', head='complete', types='mix', min_coverage=2),
    config('squared-hinge', head='single', types='nom', min_coverage=2, max_conditions=2),
    config('squared-hinge', head='complete', types='num', max_conditions=2, l2=0.5),
    config(head='fixed2', types='ord', max_head_refinements=2),
    config('squared-error', head='dynamic:0.5:2.0', types='num', max_head_refinements=0, l1=0.25),
    config('logistic', joint=True, head='complete', types='nom'),
    config('squared-error', joint=True, head='complete', types='num', max_conditions=2),
    config('logistic', joint=True, head='complete', types='ord', min_coverage=2, l1=0.1),
    config('regression', kind='regr', head='single', types='mix'),
    config('regression', kind='regr', head='complete', types='num', l2=0.0),
    config('squared-error', head='complete', types='missing'),
    config('logistic', head='single', types='missing-nom', max_conditions=2),
    config('logistic', head='complete', types='missing-ord', min_coverage=2),
    config('squared-error', head='complete', types='missing', min_coverage=2),
    config('squared-error', head='single', types='pos'),
]
# alphabets of feature values; the known findings of P03 exclude mixed signs of numerical values
ALPHABETS = {'num': [(-1, -2, -3)], 'nom': [(0, 1, 2)], 'ord': [(-1, 0, 2)], 'missing': [(NAN, -1, -2)],
             'missing-nom': [(NAN, 0, 1)], 'missing-ord': [(NAN, -1, 1)], 'pos': [(1, 2, 3)]}
N = 4
Y2 = [np.array(v, dtype=np.uint8).reshape(N, 2) for v in itertools.product((0, 1), repeat=2 * N)]
BOUNDS = {'configurations': len(CONFIGS), 'features': f'{N} examples x 2 features: all columns over 3 values for the '
          'first feature, 6 (quick) or 40 (thorough) columns for the second one',
          'labels': f'{N} examples x 2 labels: 37 (quick) or all 256 (thorough) label matrices', 'rules': 3}


# Configurations that involve random samples (features, examples, outputs), the outcomes of which are enumerated
WO = 'without-replacement'
SAMPLED = [
    config(head='complete', types='num') | {'features': (1, 0, 0.3), 'n': 6},
    config('squared-error', head='single', types='nom') | {'features': (1, 0, 0.3), 'n': 6},
    config('squared-error', head='complete', types='ord', max_conditions=3) | {'features': (1, 0, 0.3), 'n': 6},
    config('logistic', joint=True, head='complete', types='num', min_coverage=2) | {'features': (2, 0, 0.6), 'n': 6},
    config('logistic', head='complete', types='missing', min_coverage=2) | {'features': (1, 1, 0.4), 'n': 6},
    config('squared-error', head='complete', types='num') | {'examples': (WO, 3, 0.6), 'n': 5},
    config('squared-error', head='single', types='nom') | {'examples': (WO, 3, 0.6), 'n': 5},
    config('logistic', joint=True, head='complete', types='nom') | {'examples': (WO, 4, 0.8), 'n': 5},
    config('squared-hinge', head='complete', types='num', min_coverage=2) | {'examples': ('with-replacement', 3, 0.7), 'n': 4},
    config('regression', kind='regr', head='complete', types='num') | {'examples': (WO, 3, 0.6), 'n': 5},
    config('squared-error', head='complete', types='num') | {'outputs': 1, 'n': 5},
    config('logistic', head='complete', types='nom') | {'outputs': 1, 'features': (1, 0, 0.3), 'examples': (WO, 4, 0.75), 'n': 5},
]
BOUNDS['random samples'] = f'{len(SAMPLED)} configurations, 10 (thorough: 60) datasets with 4 to 6 examples and 3 ' \
    'features each, all outcomes of the first 6 (thorough: 8) random numbers'


def prepare(tier):
    return choices.prepare()


def second_columns(tier):
    cols = [(0, 0, 0, 0), (0, 1, 0, 1), (1, 1, 0, 2), (0, 0, 1, 2), (2, 0, 1, 1), (1, 0, 0, 0)]
    if tier == 'thorough':
        rest = [c for c in itertools.product(range(3), repeat=N) if c not in cols]
        cols += rest[::2]
    return cols


def jobs(tier):
    out = []
    for c in range(len(CONFIGS)):
        cols = second_columns(tier)
        for i in range(len(cols)):
            out.append({'config': c, 'second': i, 'tier': tier})
    out.append({'ordinal_zero_weight': True})
    for c in range(len(SAMPLED)):
        for d in range(10 if tier == 'quick' else 60):
            out.append({'sampled': c, 'dataset': d, 'depth': 6 if tier == 'quick' else 8})
    return out


HEADS = {'complete': 'complete', 'single': 'single', 'fixed2': 'partial-fixed{output_ratio=0.5,min_outputs=2}',
         'dynamic:0.5:2.0': 'partial-dynamic{threshold=0.5,exponent=2.0}'}


def parameters(c, max_rules):
    p = {'max_rules': max_rules, 'head_type': HEADS[c['head']], 'l1_regularization_weight': c['l1'],
         'l2_regularization_weight': c['l2'], 'shrinkage': c['shrinkage'], 'statistic_format': 'dense'}
    if c['kind'] == 'regr':
        p['loss'] = 'squared-error-' + ('non-decomposable' if c['joint'] else 'decomposable')
        del p['statistic_format']
    else:
        p['loss'] = c['loss'] + ('-non-decomposable' if c['joint'] else '-decomposable')
        p['label_binning'] = 'none'
    s = c['search']
    if s:
        p['rule_induction'] = 'top-down-greedy{' + ','.join(f'{k}={v}' for k, v in s.items()) + '}'
    if 'features' in c:
        _, retained, size = c['features']
        p['feature_sampling'] = f'without-replacement{{sample_size={size},num_retained={retained}}}'
    if 'examples' in c:
        method, _, size = c['examples']
        p['instance_sampling'] = f'{method}{{sample_size={size}}}'
    if 'outputs' in c:
        p['output_sampling'] = f'without-replacement{{sample_size=0.4,min_samples=1,max_samples={c["outputs"]}}}'
    return p


def types_of(name):
    """ The types of the two features and the alphabets of their values. """
    if name == 'mix':
        return ('nominal', 'ordinal'), (ALPHABETS['nom'][0], ALPHABETS['ord'][0])
    base = {'num': 'numerical', 'pos': 'numerical', 'nom': 'nominal', 'ord': 'ordinal', 'missing': 'numerical', 'missing-nom': 'nominal',
            'missing-ord': 'ordinal'}[name]
    second = ALPHABETS[name.split('-')[1] if '-' in name else ('num' if name == 'missing' else name)][0]
    return (base, base), (ALPHABETS[name][0], second)


def fit(c, x, y, types, max_rules=3):
    params = parameters(c, max_rules)
    if c['kind'] == 'regr' and c['head'] != 'complete':
        # See the known findings of P04
        params['output_format'] = 'sparse'
    learner = h.learner(c['kind'], params,
                        ordinal=[i for i, t in enumerate(types) if t == 'ordinal'],
                        nominal=[i for i, t in enumerate(types) if t == 'nominal'])
    learner.fit(np.array(x, dtype=h.F32), h.sp.csr_array(y) if 'output_format' in params else y)
    return h.rules_of(learner.model_)


def validate(ctx, c, x, y, types, rules, max_rules=3):
    """ Validates all rules of a model one after another. """
    truth = y.tolist()
    state = oracle.State(c, truth)
    everything = list(range(len(x)))
    s = c['search']
    position = 0
    findings = set()
    if rules and rules[0].default:
        position = 1
        heads = state.heads(everything, list(range(state.l)), True)
        if heads is None:
            return 'unstable'
        if not oracle.same_head(rules[0].head, heads[0][0], 1.0):
            ctx.violation(f'the default rule predicts {rules[0].head} instead of {heads[0][0]}')
            return 'violation'
        state.apply(rules[0], everything)
    for k in range(position, max_rules + 1):
        search = oracle.Search(state, x, types, s.get('min_coverage', 1), s.get('max_conditions', 0),
                               s.get('max_head_refinements', 1), c['shrinkage'])
        try:
            if k == len(rules):
                if k < max_rules:
                    if not search.accepts_none():
                        ctx.violation(f'no rule has been learned after {rules}, but {search.reason}')
                        return 'violation'
                    findings.update(search.findings)
                break
            ok = search.accepts(rules[k])
        except oracle.Unstable:
            return 'unstable'
        finally:
            ctx.step(search.steps)
        if not ok:
            ctx.violation(f'rule {rules[k]} (at position {k} of {rules}) is not the result of a greedy search: '
                          f'{search.reason}')
            return 'violation'
        findings.update(search.findings)
        state.apply(rules[k], [i for i in everything if h.covers(rules[k], x[i])])
    for finding in sorted(findings):
        ctx.violation(f'one of the rules {rules} is not the result of a greedy search', finding)
    return 'finding' if findings else 'ok'


def dataset(c, d):
    """ Returns the d-th one of a sequence of datasets with three features. """
    n = c['n']
    types, alphabets = types_of(c['types'])
    types, alphabets = types + types[:1], alphabets + alphabets[:1]
    x, y = [], []
    seed = 7 * d + 3
    for i in range(n):
        x.append([alphabets[f][(seed * (f + 2) * (i + 1) + (seed >> f) + i * i * (f + 1) + i // 2) % 3] for f in range(3)])
        y.append([(seed * (i + 3) // (j + 2) + i * j + (i >> 1)) % 2 for j in range(2)])
    y = np.array(y, dtype=np.uint8)
    if c['kind'] == 'regr':
        y = y.astype(h.F32) * 2.5 - np.array([0, 1], dtype=h.F32)
    return types, x, y


def weights_of(c):
    n = c['n']
    if 'examples' not in c:
        return [None]
    method, k, _ = c['examples']
    if method == WO:
        return [[1 if i in s else 0 for i in range(n)] for s in itertools.combinations(range(n), k)]
    return sorted({tuple(s.count(i) for i in range(n)) for s in itertools.product(range(n), repeat=k)})


class Sampled:
    """ Decides whether models may be learned, given any outcome of the random samples. """

    def __init__(self, c, x, y, types, max_rules):
        self.c, self.x, self.y, self.types, self.max_rules = c, x, y, types, max_rules
        self.memo = {}
        self.weights = weights_of(c)
        self.outputs = [None] if 'outputs' not in c else list(itertools.combinations(range(len(y[0])), c['outputs']))

    def search(self, state, w, o):
        c, s = self.c, self.c['search']
        return oracle.Search(state, self.x, self.types, s.get('min_coverage', 1), s.get('max_conditions', 0),
                             s.get('max_head_refinements', 1), c['shrinkage'],
                             num_features=c['features'][0] if 'features' in c else None,
                             retained=c['features'][1] if 'features' in c else 0, weights=w, outputs=o)

    def validate(self, ctx, rules):
        state = oracle.State(self.c, self.y.tolist())
        everything = list(range(len(self.x)))
        key = ()
        k = 0
        while k <= self.max_rules:
            rule = rules[k] if k < len(rules) else None
            if rule is None and k >= self.max_rules:
                break
            key += (rule.key() if rule else None, )
            if key not in self.memo:
                self.memo[key] = self.accepts(ctx, state, rule, k)
            reason = self.memo[key]
            if reason == 'unstable':
                return reason
            if reason:
                ctx.violation(f'{"rule " + repr(rule) if rule else "no further rule"} (at position {k} of {rules}) is not the result of a greedy search, '
                              f'no matter how features, examples and outputs are sampled: {reason}')
                return 'violation'
            if rule is None:
                break
            state.apply(rule, [i for i in everything if h.covers(rule, self.x[i])])
            k += 1
        return 'ok'

    def accepts(self, ctx, state, rule, k):
        reason = 'unstable'
        if rule is not None and rule.default:
            heads = state.heads(list(range(len(self.x))), list(range(state.l)), True)
            if heads is None:
                return 'unstable'
            return None if oracle.same_head(rule.head, heads[0][0], 1.0) else f'the default rule should predict {heads[0][0]}'
        unstable, findings = False, None
        for o in self.outputs:
            for w in self.weights:
                search = self.search(state, w, o)
                try:
                    if search.accepts(rule) if rule is not None else search.accepts_none():
                        if not search.findings:
                            return None
                        findings = findings or search.findings
                except oracle.Unstable:
                    unstable = True
                ctx.step(search.steps)
                reason = search.reason
        if findings:
            for finding in findings:
                ctx.violation(f'{rule} is not the result of a greedy search', finding)
            return None
        return 'unstable' if unstable else reason or 'not possible'


def sampled(job, ctx):
    c = SAMPLED[job['sampled']]
    types, x, y = dataset(c, job['dataset'])
    max_rules = 3
    params = parameters(c, max_rules)
    spec = Sampled(c, x, y, types, max_rules)
    x_ = np.array(x, dtype=h.F32)
    first = {}

    def learn():
        learner = h.learner(c['kind'], params, ordinal=[i for i, t in enumerate(types) if t == 'ordinal'],
                            nominal=[i for i, t in enumerate(types) if t == 'nominal'])
        learner.fit(x_, y)
        return h.rules_of(learner.model_)

    for taken, rules in choices.explore(learn, job['depth']):
        ctx.case({'config': c, 'x': x, 'y': y, 'choices': taken})
        if not taken:
            raise RuntimeError('the random number generator is not under control')
        ctx.state()
        ctx.outcome([r.key() for r in rules])
        result = spec.validate(ctx, rules)
        ctx.count('sampled ' + result)
        if result == 'ok':
            k = 1 if rules and rules[0].default else 0
            rule = rules[k] if len(rules) > k else None
            first[rule.key() if rule else None] = (rules[:k], rule)
    # Each sample must be taken into account, given some outcome of the random number generator
    for w in spec.weights:
        if w is None or not first:
            continue
        found = False
        try:
            for before, rule in first.values():
                state = oracle.State(c, y.tolist())
                for r in before:
                    state.apply(r, list(range(len(x))))
                search = spec.search(state, w, None)
                if search.accepts(rule) if rule else search.accepts_none():
                    found = True
                    break
        except oracle.Unstable:
            found = True
        ctx.check(found or 'outputs' in c, f'none of the rules {first} results from the sample {w}')


def ordinal_zero_weight(ctx):
    """ If examples are sampled, ordinal features are not searched correctly. See the known findings. """
    c = config('squared-error', types='ord') | {'examples': (WO, 4, 0.8), 'n': 5}
    x = [[-1, 2, -1], [2, 0, 2], [0, 2, 2], [0, -1, 0], [0, -1, 0]]
    y = np.array([[1, 1], [0, 1], [1, 1], [0, 0], [1, 1]], dtype=np.uint8)
    types = ('ordinal', ) * 3
    params = parameters(c, 2)
    ctx.case({'config': c, 'x': x, 'y': y})
    rules, _, _ = choices.with_choices([4, 3, 2, 1], lambda: h.rules_of(
        h.learner('boomer', params, ordinal=[0, 1, 2]).fit(np.array(x, dtype=h.F32), y).model_))
    ctx.state()
    state = oracle.State(c, y.tolist())
    state.apply(rules[0], range(5))
    search = oracle.Search(state, x, types, shrinkage=c['shrinkage'], weights=[0, 1, 1, 1, 1])
    if not search.accepts(rules[1]):
        ctx.violation(f'{rules[1]} is not the result of a greedy search: {search.reason}', 'ordinal-zero-weight')


def run(job, ctx):
    if 'ordinal_zero_weight' in job:
        ordinal_zero_weight(ctx)
        return
    if 'sampled' in job:
        sampled(job, ctx)
        return
    c = CONFIGS[job['config']]
    types, (first, second) = types_of(c['types'])
    col = second_columns(job['tier'])[job['second']]
    labels = Y2 if job['tier'] == 'thorough' else Y2[::7]
    for values in itertools.product(first, repeat=N):
        x = [[a, second[b]] for a, b in zip(values, col)]
        for y in labels:
            if c['kind'] == 'regr':
                y = y.astype(h.F32) * 2.5 - np.array([0, 1], dtype=h.F32)
            ctx.case({'config': c, 'x': x, 'y': y})
            rules = fit(c, x, y, types)
            ctx.state()
            result = validate(ctx, c, x, y, types, rules)
            ctx.count(result)
            ctx.outcome([r.key() for r in rules])
