"""
P16: the rules of a separate-and-conquer (SeCo) model are the result of a greedy search w.r.t. a heuristic.

Explores all small datasets for configurations that differ in the heuristic, the lift function, the types of heads and
features, and the restrictions of the search. The models the real learner comes up with are replayed by an independent
specification: it keeps track of the labels that are already covered, calculates confusion matrices, heuristics and lifts,
enumerates all conditions that separate the covered examples (lib/oracle.py), and decides whether each rule is one that is
found by always adding the condition with the best quality, until the quality does not improve any further. No rule must
follow once no label that deviates from the default prediction is left.
"""
import itertools
import math

import numpy as np

import choices
import harness as h
import oracle
from p10 import types_of

PROPERTY = 'P16'
INF = float('inf')
TOL = 1e-9


def config(heuristic, types='nom', head='single', lift=None, labels=2, csr=False, examples=None, **search):
    return {'heuristic': heuristic, 'types': types, 'head': head, 'lift': lift, 'labels': labels, 'csr': csr,
            'examples': examples, 'search': search}


CONFIGS = [
    config(('accuracy', )),
    config(('precision', ), 'num'),
    config(('recall', ), 'ord', max_head_refinements=0),
    config(('laplace', ), 'nom', csr=True),
    config(('weighted-relative-accuracy', ), 'num', min_coverage=2),
    config(('f-measure', 0.0), 'mix'),
    config(('f-measure', 0.25), 'ord'),
    config(('f-measure', 3.0), 'num', max_conditions=1),
    config(('f-measure', INF), 'nom', max_conditions=2),
    config(('m-estimate', 0.0), 'missing'),
    config(('m-estimate', 5.5), 'nom', max_head_refinements=2),
    config(('m-estimate', INF), 'missing-ord'),
    config(('accuracy', ), 'num', 'partial', ('none', )),
    config(('precision', ), 'nom', 'partial', ('kln', 0.2)),
    config(('laplace', ), 'ord', 'partial', ('kln', 0.9), labels=3),
    config(('f-measure', 0.25), 'num', 'partial', ('peak', 2, 1.08, 1.0), labels=3),
    config(('weighted-relative-accuracy', ), 'mix', 'partial', ('peak', 1, 1.5, 2.0), labels=3, csr=True),
    config(('m-estimate', 22.0), 'nom', 'partial', ('peak', 2, 2.0, 0.5), labels=3, max_head_refinements=0),
    config(('laplace', ), 'nom', 'partial', ('peak', 0, 1.3, 3.0), labels=3, max_head_refinements=2),
    config(('precision', ), 'nom', 'partial', ('peak', 2, 1.6, 1.7), labels=4, max_conditions=1),
    config(('accuracy', ), 'num', 'partial', ('peak', 1, 1.2, 2.0), labels=4, max_conditions=1),
]
WO = 'without-replacement'
SAMPLED = [
    config(('precision', ), 'nom', examples=(WO, 3, 0.6)) | {'n': 5},
    config(('f-measure', 0.5), 'num', 'partial', ('kln', 0.3), examples=(WO, 4, 0.8), max_conditions=2) | {'n': 5},
    config(('weighted-relative-accuracy', ), 'num', examples=('with-replacement', 3, 0.7)) | {'n': 4},
    config(('laplace', ), 'nom', 'partial', ('peak', 1, 1.4, 1.0), examples=('with-replacement', 3, 0.7)) | {'n': 4},
]
N, RULES = 4, 4
BOUNDS = {'configurations': len(CONFIGS), 'features': f'{N} examples x 2 features: all columns over 3 values for the '
          'first feature, 3 (quick) or 20 (thorough) columns for the second one',
          'labels': f'{N} examples x 2 to 4 labels: about 40 (quick) or up to 512 (thorough) label matrices', 'rules': RULES,
          'random samples': f'{len(SAMPLED)} configurations, 8 (thorough: 60) datasets with 4 or 5 examples, all '
          'outcomes of the first 4 (thorough: 6) random numbers'}


def prepare(tier):
    return choices.prepare()


# ---------------------------------------------------------------------------------------------------------------------
# Specification
# ---------------------------------------------------------------------------------------------------------------------

def ratio(a, b):
    return a / b if b else 0.0


def evaluate(heuristic, hit, miss, hit_out, miss_out):
    """
    hit, miss:         weight of the covered labels that are predicted correctly or incorrectly
    hit_out, miss_out: weight of the labels that are not covered and would have been predicted (in)correctly
    """
    name = heuristic[0]
    covered, total = hit + miss, hit + miss + hit_out + miss_out
    if name == 'accuracy':
        return ratio(hit + miss_out, total)
    if name == 'laplace':
        return (hit + 1) / (covered + 2)
    parameter = heuristic[1] if len(heuristic) > 1 else None
    if name == 'precision' or name in ('f-measure', 'm-estimate') and parameter == 0:
        return ratio(hit, covered)
    if name == 'recall' or name == 'f-measure' and parameter == INF:
        return ratio(hit, hit + hit_out)
    if name == 'weighted-relative-accuracy' or parameter == INF:
        return covered / total * (hit / covered - (hit + hit_out) / total) if covered > 0 else 0.0
    if name == 'f-measure':
        b = parameter * parameter
        return ratio((1 + b) * hit, (1 + b) * hit + b * hit_out + miss)
    return (hit + parameter * (hit + hit_out) / total) / (covered + parameter) if total > 0 else 0.0


def lift_of(lift, n, labels, cardinality):
    if lift is None or lift[0] == 'none':
        return 1.0
    if lift[0] == 'kln':
        return 1 + lift[1] * math.log(n)
    _, peak, maximum, curvature = lift
    peak = min(peak, labels) if peak else max(1, math.floor(cardinality + 0.5))
    if n == peak:
        return maximum
    x = (n - 1) / (peak - 1) if n < peak else (labels - n) / (labels - peak)
    return 1 + x**(1 / curvature) * (maximum - 1)


class State:
    """ The labels that are already covered by the rules of a (growing) model. """

    def __init__(self, c, y):
        self.c, self.y = c, y
        self.n, self.l = len(y), len(y[0])
        self.majority = [int(sum(r[o] for r in y) > self.n / 2) for o in range(self.l)]
        self.covered = set()
        self.cardinality = sum(map(sum, y)) / self.n

    def quality(self, mask, o, weights):
        counts = {(c, m): 0.0 for c in (0, 1) for m in (0, 1)}
        inside = set(mask)
        for i in range(self.n):
            if (i, o) not in self.covered:
                counts[int(i in inside), int(self.y[i][o] != self.majority[o])] += 1 if weights is None else weights[i]
        return evaluate(self.c['heuristic'], counts[1, 1], counts[1, 0], counts[0, 1], counts[0, 0])

    def lifted(self, qualities):
        n = len(qualities)
        return sum(qualities) / n * lift_of(self.c['lift'], n, self.l, self.cardinality)

    def heads(self, mask, outputs, fixed, weights=None):
        q = {o: self.quality(mask, o, weights) for o in outputs}
        if fixed:
            options = [tuple(outputs)]
        elif self.c['head'] == 'single':
            options = [(o, ) for o in outputs]
        else:
            options = []
            for n in range(1, len(outputs) + 1):
                for chosen in itertools.combinations(outputs, n):
                    if min(q[o] for o in chosen) >= max([q[o] for o in outputs if o not in chosen] + [-INF]) - TOL:
                        options.append(chosen)
        rated = []
        for chosen in options:
            values = [q[o] for o in chosen]
            # Lift functions do not affect the quality of rules that always predict for a single label
            quality = values[0] if self.c['head'] == 'single' else self.lifted(values)
            rated.append(({o: float(not self.majority[o]) for o in chosen}, -quality))
        best = min(r[1] for r in rated)
        return [r for r in rated if r[1] <= best + TOL]

    def apply(self, rule, mask):
        for i in mask:
            for o, v in rule.head.items():
                if bool(v) != bool(self.majority[o]):
                    self.covered.add((i, o))

    def exhausted(self):
        deviating = sum(int(self.y[i][o] != self.majority[o]) for i in range(self.n) for o in range(self.l))
        return deviating - len(self.covered) <= 0


# ---------------------------------------------------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------------------------------------------------

def parameters(c):
    def value(name, **options):
        return name + '{' + ','.join(f'{k}={v}' for k, v in options.items()) + '}' if options else name

    def heuristic(name, *parameter):
        option = {'f-measure': 'beta', 'm-estimate': 'm'}.get(name)
        return value(name, **({option: parameter[0]} if parameter else {}))

    p = {'max_rules': RULES, 'rule_pruning': 'none', 'instance_sampling': 'none', 'heuristic': heuristic(*c['heuristic']),
         'head_type': c['head'] if c['head'] == 'partial' else 'single',
         'rule_induction': value('top-down-greedy', **c['search'])}
    if c['head'] == 'partial':
        kind, *args = c['lift']
        names = {'none': (), 'kln': ('k', ), 'peak': ('peak_label', 'max_lift', 'curvature')}[kind]
        p['lift_function'] = value(kind, **dict(zip(names, args)))
    if c['examples']:
        p['instance_sampling'] = value(c['examples'][0], sample_size=c['examples'][2])
    return p


def fit(c, x, y, types):
    learner = h.learner('seco', parameters(c), ordinal=[i for i, t in enumerate(types) if t == 'ordinal'],
                        nominal=[i for i, t in enumerate(types) if t == 'nominal'])
    y = np.array(y, dtype=np.uint8)
    learner.fit(np.array(x, dtype=h.F32), h.sp.csr_array(y) if c['csr'] else y)
    rules = h.rules_of(learner.model_)
    default = [r for r in rules if r.default]
    return default, [r for r in rules if not r.default]


def weights_of(c):
    if not c['examples']:
        return [None]
    method, k, _ = c['examples']
    n = c['n']
    if method == WO:
        return [[1 if i in s else 0 for i in range(n)] for s in itertools.combinations(range(n), k)]
    return sorted({tuple(s.count(i) for i in range(n)) for s in itertools.product(range(n), repeat=k)})


def validate(ctx, c, x, y, types, default, rules, memo=None):
    state = State(c, y)
    everything = range(len(x))
    s = c['search']
    findings = set()
    expected = {o: float(m) for o, m in enumerate(state.majority)}
    # The default rule is the only rule with an empty body
    if not ctx.check(len(default) == 1 and default[0].head == expected,
                     f'the default rules {default} should predict {expected}'):
        return
    for k in range(RULES):
        rule = rules[k] if k < len(rules) else None
        # The default rule counts as a rule
        if k + 1 >= RULES or state.exhausted():
            ctx.check(rule is None, f'rule {rule} (at position {k} of {rules}) has been learned after the stopping '
                      'criterion has been met')
            ctx.count('exhausted' if state.exhausted() else 'limit')
            break
        key = tuple(r.key() for r in rules[:k + 1]) + (k < len(rules), )
        if memo is None or key not in memo:
            ok, reason = False, None
            for w in weights_of(c):
                search = oracle.Search(state, x, types, s.get('min_coverage', 1), s.get('max_conditions', 0),
                                       s.get('max_head_refinements', 1), 1.0, weights=w)
                ok = search.accepts(rule) if rule else search.accepts_none()
                ctx.step(search.steps)
                reason = search.reason
                if ok:
                    findings.update(search.findings)
                    break
            if memo is not None:
                memo[key] = ok, reason
        else:
            ok, reason = memo[key]
        if not ok:
            ctx.violation(f'{f"rule {rule}" if rule else "no rule"} (at position {k} of {rules}) is not the result of a '
                          f'greedy search: {reason}')
            return
        if rule is None:
            ctx.count('no rule')
            break
        state.apply(rule, [i for i in everything if h.covers(rule, x[i])])
    for finding in sorted(findings):
        ctx.violation(f'one of the rules {rules} is not the result of a greedy search', finding)
    ctx.count('finding' if findings else 'ok')


COLUMNS = [(0, 0, 1, 2), (0, 1, 0, 1), (2, 0, 1, 1), (0, 0, 0, 0), (1, 1, 0, 2), (1, 0, 0, 0), (2, 1, 0, 0), (0, 2, 2, 0),
           (1, 2, 0, 1), (0, 0, 0, 2), (2, 2, 1, 0), (0, 1, 1, 1), (1, 0, 2, 0), (0, 2, 1, 2), (2, 0, 0, 2), (1, 1, 2, 2),
           (0, 1, 2, 0), (2, 2, 0, 1), (1, 2, 1, 0), (2, 1, 2, 1)]


def jobs(tier):
    out = []
    for c in range(len(CONFIGS)):
        for i in range(3 if tier == 'quick' else len(COLUMNS)):
            out.append({'config': c, 'second': i, 'tier': tier})
    for c in range(len(SAMPLED)):
        for d in range(8 if tier == 'quick' else 60):
            out.append({'sampled': c, 'dataset': d, 'depth': 4 if tier == 'quick' else 6})
    return out


def label_matrices(l, tier):
    total = 2**(N * l)
    step = max(1, total // (40 if tier == 'quick' else 512))
    if step > 1:
        step |= 1
    for index in range(0, total, step):
        yield [[(index >> (i * l + o)) & 1 for o in range(l)] for i in range(N)]


def sampled(job, ctx):
    c = SAMPLED[job['sampled']]
    n, d = c['n'], job['dataset']
    types, alphabets = types_of(c['types'])
    seed = 7 * d + 3
    x = [[alphabets[f][(seed * (f + 2) * (i + 1) + (seed >> f) + i * i * (f + 1) + i // 2) % 3] for f in range(2)]
         for i in range(n)]
    y = [[(seed * (i + 3) // (j + 2) + i * j + (i >> 1)) % 2 for j in range(2)] for i in range(n)]
    memo = {}
    for taken, (default, rules) in choices.explore(lambda: fit(c, x, y, types), job['depth']):
        ctx.case({'config': c, 'x': x, 'y': y, 'choices': taken})
        ctx.state()
        ctx.outcome([r.key() for r in rules])
        if not taken and not State(c, y).exhausted():
            raise RuntimeError('the random number generator is not under control')
        validate(ctx, c, x, y, types, default, rules, memo)


def run(job, ctx):
    if 'sampled' in job:
        sampled(job, ctx)
        return
    c = CONFIGS[job['config']]
    types, (first, second) = types_of(c['types'])
    col = COLUMNS[job['second']]
    for values in itertools.product(first, repeat=N):
        x = [[a, second[b]] for a, b in zip(values, col)]
        for y in label_matrices(c['labels'], job['tier']):
            ctx.case({'config': c, 'x': x, 'y': y})
            default, rules = fit(c, x, y, types)
            ctx.state()
            ctx.outcome([r.key() for r in rules])
            validate(ctx, c, x, y, types, default, rules)
