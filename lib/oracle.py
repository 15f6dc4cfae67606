"""
An independent specification of what gradient boosted rule learners are supposed to learn.

Given the training data and the rules that are already part of a model, the functions below enumerate all conditions that
may be added to a rule, calculate the optimal head and its quality for the examples that are covered, and decide whether
a given rule may be the result of a greedy top-down search. The specification tolerates ties: whenever several choices are
equally good (up to rounding errors) each one of them is accepted.
"""
import itertools
import math

TOL = 1e-8
INF = float('inf')
COVERS_ALL = ('covers-all', )  # See the known findings of P10


def isnan(v):
    return v != v


# ---------------------------------------------------------------------------------------------------------------------
# Candidate conditions
# ---------------------------------------------------------------------------------------------------------------------

class Candidate:
    """ A condition `kind[feature] <op> threshold` and the indices of the examples it covers. """

    __slots__ = ('kind', 'feature', 'lower', 'upper', 'mask', 'optional')

    def __init__(self, kind, feature, lower, upper, mask, optional=None):
        self.kind, self.feature, self.lower, self.upper = kind, feature, lower, upper
        self.mask, self.optional = mask, optional

    def matches(self, condition):
        kind, feature, threshold = condition
        if kind != self.kind or feature != self.feature:
            return False
        if kind.startswith('numerical'):
            # The examples must be separated, wherever the threshold is located in between
            return self.lower <= threshold < self.upper
        if self.optional in COVERS_ALL:
            return self.lower <= threshold <= self.upper
        if kind.startswith('ordinal'):
            return self.lower <= threshold < self.upper
        return threshold == self.lower

    def __repr__(self):
        return f'{self.kind}[{self.feature}] {self.lower}'


class BinnedCandidate(Candidate):
    """ A condition, the threshold of which must be one of those between the bins. """

    __slots__ = ()

    def matches(self, condition):
        kind, feature, threshold = condition
        eps = 1e-5 * max(1.0, abs(self.lower), abs(self.upper))
        return kind == self.kind and feature == self.feature and self.lower - eps <= threshold <= self.upper + eps


class Binned:
    """ The type of a numerical feature, the values of which are assigned to bins, separated by given thresholds. """

    def __init__(self, thresholds):
        self.thresholds = thresholds

    def bin_of(self, value):
        return sum(1 for t in self.thresholds if t < value)


def binned_candidates(binned, f, values):
    """ Conditions that use one of the thresholds between the bins the covered examples belong to. """
    bins = {}
    for v, examples in values.items():
        bins.setdefault(binned.bin_of(v), []).extend(examples)
    ordered = sorted(bins)
    for k, (a, b) in enumerate(zip(ordered, ordered[1:])):
        lower, upper = binned.thresholds[a], binned.thresholds[b - 1]
        below = sorted(i for e in ordered[:k + 1] for i in bins[e])
        above = sorted(i for e in ordered[k + 1:] for i in bins[e])
        yield BinnedCandidate('numerical_leq', f, lower, upper, below)
        yield BinnedCandidate('numerical_gr', f, lower, upper, above)


def candidates(x, covered, types, min_coverage, used=(), features=None, weights=None):
    """
    All conditions that separate the covered examples.

    types: 'numerical', 'ordinal' or 'nominal' per feature
    used:  the conditions that are already part of the rule
    """
    result = []
    num_features = len(x[0])
    for f in range(num_features) if features is None else features:
        values = {}
        for i in covered:
            v = x[i][f]
            if not isnan(v):
                values.setdefault(v, []).append(i)
        ordered = sorted(values)
        total = sorted(i for v in ordered for i in values[v])
        kind = types[f]
        everything = {r[f] for r in x if not isnan(r[f])}
        binary = len(everything) == 2
        if isinstance(kind, Binned):
            result.extend(binned_candidates(kind, f, values))
            continue
        if not ordered or kind == 'numerical' and len(ordered) < 2:
            continue
        # Ordinal features with two values are treated as binary ones
        if kind == 'ordinal' and binary:
            kind = 'nominal'
        if kind == 'nominal':
            for v in everything - set(ordered):
                # See the known findings of P10
                result.append(Candidate('nominal_neq', f, v, v, total, 'covers-all'))
            if len(ordered) < 2:
                result.append(Candidate('nominal_eq', f, ordered[0], ordered[0], total, 'covers-all'))
                continue
            for v in ordered:
                result.append(Candidate('nominal_eq', f, v, v, values[v]))
                rest = [i for i in total if x[i][f] != v]
                result.append(Candidate('nominal_neq', f, v, v, rest))
        else:
            below = []
            again = kind == 'numerical' and any(k.startswith('numerical') and g == f for k, g, _ in used)
            smallest = next((v for v in ordered if v >= 0), None)
            for a, b in zip(ordered, ordered[1:]):
                below = below + values[a]
                above = [i for i in total if x[i][f] > a]
                # See the known findings of P03
                optional = None
                if again:
                    optional = 'numerical-filtered-equal'
                elif kind == 'numerical' and smallest is not None and smallest in (a, b):
                    optional = 'numerical-smallest-non-sparse'
                elif kind == 'numerical' and weights is not None and any(
                        r[f] in (a, b) and w == 0 for r, w in zip(x, weights)):
                    optional = 'numerical-zero-weight'
                result.append(Candidate(kind + '_leq', f, a, b, sorted(below), optional))
                result.append(Candidate(kind + '_gr', f, a, b, above, optional))
            if kind == 'ordinal':
                # See the known findings of P10
                result.append(Candidate('ordinal_leq', f, ordered[-1], INF, total, 'covers-all'))
                result.append(Candidate('ordinal_gr', f, -INF, ordered[0] - 1, total, 'covers-all'))
    return [c for c in result if len(c.mask) >= min_coverage]


# ---------------------------------------------------------------------------------------------------------------------
# Loss functions
# ---------------------------------------------------------------------------------------------------------------------

def sigmoid(s):
    return 1 / (1 + math.exp(-s)) if s >= 0 else math.exp(s) / (1 + math.exp(s))


def div(a, b):
    try:
        r = a / b
    except ZeroDivisionError:
        return 0.0
    return r if math.isfinite(r) else 0.0


def decomposable(loss, y, s):
    """ The gradient and Hessian for a single output. """
    if loss == 'logistic':
        p = sigmoid(s)
        return p - (1 if y else 0), p * (1 - p)
    if loss == 'squared-error':
        return s - (1 if y else -1), 1.0
    if loss == 'regression':
        return s - y, 1.0
    if loss == 'squared-hinge':
        if y:
            return (s - 1 if s < 1 else 0.0), 1.0
        return (s if s > 0 else 0.0), 1.0
    raise ValueError(loss)


def non_decomposable(loss, y, s):
    """ The gradients and the Hessian matrix for all outputs of an example. """
    n = len(y)
    if loss == 'logistic':
        sign = [-1 if v else 1 for v in y]
        m = max([0.0] + [a * b for a, b in zip(sign, s)])
        e = [math.exp(a * b - m) for a, b in zip(sign, s)]
        z = math.exp(-m) + sum(e)
        p = [v / z for v in e]
        g = [a * b for a, b in zip(sign, p)]
        h = [[p[i] * (1 - p[i]) if i == j else -sign[i] * sign[j] * p[i] * p[j] for j in range(n)] for i in range(n)]
        return g, h
    if loss in ('squared-error', 'regression'):
        t = [(1 if v else -1) for v in y] if loss == 'squared-error' else y
        d = [a - b for a, b in zip(s, t)]
        act = [True] * n
    else:  # squared hinge
        d, act = [], []
        for v, a in zip(y, s):
            active = a < 1 if v else a > 0
            act.append(active)
            d.append((a - 1 if v else a) if active else 0.0)
    sq = sum(v * v for v in d)
    r1, r3 = math.sqrt(sq), sq**1.5
    g = [div(v, r1) if a else 0.0 for v, a in zip(d, act)]
    h = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                h[i][i] = div(sq - d[i] * d[i], r3) if act[i] else 1.0
            else:
                h[i][j] = div(-d[i] * d[j], r3) if act[i] and act[j] else 0.0
    return g, h


def near_kink(loss, y, s):
    """ Whether a non-decomposable loss function is (almost) not differentiable, such that rounding errors matter. """
    if loss == 'squared-hinge':
        d = [(a - 1 if v else a) for v, a in zip(y, s)]
        return any(0 < abs(v) < 1e-6 for v in d) or 0 < sum(
            v * v for v, a in zip(d, y) if (v < 0 if a else v > 0)) < 1e-10
    t = [(1 if v else -1) for v in y] if loss == 'squared-error' else y
    return 0 < sum((a - b)**2 for a, b in zip(s, t)) < 1e-10


# ---------------------------------------------------------------------------------------------------------------------
# Heads
# ---------------------------------------------------------------------------------------------------------------------

def soft(g, l1):
    return g - l1 if g > l1 else (g + l1 if g < -l1 else 0.0)


def score_of(g, h, l1, l2):
    return div(-soft(g, l1), h + l2)


def quality_of(s, g, h, l1, l2):
    return g * s + 0.5 * h * s * s + l1 * abs(s) + 0.5 * l2 * s * s


def solve(a, b):
    """ Solves a linear system, or returns None if it is (nearly) singular. """
    n = len(b)
    m = [list(r) + [v] for r, v in zip(a, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-6:
            return None
        m[c], m[p] = m[p], m[c]
        for r in range(n):
            if r != c:
                f = m[r][c] / m[c][c]
                for k in range(c, n + 1):
                    m[r][k] -= f * m[c][k]
    return [m[i][n] / m[i][i] for i in range(n)]


def options(config, g, h, outputs, fixed):
    """
    All heads (a dictionary and its quality) that may be the optimal one, given sums of gradients and Hessians.

    fixed: True, if the head must predict for exactly the given outputs
    """
    l1, l2, head = config['l1'], config['l2'], config['head']
    diag = {o: (h[o][o] if config['joint'] else h[o]) for o in outputs}
    scores = {o: score_of(g[o], diag[o], l1, l2) for o in outputs}
    if fixed or head == 'complete':
        chosen = [tuple(outputs)]
    else:
        mags = {o: abs(scores[o]) for o in outputs}
        if head == 'single':
            k = 1
        elif head.startswith('fixed'):
            k = int(head[5:])
        else:
            k = 0
        if k:
            k = min(k, len(outputs))
            ranked = sorted(mags.values(), reverse=True)
            bound = ranked[k - 1]
            sure = [o for o in outputs if mags[o] > bound + TOL]
            maybe = [o for o in outputs if abs(mags[o] - bound) <= TOL]
            chosen = [tuple(sorted(sure + list(c))) for c in itertools.combinations(maybe, k - len(sure))]
        else:
            _, threshold, exponent = head.split(':')
            lo, hi = min(mags.values()), max(mags.values())
            t = (1 - float(threshold))
            bound = (hi - lo)**float(exponent) * t
            sure, maybe = [], []
            for o in outputs:
                v = (mags[o] - lo)**float(exponent)
                if abs(v - bound) <= 1e-7:
                    maybe.append(o)
                elif v > bound:
                    sure.append(o)
            chosen = [tuple(sorted(sure + list(c))) for r in range(len(maybe) + 1)
                      for c in itertools.combinations(maybe, r) if sure or c]
    result = []
    for outs in chosen:
        if config['joint']:
            s = solve([[h[i][j] + (l2 if i == j else 0) for j in outs] for i in outs], [-soft(g[i], l1) for i in outs])
            if s is None:
                return None
            q = sum(g[o] * v for o, v in zip(outs, s)) + 0.5 * sum(
                s[a] * s[b] * h[outs[a]][outs[b]] for a in range(len(outs)) for b in range(len(outs)))
            q += l1 * sum(abs(v) for v in s) + 0.5 * l2 * sum(v * v for v in s)
            result.append((dict(zip(outs, s)), q))
        else:
            result.append(({o: scores[o] for o in outs},
                           sum(quality_of(scores[o], g[o], diag[o], l1, l2) for o in outs)))
    return result


# ---------------------------------------------------------------------------------------------------------------------
# Models
# ---------------------------------------------------------------------------------------------------------------------

class State:
    """ The scores that are predicted by a (growing) model for the training examples. """

    def __init__(self, config, y):
        self.config, self.y = config, y
        self.n, self.l = len(y), len(y[0])
        self.scores = [[0.0] * self.l for _ in range(self.n)]
        self.unstable = False  # Whether the loss function is not differentiable at the current scores
        self.refresh()

    def refresh(self):
        c = self.config
        if c['joint'] and c['loss'] != 'logistic':
            self.unstable = any(near_kink(c['loss'], y, s) for y, s in zip(self.y, self.scores))
        if c['joint']:
            self.stats = [non_decomposable(c['loss'], y, s) for y, s in zip(self.y, self.scores)]
        else:
            self.stats = []
            for y, s in zip(self.y, self.scores):
                pairs = [decomposable(c['loss'], a, b) for a, b in zip(y, s)]
                self.stats.append(([p[0] for p in pairs], [p[1] for p in pairs]))

    def sums(self, mask, weights=None):
        l = self.l
        g = [0.0] * l
        h = [[0.0] * l for _ in range(l)] if self.config['joint'] else [0.0] * l
        for i in mask:
            w = 1 if weights is None else weights[i]
            gi, hi = self.stats[i]
            for a in range(l):
                g[a] += w * gi[a]
                if self.config['joint']:
                    for b in range(l):
                        h[a][b] += w * hi[a][b]
                else:
                    h[a] += w * hi[a]
        return g, h

    def heads(self, mask, outputs, fixed, weights=None):
        if self.unstable:
            return None
        g, h = self.sums(mask, weights)
        return options(self.config, g, h, outputs, fixed)

    def apply(self, rule, mask):
        for i in mask:
            for o, v in rule.head.items():
                self.scores[i][o] += v
        self.refresh()


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_head(rule_head, head, factor):
    return rule_head.keys() == head.keys() and all(close(rule_head[o], factor * head[o]) for o in head)


class Unstable(Exception):
    """ Thrown if the specification is not defined (singular systems of equations). """


class Search:
    """ Decides whether a rule may be the result of a greedy search. """

    def __init__(self, state, x, types, min_coverage=1, max_conditions=0, max_head_refinements=1, shrinkage=1.0,
                 num_features=None, weights=None, outputs=None, retained=0):
        self.state, self.x, self.types = state, x, types
        # The number of features that are sampled whenever the rule is refined and how many trailing ones are retained
        self.num_features = num_features
        self.retained = retained
        # The weights of the training examples, if a sample is used
        self.weights = weights
        self.outputs = list(range(state.l)) if outputs is None else list(outputs)
        self.min_coverage, self.max_conditions = min_coverage, max_conditions
        self.max_head_refinements, self.shrinkage = max_head_refinements, shrinkage
        self.steps = 0
        self.reason = ''
        self.findings = set()  # The known findings that explain the rule

    def evaluate(self, covered, outputs, fixed, used):
        result = []
        for c in candidates(self.x, covered, self.types, self.min_coverage, used, None, self.weights):
            heads = self.state.heads(c.mask, outputs, fixed, self.weights)
            self.steps += 1
            if heads is None:
                raise Unstable()
            result.append((c, heads))
        return result

    def blockers(self, evaluated, quality):
        """ The candidates that must have been preferred to a given quality (even in case of ties). """
        return [(c, heads) for c, heads in evaluated
                if max(q for _, q in heads) < quality - TOL * max(1.0, abs(quality))]

    def accepts(self, rule):
        """ Whether a rule that is part of a model is one that is found by a greedy search. """
        return self._extend(rule, list(rule.conditions), [], self._examples(), self.outputs, False, None, 0.0)

    def _examples(self):
        return [i for i in range(self.state.n) if self.weights is None or self.weights[i] > 0]

    def accepts_none(self):
        """ Whether no rule at all may be found. """
        ev = self.evaluate(self._examples(), self.outputs, False, [])
        better = self.blockers(ev, 0.0)
        return self._tolerate(better)

    def _tolerate(self, better, feature=None):
        if not better:
            return True
        rest = [(c, heads) for c, heads in better if not c.optional]
        if rest and self.num_features is not None:
            # Features for which a better condition exists must not have been available
            blocked = {c.feature for c, _ in rest}
            total = len(self.x[0])
            if feature not in blocked and total - len(blocked) >= self.num_features + self.retained and not any(
                    f >= total - self.retained for f in blocked):
                return True
        if not rest:
            self.findings.update(c.optional for c, _ in better if c.optional not in COVERS_ALL)
            return True
        self.reason = f'{rest[0][0]} with quality {rest[0][1][0][1]} would have been better'
        return False

    def _extend(self, rule, remaining, used, covered, outputs, fixed, head, quality):
        done = not remaining
        full = self.max_conditions and len(used) >= self.max_conditions
        small = bool(used) and len(covered) <= self.min_coverage
        if full or small:
            if done:
                return self._head(rule, head, used)
            self.reason = 'the rule has more conditions than allowed'
            return False
        evaluated = self.evaluate(covered, outputs, fixed, used)
        if done:
            if not self._head(rule, head, used):
                return False
            return self._tolerate(self.blockers(evaluated, quality))
        for i, condition in enumerate(remaining):
            if condition in remaining[:i]:
                continue
            matching = [(c, heads) for c, heads in evaluated if c.matches(condition)]
            if not matching:
                self.reason = self.reason or f'the condition {condition} does not separate the covered examples'
                continue
            for c, heads in matching:
                for h, q in heads:
                    if not q < quality + TOL * max(1.0, abs(quality)):
                        self.reason = f'{c} with quality {q} does not improve the quality {quality}'
                        continue
                    if not self._tolerate(self.blockers(evaluated, q), c.feature):
                        continue
                    if c.optional in COVERS_ALL:
                        self.findings.add(c.optional)
                    k = len(used) + 1
                    fix = fixed or bool(self.max_head_refinements and k >= self.max_head_refinements)
                    outs = sorted(h) if fix and not fixed else outputs
                    if self._extend(rule, remaining[:i] + remaining[i + 1:], used + [condition], c.mask, outs, fix, h,
                                    q):
                        return True
        return False

    def _head(self, rule, head, used):
        if head is not None and self.weights is not None and 0 in self.weights:
            # Heads are recalculated based on all training examples
            covered = [i for i in range(self.state.n) if satisfies(self.x[i], used)]
            heads = self.state.heads(covered, sorted(head), True)
            if heads is None:
                raise Unstable()
            head = heads[0][0]
        if head is None or not same_head(rule.head, head, self.shrinkage):
            self.reason = f'the head {rule.head} should be {head} times {self.shrinkage}'
            return False
        return True


def satisfies(row, conditions):
    for kind, feature, threshold in conditions:
        v = row[feature]
        if isnan(v):
            return False
        if not {'leq': v <= threshold, 'gr': v > threshold, 'eq': v == threshold, 'neq': v != threshold}[
                kind.split('_')[1]]:
            return False
    return True
