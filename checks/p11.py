"""
P11: the scores that are predicted by each rule are optimal.

Explores all small label matrices for all combinations of loss functions, types of heads, regularization weights and
shrinkage parameters. Each model is replayed rule by rule: the gradients and Hessians for all examples are calculated
from the scores of the preceding rules (lib/oracle.py), and the head of the rule must be one that minimizes the
regularized second-order approximation of the loss function for the examples it covers.
"""
import itertools

import numpy as np

import harness as h
import oracle
from p10 import HEADS, config

PROPERTY = 'P11'
HEADS = dict(HEADS, **{'dynamic:0.02:2.0': 'partial-dynamic{threshold=0.02,exponent=2.0}',
                       'dynamic:0.6:1.0': 'partial-dynamic{threshold=0.6,exponent=1.0}'})
REGULARIZATION = [(0.0, 1.0, 0.3), (0.0, 0.2, 1.0), (0.25, 1.5, 0.5), (0.4, 0.1, 0.9)]


def configurations():
    out = []
    for loss in ('logistic', 'squared-error', 'squared-hinge'):
        for head in ('complete', 'single', 'fixed2', 'dynamic:0.5:2.0', 'dynamic:0.02:2.0', 'dynamic:0.6:1.0'):
            for joint in (False, True):
                if joint and head == 'single':
                    continue
                for i, (l1, l2, shrinkage) in enumerate(REGULARIZATION):
                    if head == 'dynamic:0.6:1.0' and i % 2:
                        continue
                    out.append(dict(config(loss, joint, head, l1, l2, shrinkage), extra={}))
        for l1, l2, shrinkage in REGULARIZATION:
            # Rules are learned on samples, their heads are then calculated for all examples
            out.append(dict(config(loss, False, 'single', l1, l2, shrinkage),
                            extra={'instance_sampling': 'with-replacement'}))
            out.append(dict(config(loss, True, 'complete', l1, l2, shrinkage),
                            extra={'instance_sampling': 'without-replacement{sample_size=0.5}'}))
    for l1, l2, shrinkage in REGULARIZATION:
        out.append(dict(config('squared-hinge', False, 'single', l1, l2, shrinkage),
                        extra={'statistic_format': 'sparse', 'default_rule': 'false'}))
        for head in ('complete', 'single', 'fixed2'):
            out.append(dict(config('regression', False, head, l1, l2, shrinkage, kind='regr'), extra={}))
        out.append(dict(config('regression', True, 'complete', l1, l2, shrinkage, kind='regr'), extra={}))
    return out


CONFIGS = configurations()
N, L, RULES = 3, 3, 7
X = [[-1, -1], [-2, -2], [-3, -1], [-4, -2]]
BOUNDS = {'configurations': len(CONFIGS), 'labels': '3 examples x 3 labels: all 512 label matrices (thorough: 4 examples '
          'x 3 labels: all 4096)', 'rules': RULES}


def jobs(tier):
    out = []
    n = N if tier == 'quick' else 4
    total = 2**(n * L)
    for c in range(len(CONFIGS)):
        for lo, hi in h.chunks(total, 512):
            out.append({'config': c, 'n': n, 'lo': lo, 'hi': hi})
    return out


def parameters(c):
    p = {'max_rules': RULES, 'head_type': HEADS[c['head']], 'l1_regularization_weight': c['l1'],
         'l2_regularization_weight': c['l2'], 'shrinkage': c['shrinkage'],
         'rule_induction': 'top-down-greedy{max_conditions=1}'}
    if c['kind'] == 'regr':
        p['loss'] = 'squared-error-' + ('non-decomposable' if c['joint'] else 'decomposable')
        if c['head'] != 'complete':
            p['output_format'] = 'sparse'  # See the known findings of P04
    else:
        p.update({'loss': c['loss'] + ('-non-decomposable' if c['joint'] else '-decomposable'),
                  'statistic_format': 'dense', 'label_binning': 'none'})
    p.update(c['extra'])
    return p


def unsorted_hessians(state, mask, rule):
    """ Whether the head of a rule results from the known finding for partial heads and non-decomposable losses. """
    c = state.config
    g, full = state.sums(mask)
    packed = [full[i][j] for i in range(len(full)) for j in range(i + 1)]
    for order in itertools.permutations(rule.head):
        n = len(order)
        m = [[0.0] * n for _ in range(n)]
        for a in range(n):
            for b in range(a + 1):
                m[a][b] = m[b][a] = packed[order[a] * (order[a] + 1) // 2 + order[b]]
            m[a][a] += c['l2']
        s = oracle.solve(m, [-oracle.soft(g[o], c['l1']) for o in order])
        if s is not None and oracle.same_head(rule.head, dict(zip(order, s)), c['shrinkage']):
            return True
    return False


def run(job, ctx):
    c = CONFIGS[job['config']]
    params = parameters(c)
    n = job['n']
    x = np.array(X[:n], dtype=h.F32)
    sampled = 'instance_sampling' in params
    for index in range(job['lo'], job['hi']):
        y = np.array([(index >> k) & 1 for k in range(n * L)], dtype=np.uint8).reshape(n, L)
        if c['kind'] == 'regr':
            y = 2 * y.astype(h.F32) - 1
            if not c['joint']:
                y = y * np.array([1, 2.5, 0.5], dtype=h.F32) + np.array([0, 1, -3], dtype=h.F32)
        ctx.case({'params': params, 'y': y})
        learner = h.make(c['kind'], random_state=1, **params)
        learner.fit(x, h.sp.csr_array(y) if params.get('output_format') == 'sparse' else y)
        rules = h.rules_of(learner.model_)
        ctx.state()
        ctx.outcome([r.key() for r in rules])
        state = oracle.State(c, y.tolist())
        for k, rule in enumerate(rules):
            mask = [i for i in range(n) if rule.default or h.covers(rule, X[i])]
            if rule.default:
                heads, factor = state.heads(mask, list(range(L)), True), 1.0
            elif sampled:
                heads, factor = state.heads(mask, sorted(rule.head), True), c['shrinkage']
            else:
                heads, factor = state.heads(mask, list(range(L)), False), c['shrinkage']
            if heads is None:
                ctx.count('unstable')
                break
            ctx.step()
            if not any(oracle.same_head(rule.head, head, factor) for head, _ in heads):
                finding = None
                if c['joint'] and c['head'].startswith('fixed') and unsorted_hessians(state, mask, rule):
                    finding = 'joint-fixed-hessians'
                ctx.violation(f'rule {rule} (at position {k} of {rules}) should predict {factor} times '
                              f'{[head for head, _ in heads]}', finding)
            state.apply(rule, mask)
        if params.get('default_rule') != 'false':
            ctx.check(rules and rules[0].default, 'there is no default rule')
