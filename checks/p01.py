"""
P01: neither the number of threads nor their schedule affects models, and the threads never race for memory.

The OpenMP runtime is replaced by `native/sched.cpp`, which executes the parallel regions of the real code with real
threads under the control of this explorer. For each configuration and dataset, and for each parallel region that occurs
while a model is fitted, all assignments of the loop's iterations to threads (up to renaming of the threads) and several
orders of execution are enumerated; the resulting model and predictions must be identical to those of a sequential run.
In addition, every memory access in parallel regions is recorded (the libraries are instrumented by the compiler) while
each iteration is executed by a thread of its own: two conflicting accesses that are not ordered are a race, whatever the
interleaving. As iterations do not synchronise with each other, the absence of conflicting accesses implies that all
interleavings below the granularity of iterations have the same result.
"""
import ctypes
import os
import subprocess

import numpy as np
import scipy.sparse as sp

import harness as h

PROPERTY = 'P01'
VARIANT = 'race'
JOB_TIMEOUT = 120
PAR = 'true{num_preferred_threads=8}'
BOOMER = [
    {}, {'head_type': 'single'}, {'head_type': 'partial-fixed{output_ratio=0.5,min_outputs=2}'},
    {'head_type': 'partial-dynamic{threshold=0.5}'},
    {'head_type': 'single', 'statistic_format': 'sparse', 'loss': 'squared-hinge-decomposable', 'default_rule': 'false'},
    {'head_type': 'partial-dynamic', 'statistic_format': 'sparse', 'loss': 'squared-hinge-decomposable',
     'default_rule': 'false'},
    {'loss': 'squared-error-decomposable', 'feature_binning': 'equal-width{bin_ratio=0.5,min_bins=2}'},
    {'feature_binning': 'equal-frequency{bin_ratio=0.5,min_bins=2}', 'head_type': 'single'},
    {'loss': 'logistic-non-decomposable', 'head_type': 'complete'},
    {'loss': 'logistic-non-decomposable', 'head_type': 'partial-fixed{output_ratio=0.5,min_outputs=2}'},
    {'loss': 'logistic-non-decomposable', 'head_type': 'partial-dynamic'},
    {'loss': 'squared-error-non-decomposable', 'head_type': 'complete',
     'label_binning': 'equal-width{bin_ratio=0.5,min_bins=1}'},
    {'loss': 'squared-hinge-non-decomposable', 'head_type': 'complete',
     'label_binning': 'equal-width{bin_ratio=0.5,min_bins=1}'},
    {'loss': 'logistic-decomposable', 'head_type': 'complete',
     'label_binning': 'equal-width{bin_ratio=0.5,min_bins=1}'},
    {'rule_pruning': 'irep', 'instance_sampling': 'without-replacement', 'feature_sampling':
     'without-replacement{sample_size=0.67,min_samples=2,max_samples=2}'},
    {'rule_induction': 'top-down-beam-search{beam_width=2}', 'head_type': 'single'},
    {'sequential_post_optimization': 'true{num_iterations=1,refine_heads=true,resample_features=false}',
     'head_type': 'single'},
    {'holdout': 'random', 'instance_sampling': 'with-replacement', 'rule_pruning': 'irep', 'global_pruning':
     'post-pruning{use_holdout_set=true,min_rules=1,interval=1}', 'marginal_probability_calibration': 'isotonic',
     'joint_probability_calibration': 'isotonic', 'binary_predictor': 'example-wise'},
    {'rule_induction': 'top-down-greedy{max_conditions=2,recalculate_predictions=true}', 'instance_sampling':
     'stratified-output-wise', 'output_sampling': 'without-replacement{sample_size=0.5,min_samples=2,max_samples=2}'},
]
REGR = [{}, {'head_type': 'single'}, {'loss': 'squared-error-non-decomposable', 'head_type': 'complete'},
        {'loss': 'squared-error-decomposable', 'statistic_format': 'dense', 'rule_pruning': 'irep',
         'instance_sampling': 'with-replacement'}]
SECO = [{}, {'head_type': 'partial', 'lift_function': 'kln'}, {'head_type': 'partial', 'lift_function': 'peak',
                                                               'heuristic': 'laplace'},
        {'heuristic': 'precision', 'rule_pruning': 'irep', 'instance_sampling': 'without-replacement'},
        {'rule_induction': 'top-down-beam-search{beam_width=3}', 'heuristic': 'm-estimate'}]
X = np.array([[0, 1, -1, 2], [1, 0, 1, 1], [2, 1, 0, 0], [0, 2, 1, 2], [1, 1, -1, 1], [2, 0, 2, 0]], dtype=h.F32)
Y = np.array([[1, 0, 1], [0, 1, 0], [1, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 1]], dtype=np.uint8)
XN = X.copy()
XN[1, 0] = XN[4, 0] = XN[0, 2] = np.nan
# name: (features, nominal, ordinal)
DATA = {'numerical': (X, None, None), 'ties': (np.ascontiguousarray(X[:, [0, 0, 1, 0]]), None, None),
        'missing': (XN, None, None), 'mixed': (X, [0, 2], [1]),
        'sparse': (sp.csc_array(X), None, None), 'sparse-nominal': (sp.csr_array(X), [0, 1], [3])}
BOUNDS = {'configurations': len(BOOMER) + len(REGR) + len(SECO), 'datasets': len(DATA),
          'threads': '2 (quick), 3 (thorough), and one per iteration when looking for races',
          'schedules': 'all assignments of the iterations of a region to the threads, in ascending order, '
                       'thread by thread, and thread by thread reversed'}
ASSUMPTIONS = ['Iterations of a loop are executed as a whole; finer interleavings are covered by the absence of '
               'conflicting accesses, which is decided for each explored region.',
               'Accesses made within functions of the C and C++ runtime libraries are not instrumented.']
_LIB = None


def prepare(tier):
    import buildsys
    src = os.path.join(buildsys.VERIF, 'native', 'sched.cpp')
    out = os.path.join(buildsys.ROOT, 'libsched.so')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + f'.{os.getpid()}'
        r = subprocess.run(['g++', '-O2', '-std=c++17', '-shared', '-fPIC', '-w', src, '-o', tmp, '-ldl', '-lpthread'],
                           stderr=subprocess.PIPE, text=True, check=False)
        if r.returncode:
            raise buildsys.BuildError(r.stderr)
        os.rename(tmp, out)
    return {'LD_PRELOAD': out, 'VERIF_SCHED': out}


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(os.environ['VERIF_SCHED'])
        for name in ('sched_iterations', 'sched_accesses', 'sched_races'):
            getattr(_LIB, name).restype = ctypes.c_long
        _LIB.sched_race_text.restype = ctypes.c_char_p
        _LIB.sched_function.restype = ctypes.c_char_p
    return _LIB


def jobs(tier):
    out = []
    for kind, configs in (('boomer', BOOMER), ('regr', REGR), ('seco', SECO)):
        for c in range(len(configs)):
            for d in DATA:
                out.append({'kind': kind, 'config': c, 'data': d, 'tier': tier})
    return out


def growth(n, k):
    """ All assignments of n iterations to at most k threads, up to renaming of the threads. """
    def rec(prefix, used):
        if len(prefix) == n:
            yield prefix
            return
        for t in range(min(used + 1, k)):
            yield from rec(prefix + [t], max(used, t + 1))
    return rec([], 0)


def run(job, ctx):
    kind = job['kind']
    params = dict({'boomer': BOOMER, 'regr': REGR, 'seco': SECO}[kind][job['config']], random_state=3)
    x, nominal, ordinal = DATA[job['data']]
    y = Y.astype(h.F32) if kind == 'regr' else Y
    s = lib()
    thorough = job['tier'] == 'thorough'
    params['max_rules'] = 3

    def execute(parallel):
        p = dict(params)
        if parallel:
            p.update(parallel_rule_refinement=PAR, parallel_statistic_update=PAR, parallel_prediction=PAR)
        else:
            p.update(parallel_rule_refinement='false', parallel_statistic_update='false', parallel_prediction='false')
        l = h.learner(kind, p, ordinal=ordinal, nominal=nominal)
        l.fit(x, y)
        res = [h.model_key(l.model_), h.dense(l.predict(x)).tolist()]
        if kind == 'boomer':
            try:
                res.append(h.dense(l.predict_proba(x)).tolist())
            except RuntimeError:
                pass
        return repr(res)

    case = {'kind': kind, 'config': params, 'data': job['data']}
    ctx.case(dict(case, schedule='sequential'))
    s.sched_configure(0, 0, 0, 0)
    expected = execute(False)
    ctx.state()
    ctx.outcome(expected)

    def compare(schedule):
        ctx.case(dict(case, schedule=schedule))
        got = execute(True)
        ctx.step()
        ctx.check(got == expected, lambda: f'the result depends on the schedule: {got[:900]} instead of '
                                           f'{expected[:900]}')

    # Races
    for pattern in (1, 2):
        for warm_up in (True, False):
            s.sched_configure(1, 0 if warm_up else 1, 0, pattern)
            compare({'threads': 'one per iteration', 'pattern': pattern})
        ctx.count('accesses', s.sched_accesses())
        if s.sched_races():
            ctx.violation('data race: ' + s.sched_race_text().decode())
        regions = [s.sched_iterations(r) for r in range(s.sched_num_regions())]
        ctx.count('regions_checked_for_races', len(regions))
    # Schedules of one region
    threads = 3 if thorough else 2
    for r, n in enumerate(regions):
        if n < 2:
            continue
        for owner in growth(n, threads):
            for order in ((0, 1, 2) if max(owner) else (0,)):
                s.sched_configure(1, 0, threads, 0)
                arr = (ctypes.c_int * n)(*owner)
                s.sched_override(r, arr, n, order)
                compare({'region': r, 'owner': owner, 'order': order})
                ctx.state()
    # The same schedule in all regions
    for threads in range(1, 9):
        for pattern in range(5):
            s.sched_configure(1, 0, threads, pattern)
            compare({'threads': threads, 'pattern': pattern})
            ctx.state()
    s.sched_configure(0, 0, 0, 0)
