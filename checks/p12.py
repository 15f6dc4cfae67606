"""
P12: samples and partitions are valid and unbiased, whatever the random number generator comes up with.

A native driver (native/sampling.cpp) replaces the random number generator and enumerates all sequences of random
choices for the methods that sample instances, features or outputs, or partition the training data, including several
samples in a row. The set of reachable outcomes and their exact probabilities are compared to the ones that are expected.
"""
import itertools
import math
import os
import subprocess

import numpy as np

PROPERTY = 'P12'
F32 = np.float32
TOL = 1e-9
BOUNDS = {'examples': '<= 6 (quick), <= 7 (thorough); <= 51 when testing the methods for sampling small fractions',
          'labels': '<= 3, all multisets of label vectors', 'consecutive samples': '<= 2',
          'choices': 'all outcomes of the random number generator'}
ASSUMPTIONS = ['Successive random numbers are independent and uniformly distributed.',
               'Rejection sampling is explored up to a bounded number of draws.']
JOB_TIMEOUT = 700


def prepare(tier):
    import buildsys
    src = os.path.join(buildsys.VERIF, 'native', 'sampling.cpp')
    out = os.path.join(buildsys.ROOT, 'sampling')
    inc = ['-I' + os.path.join(buildsys.ROOT, p) for p in ('src/gen/common', 'src/cpp/subprojects/common/include')]
    lib = os.path.join(buildsys.ROOT, 'plain', 'lib')
    r = subprocess.run(['g++', '-std=c++20', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS=1', '-rdynamic', *inc, '-o', out + '.tmp', src,
                        '-L' + lib, '-lmlrlcommon', '-Wl,-rpath,' + lib], stderr=subprocess.PIPE, text=True, check=False)
    if r.returncode:
        raise buildsys.BuildError(r.stderr[-3000:])
    os.replace(out + '.tmp', out)
    return {'VERIF_SAMPLING': out}


def ask(lines, ctx):
    """ Returns a list that contains, for each line, (outcomes, executions, choices, stopped). """
    r = subprocess.run([os.environ['VERIF_SAMPLING']], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, check=False, timeout=JOB_TIMEOUT)
    result, current = [], []
    for l in r.stdout.split('\n'):
        if l.startswith('O '):
            _, p, complete, incomplete, text = l.split(' ', 4)
            current.append((float(p), int(complete), int(incomplete), text))
        elif l.startswith('END '):
            _, executions, choices, stopped = l.split(' ')
            result.append((current, int(executions), int(choices), stopped == '1'))
            current = []
    if r.returncode or len(result) < len(lines):
        i = min(len(result), len(lines) - 1)
        ctx.case({'line': lines[i]})
        ctx.violation(f'the process terminated with exit code {r.returncode}: {r.stdout[-300:]}')
    return result


def bounded(n, fraction, lo, hi):
    k = int(np.ceil(F32(fraction) * F32(n)))
    if k < min(lo, n):
        return min(lo, n)
    return hi if hi >= lo and k > hi else k


SIZES = (0.2, 0.34, 0.5, 0.66, 0.8)
LIMITS = ((1, 0), (2, 0), (1, 1), (2, 3), (9, 0))


def instance_lines(tier):
    top = 7 if tier == 'quick' else 8
    for n in range(1, top):
        for size in SIZES + (0.99,):
            for lo, hi in LIMITS:
                for first in [None] + ([m for m in itertools.product('01', repeat=n) if '1' in m and '0' in m] if n <= 4 else [tuple('01' * n)[:n]]):
                    m = n if first is None else first.count('1')
                    k = bounded(m, size, lo, hi)
                    for method in ('without', 'with'):
                        if method == 'with' and m**k > (20000 if tier == 'quick' else 60000):
                            continue
                        for rounds in ((1, 2) if m <= 3 else (1, )):
                            yield (method, n, 1, '0' * n, 0, first, size, lo, hi, rounds)
    for n in (17, 19):
        yield ('without', n, 1, '0' * n, 0, None, 0.02, 1, 0, 2)
    for n in (34, 36):
        yield ('without', n, 1, '0' * n, 0, None, 0.05, 1, 0, 1)
    yield ('without', 40, 1, '0' * 40, 0, tuple('0110' + '1' * 36), 0.05, 1, 0, 1)
    for n in (1, 3):
        for first in (None, tuple('011')[:n]) if n > 1 else (None, ):
            yield ('none', n, 1, '0' * n, 0, first, 0.5, 1, 0, 1)


def stratified_lines(tier):
    top = 6 if tier == 'quick' else 7
    for l in (1, 2, 3):
        for n in range(1, top + 1 if l < 3 else top):
            for rows in itertools.combinations_with_replacement(range(2**l), n):
                orders = [rows] if n > 3 else sorted(set(itertools.permutations(rows)))
                for order in orders:
                    bits = ''.join(format(r, f'0{l}b') for r in order)
                    for i, size in enumerate(SIZES):
                        for method in ('example', 'output'):
                            yield (method, n, l, bits, (n + i) % 2, None, size, 1, 0, 2 if n <= 3 else 1)
                            if n >= 3 and i % 2 == 0:
                                first = tuple('1' if (k + i) % 3 else '0' for k in range(n))
                                yield (method, n, l, bits, i // 2 % 2, first, size, 1, 0, 1)


def line_of(c, depth, limit):
    method, n, l, bits, sparse, first, size, lo, hi, rounds = c
    return f'instance {method} {depth} {limit} {rounds} {n} {l} {bits} {sparse} {"".join(first) if first else "-"} {size} {lo} {hi}'


def check_instances(configs, ctx):
    depth = 14
    results = ask([line_of(c, depth if c[1] < 10 else (4 if c[1] < 30 else 3), 60000) for c in configs], ctx)
    for c, (outcomes, executions, choices, stopped) in zip(configs, results):
        method, n, l, bits, sparse, first, size, lo, hi, rounds = c
        ctx.case({'kind': 'instances', 'method': method, 'n': n, 'labels': bits, 'sparse': sparse, 'training set': first,
                  'sample_size': size, 'min_samples': lo, 'max_samples': hi, 'samples': rounds})
        ctx.state(executions)
        ctx.step(choices)
        ctx.outcome(sorted(o[3] for o in outcomes))
        training = [i for i in range(n) if first is None or first[i] == '1']
        k = len(training) if method == 'none' else bounded(len(training), size, lo, hi)
        total = 0.0
        truncated = stopped
        probabilities = {}
        for p, complete, incomplete, text in outcomes:
            truncated = truncated or incomplete > 0
            if not ctx.check('INVALID' not in text, 'a random number is requested from an empty range'):
                continue
            key = []
            for sample in text.split('/'):
                w, nnz, hz = sample.split(';')
                w = [int(v) for v in w.split(',')]
                ctx.check(int(nnz) == sum(v > 0 for v in w), f'the number of non-zero weights of {w} is {nnz}')
                ctx.check((hz == '1') == any(v == 0 for v in w) or method == 'none', f'{w} is said to have {"" if hz == "1" else "no "}zero weights')
                ctx.check(all(w[i] == 0 for i in range(n) if i not in training),
                          f'examples that do not belong to the training set {training} have weights {w}')
                if method in ('without', 'none'):
                    ctx.check(all(v in (0, 1) for v in w) and sum(w) == k, f'{k} examples should be sampled, but weights are {w}')
                elif method == 'with':
                    ctx.check(sum(w) == k, f'{k} examples should be sampled with replacement, but weights are {w}')
                else:
                    check_strata(ctx, method, bits, l, training, size, w, lo, hi)
                key.append(tuple(w))
            probabilities[tuple(key)] = p
            total += p
        if truncated:
            # By symmetry, all subsets must be equally likely after a bounded number of draws, too
            if method == 'without' and not stopped:
                ctx.check(len(probabilities) == math.comb(len(training), k)**rounds, f'{len(probabilities)} samples are possible')
                v = [p for p in probabilities.values()]
                ctx.check(max(v) - min(v) < TOL, f'some samples are more likely than others: {min(v)} vs. {max(v)}')
            continue
        ctx.check(abs(total - 1) < 1e-6, f'probabilities sum up to {total}')
        if method == 'without':
            expected = 1 / math.comb(len(training), k)**rounds
            ctx.check(len(probabilities) == math.comb(len(training), k)**rounds,
                      f'{len(probabilities)} different samples are possible')
            for key, p in probabilities.items():
                ctx.check(abs(p - expected) < TOL, f'the probability of {key} is {p} instead of {expected}')
        elif method == 'with':
            for key, p in probabilities.items():
                e = 1.0
                for w in key:
                    e *= math.factorial(k) / np.prod([float(math.factorial(v)) for v in w]) / len(training)**k
                ctx.check(abs(p - e) < TOL, f'the probability of {key} is {p} instead of {e}')
        elif method == 'example':
            check_uniform(ctx, bits, l, training, probabilities)


def strata(bits, l, training):
    result = {}
    for i in training:
        result.setdefault(bits[i * l:(i + 1) * l], []).append(i)
    return result


def check_strata(ctx, method, bits, l, training, size, w, lo, hi):
    ctx.check(all(v in (0, 1) for v in w), f'weights are {w}')
    if sum(w) < min(lo, len(training)):
        ctx.violation(f'only {sum(w)} examples are sampled instead of at least {lo}', 'stratified-bounds')
    elif hi >= lo and sum(w) > hi:
        ctx.violation(f'{sum(w)} examples are sampled instead of at most {hi}', 'stratified-bounds')
    if method == 'example':
        for v, members in strata(bits, l, training).items():
            k = sum(w[i] for i in members)
            ctx.check(abs(k - size * len(members)) < 1 + 1e-6,
                      f'{k} out of {len(members)} examples with label vector {v} are sampled ({w})')
    else:
        for j in range(l):
            members = [i for i in training if bits[i * l + j] == '1']
            k = sum(w[i] for i in members)
            ctx.check(abs(k - size * len(members)) < l + 1 - 1e-6,
                      f'{k} out of {len(members)} examples that are associated with label {j} are sampled ({w})')
        members = [i for i in training if '1' not in bits[i * l:(i + 1) * l]]
        k = sum(w[i] for i in members)
        ctx.check(abs(k - size * len(members)) < 1 + 1e-6,
                  f'{k} out of {len(members)} examples that are not associated with any labels are sampled ({w})')


def check_uniform(ctx, bits, l, training, probabilities):
    """ Given the number of examples per label vector, all choices of examples must be equally likely. """
    groups = strata(bits, l, training)
    classes = {}
    for key, p in probabilities.items():
        c = tuple(tuple(sum(w[i] for i in members) for members in groups.values()) for w in key)
        classes.setdefault(c, []).append((key, p))
    for c, members in classes.items():
        count = 1
        for counts in c:
            for k, g in zip(counts, groups.values()):
                count *= math.comb(len(g), k)
        ctx.check(len(members) == count, f'only {len(members)} out of {count} samples with {c} examples per label vector are possible')
        v = [p for _, p in members]
        ctx.check(max(v) - min(v) < TOL, f'some samples are more likely than others: {sorted(members, key=lambda m: m[1])}')


def feature_configs(tier):
    for n in range(1, 7 if tier == 'quick' else 9):
        for size in (0, ) + SIZES:
            for lo, hi in ((1, 0), (2, 3)) if size else ((1, 0), ):
                for retained in range(0, n + 2 if n < 4 else 3):
                    for method in ('wo', 'beam', 'beam-resample'):
                        for rounds in (1, 2) if n <= 4 else (1, ):
                            yield (method, n, size, lo, hi, retained, rounds)
    yield ('wo', 34, 0.05, 1, 0, 0, 1)
    yield ('wo', 37, 0.05, 1, 0, 3, 1)
    for n in (1, 4):
        yield ('none', n, 0, 1, 0, 0, 2)


def check_features(configs, ctx):
    lines = [f'feature {m} {12 if n < 10 else 3} 60000 {r} {n} {s} {lo} {hi} {ret}' for m, n, s, lo, hi, ret, r in configs]
    for c, (outcomes, executions, choices, stopped) in zip(configs, ask(lines, ctx)):
        method, n, size, lo, hi, retained, rounds = c
        ctx.case({'kind': 'features', 'method': method, 'n': n, 'sample_size': size, 'min_samples': lo,
                  'max_samples': hi, 'num_retained': retained, 'samples': rounds})
        ctx.state(executions)
        ctx.step(choices)
        ctx.outcome(sorted(o[3] for o in outcomes))
        ret = min(n, retained)
        rest = n - ret
        if method == 'none':
            k, ret, rest = n, 0, n
        elif size:
            k = bounded(rest, size, lo, hi)
        else:
            k = rest if rest < 2 else int(math.log2(rest - 1) + 1)
        seen = {}
        truncated = stopped
        for p, complete, incomplete, text in outcomes:
            truncated = truncated or incomplete > 0
            if not ctx.check('INVALID' not in text, 'a random number is requested from an empty range'):
                continue
            key = []
            for sample in text.split('/'):
                f = [int(v) for v in sample.split(',') if v]
                ctx.check(len(f) == k + ret and len(set(f)) == len(f) and all(0 <= v < n for v in f),
                          f'{k + ret} different features should be sampled, but got {f}')
                ctx.check(all(v in f for v in range(n - ret, n)), f'not all of the trailing {ret} features are included in {f}')
                key.append(tuple(sorted(f)))
            key = tuple(key)
            if method == 'beam':
                ctx.check(key[-1] == key[-2], f'different features {key[-2:]} are sampled')
            seen[key] = seen.get(key, 0) + p
        independent = rounds - 1 + {'beam': 1, 'beam-resample': 2}.get(method, 1) if method in ('beam', 'beam-resample') else rounds
        count = math.comb(rest, k)**independent
        if seen and not stopped:
            ctx.check(len(seen) == count, f'{len(seen)} instead of {count} different samples are possible')
            v = list(seen.values())
            ctx.check(max(v) - min(v) < TOL, f'some samples are more likely than others: {min(v)} vs. {max(v)}')
            if not truncated:
                ctx.check(abs(sum(v) - 1) < 1e-6, f'probabilities sum up to {sum(v)}')


def output_configs(tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        for size in SIZES:
            for lo, hi in ((1, 1), (1, 0), (2, 2), (2, 3)):
                for rounds in (1, 2) if n <= 3 else (1, ):
                    yield ('wo', n, size, lo, hi, rounds)
        yield ('none', n, 0.5, 1, 1, 2)
        yield ('round-robin', n, 0.5, 1, 1, 2 * n + 1)
    yield ('wo', 20, 0.05, 1, 1, 1)
    yield ('wo', 36, 0.05, 1, 2, 1)


def check_outputs(configs, ctx):
    lines = [f'output {m} {12 if n < 10 else 3} 60000 {r} {n} {s} {lo} {hi}' for m, n, s, lo, hi, r in configs]
    for c, (outcomes, executions, choices, stopped) in zip(configs, ask(lines, ctx)):
        method, n, size, lo, hi, rounds = c
        ctx.case({'kind': 'outputs', 'method': method, 'n': n, 'sample_size': size, 'min_samples': lo, 'max_samples': hi,
                  'samples': rounds})
        ctx.state(executions)
        ctx.step(choices)
        ctx.outcome(sorted(o[3] for o in outcomes))
        k = {'none': n, 'round-robin': 1}.get(method, min(n, bounded(n, size, lo, hi)))
        seen = {}
        truncated = stopped
        for p, complete, incomplete, text in outcomes:
            truncated = truncated or incomplete > 0
            if not ctx.check('INVALID' not in text, 'a random number is requested from an empty range'):
                continue
            samples = [[int(v) for v in s.split(',') if v] for s in text.split('/')]
            for s in samples:
                ctx.check(len(s) == k and len(set(s)) == k and all(0 <= v < n for v in s),
                          f'{k} different outputs should be sampled, but got {s}')
                ctx.check(s == sorted(s), f'the indices {s} are not sorted') if method == 'none' else None
            if method == 'round-robin':
                ctx.check([s[0] for s in samples] == [i % n for i in range(rounds)], f'outputs {samples} are sampled')
            key = tuple(tuple(sorted(s)) for s in samples)
            seen[key] = seen.get(key, 0) + p
        if method == 'wo':
            count = math.comb(n, k)**rounds
            ctx.check(stopped or len(seen) == count, f'{len(seen)} instead of {count} different samples are possible')
            v = list(seen.values())
            ctx.check(stopped or max(v) - min(v) < TOL, f'some samples are more likely than others: {min(v)} vs. {max(v)}')
            if not truncated:
                ctx.check(abs(sum(v) - 1) < 1e-6, f'probabilities sum up to {sum(v)}')


def partition_configs(tier):
    top = 6 if tier == 'quick' else 7
    for n in range(1, top + 1):
        for size in SIZES:
            for rounds in (1, 2) if n <= 4 else (1, ):
                yield ('random', n, 1, '0' * n, 0, size, rounds)
        yield ('none', n, 1, '0' * n, 0, 0.5, 1)
    for l in (1, 2, 3):
        for n in range(1, (6 if l < 3 else 5) + (tier == 'thorough')):
            for rows in itertools.combinations_with_replacement(range(2**l), n):
                bits = ''.join(format(r, f'0{l}b') for r in (rows if sum(rows) % 2 else rows[::-1]))
                for i, size in enumerate(SIZES):
                    for method in ('example', 'output'):
                        yield (method, n, l, bits, (n + i) % 2, size, 1)


def check_partitions(configs, ctx):
    lines = [f'partition {m} 12 60000 {r} {n} {l} {bits} {sparse} {size}' for m, n, l, bits, sparse, size, r in configs]
    for c, (outcomes, executions, choices, stopped) in zip(configs, ask(lines, ctx)):
        method, n, l, bits, sparse, size, rounds = c
        ctx.case({'kind': 'partition', 'method': method, 'n': n, 'labels': bits, 'sparse': sparse, 'holdout_set_size': size,
                  'partitions': rounds})
        ctx.state(executions)
        ctx.step(choices)
        ctx.outcome(sorted(o[3] for o in outcomes))
        holdout = 0 if method == 'none' else int(F32(size) * F32(n))
        seen = {}
        for p, complete, incomplete, text in outcomes:
            if not ctx.check('INVALID' not in text, 'a random number is requested from an empty range'):
                continue
            key = []
            for partition in text.split('/'):
                first, second = [[int(v) for v in s.split(',') if v] for s in partition.split(';')]
                ctx.check(sorted(first + second) == list(range(n)),
                          f'the sets {first} and {second} do not contain each example exactly once')
                ctx.check(len(second) == holdout, f'the holdout set {second} should contain {holdout} examples')
                if method == 'example':
                    for v, members in strata(bits, l, range(n)).items():
                        k = len(set(members) & set(first))
                        ctx.check(abs(k - (n - holdout) / n * len(members)) < len(strata(bits, l, range(n))) + 1e-6,
                                  f'{k} out of {len(members)} examples with label vector {v} are contained by {first}')
                elif method == 'output':
                    for j in range(l):
                        members = [i for i in range(n) if bits[i * l + j] == '1']
                        k = len(set(members) & set(first))
                        ctx.check(abs(k - (n - holdout) / n * len(members)) < l + 1 + 1e-6,
                                  f'{k} out of {len(members)} examples with label {j} are contained by {first}')
                key.append(tuple(sorted(first)))
            key = tuple(key)
            seen[key] = seen.get(key, 0) + p
        if method == 'random':
            count = math.comb(n, holdout)**rounds
            ctx.check(stopped or len(seen) == count, f'{len(seen)} instead of {count} different partitions are possible')
            v = list(seen.values())
            ctx.check(stopped or max(v) - min(v) < TOL, f'some partitions are more likely than others: {min(v)} vs. {max(v)}')
        elif method == 'example' and not stopped:
            check_uniform(ctx, bits, l, range(n),
                          {tuple(tuple(1 if i in f else 0 for i in range(n)) for f in k): p for k, p in seen.items()})


PARTS = {'instances': (instance_lines, check_instances), 'stratified': (stratified_lines, check_instances),
         'features': (feature_configs, check_features), 'outputs': (output_configs, check_outputs),
         'partitions': (partition_configs, check_partitions)}
CHUNK = {'instances': 60, 'stratified': 250, 'features': 60, 'outputs': 80, 'partitions': 200}


def jobs(tier):
    out = []
    for part, (configs, _) in PARTS.items():
        total = sum(1 for _ in configs(tier))
        for lo in range(0, total, CHUNK[part]):
            out.append({'part': part, 'lo': lo, 'hi': min(total, lo + CHUNK[part]), 'tier': tier})
    return out


def run(job, ctx):
    configs, check = PARTS[job['part']]
    check(list(itertools.islice(configs(job['tier']), job['lo'], job['hi'])), ctx)
