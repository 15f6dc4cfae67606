"""
P20: training and test data are disjoint, complete and correctly paired, whatever the shuffling comes up with.

The data splitters run on real files. The random permutation they rely on is replaced such that all permutations are
enumerated (together with all dataset sizes, numbers of folds and folds to be performed). A callback records the data
that is passed to the training and evaluation procedure.
"""
import itertools
import os

import numpy as np

from p21 import dense, write_arff, write_xml

PROPERTY = 'P20'
BOUNDS = {'quick': '<= 4 examples with all permutations, 5 examples for a single configuration, all numbers of folds and folds',
          'thorough': '<= 5 examples with all permutations in all configurations, 6 examples for a single one'}
ASSUMPTIONS = ['The data set files are well-formed.']


class Permutation:
    """ A random number generator that comes up with a given permutation. """

    def __init__(self, permutation):
        self.p = permutation

    def shuffle(self, array):
        array[:] = np.array(array)[list(self.p)]

    def permutation(self, n):
        return np.array(self.p) if isinstance(n, (int, np.integer)) else np.asarray(n)[list(self.p)]


class Control:
    """ Replaces the random number generator while it is active. """

    def __init__(self, permutation):
        self.p = permutation
        self.seeds = []

    def __enter__(self):
        import sklearn.model_selection._split as s
        self.module, self.original = s, s.check_random_state

        def controlled(seed):
            self.seeds.append(seed)
            return Permutation(self.p)
        if self.p is not None:
            s.check_random_state = controlled
        return self

    def __exit__(self, *_):
        self.module.check_random_state = self.original


class Recorder:
    """ Records what is passed to the training and evaluation procedure. """

    def __new__(cls):
        from mlrl.testbed.data_splitting import DataSplitter

        class Callback(DataSplitter.Callback):

            def __init__(self):
                self.calls = []

            def train_and_evaluate(self, meta_data, data_split, train_x, train_y, test_x, test_y):
                self.calls.append((meta_data, data_split, train_x, train_y, test_x, test_y))

        return Callback()


def rows_of(x, y):
    x, y = dense(x), dense(y)
    if x.shape[0] != y.shape[0]:
        return None
    return [(tuple('nan' if v != v else float(v) for v in a), tuple(int(v) for v in b)) for a, b in zip(x, y)]


class Data:
    """ A data set, each example of which is unique. The kinds of files are chosen by `layout` and `nominal`. """

    def __init__(self, n, layout, nominal, at_start, offset=0, duplicate=False):
        self.n, self.layout, self.nominal, self.at_start = n, layout, nominal, at_start
        self.values = ['r', 'g', 'b']
        self.attributes = [('f0', 'NUMERIC')] + ([('f1', self.values)] if nominal else [('f1', 'NUMERIC')])
        self.labels = [('l0', ['0', '1']), ('l1', ['0', '1'])]
        ids = [0 if duplicate else i + offset for i in range(n)]
        self.tokens = [([str(i), self.values[(i * 2 + 1) % 3] if nominal else str(i % 2)],
                        [str(i & 1), str((i >> 1) & 1)]) for i in ids]

    def write(self, path):
        rows = [y + x if self.at_start else x + y for x, y in self.tokens]
        attributes = self.labels + self.attributes if self.at_start else self.attributes + self.labels
        write_arff(path, 'd', attributes, rows, self.layout)

    def rows(self, encode=None):
        """ encode: None or the list of nominal values that correspond to the encoded columns. """
        out = []
        for x, y in self.tokens:
            first = float(x[0])
            if not self.nominal:
                values = (first, float(x[1]))
            elif encode is None:
                values = (first, float(self.values.index(x[1])))
            else:
                values = tuple(float(x[1] == v) for v in encode) + (first,)
            out.append((values, tuple(int(v) for v in y)))
        return out


def execute(ctx, splitter, permutation):
    callback = Recorder()
    error = None
    with Control(permutation) as control:
        try:
            splitter.run(callback)
        except Exception as e:  # pylint: disable=broad-except
            error = e
    ctx.step()
    return callback.calls, error, control.seeds


def check_meta(ctx, data, meta, encoded):
    ctx.check([o.name for o in meta.outputs] == ['l0', 'l1'], 'the names of the outputs are wrong')
    if encoded and data.nominal:
        ctx.check(len(meta.get_feature_indices()) == 0, 'the features have been encoded, but are still declared')
    else:
        ctx.check([f.name for f in meta.features] == ['f0', 'f1'], 'the features are wrong')


def write_all(d, files):
    for name in os.listdir(d):
        os.remove(os.path.join(d, name))
    write_xml(os.path.join(d, 'd.xml'), ['l0', 'l1'])
    for name, data in files.items():
        data.write(os.path.join(d, name + '.arff'))


def data_set(d, one_hot):
    from mlrl.testbed.data_splitting import DataSet
    return DataSet(data_dir=d, data_set_name='d', use_one_hot_encoding=one_hot)


def seen_values(data):
    """ The nominal values that occur, in the order of the encoded columns. """
    return sorted({x[1] for x, _ in data.tokens}, key=data.values.index)


# ---------------------------------------------------------------------------------------------------------------------
# Cross validation
# ---------------------------------------------------------------------------------------------------------------------

KINDS = [('dense', False, False, False), ('sparse', False, True, False), ('dense', True, False, True),
         ('sparse', True, True, True), ('dense', True, True, False), ('sparse', True, False, False)]


def configs(tier):
    """ Yields (n, layout, nominal, at_start, one_hot). """
    for n in range(1, 5 if tier == 'quick' else 6):
        for kind in KINDS:
            yield (n, *kind)
    yield (5 if tier == 'quick' else 6, *KINDS[0])


def check_split_kind(ctx, split, num_folds, fold, current):
    ctx.check(split.is_train_test_separated(), 'the data is said not to be split')
    ctx.check(split.get_num_folds() == num_folds and split.get_fold() == fold, 'the fold is wrong')
    ctx.check(split.is_cross_validation_used() == (num_folds > 1), 'cross validation is (not) used')
    if num_folds > 1 and current < 0:
        ctx.check(split.is_last_fold() == (fold == num_folds - 1), 'the last fold is wrong')


def run_cv(job, d, ctx):
    from mlrl.testbed.data_splitting import CrossValidationSplitter
    n, layout, nominal, at_start, one_hot = job['config']
    data = Data(n, layout, nominal, at_start)
    write_all(d, {'d': data})
    expected = data.rows(seen_values(data) if one_hot else None)
    for num_folds in range(2, n + 2):
        for p in [None] + list(itertools.permutations(range(n))):
            full = None
            for current in range(-1, num_folds):
                ctx.case({'examples': n, 'kind': job['config'][1:], 'folds': num_folds, 'fold': current, 'permutation': p})
                calls, error, seeds = execute(ctx, CrossValidationSplitter(data_set(d, one_hot), num_folds, current, 7), p)
                ctx.state()
                if num_folds > n:
                    ctx.check(error is not None and not calls, 'there are more folds than examples, but no error')
                    continue
                if not ctx.check(error is None, lambda: f'cross validation failed: {error!r}'):
                    continue
                ctx.check(all(s == 7 for s in seeds), f'the seeds {seeds} have been used')
                folds = list(range(num_folds)) if current < 0 else [current]
                if not ctx.check(len(calls) == len(folds), f'{len(calls)} folds have been performed'):
                    continue
                union, result = [], []
                for fold, (meta, split, *xy) in zip(folds, calls):
                    train, test = rows_of(xy[0], xy[1]), rows_of(xy[2], xy[3])
                    check_meta(ctx, data, meta, one_hot)
                    check_split_kind(ctx, split, num_folds, fold, current)
                    if not ctx.check(train is not None and test is not None, 'the numbers of features and outputs differ'):
                        continue
                    ctx.check(sorted(train + test) == sorted(expected),
                              lambda: f'training set {train} and test set {test} are not a partition of {expected}')
                    ctx.check(n // num_folds <= len(test) <= -(-n // num_folds), f'the test set has {len(test)} elements')
                    union += test
                    result.append((sorted(train), sorted(test)))
                if current < 0:
                    ctx.check(sorted(union) == sorted(expected), lambda: f'the test sets {union} are not a partition')
                    full = result
                    ctx.outcome(result)
                else:
                    ctx.check(full is None or result == [full[current]],
                              lambda: f'fold {current} consists of {result} instead of {full[current]}, if performed alone')


# ---------------------------------------------------------------------------------------------------------------------
# Training and test sets
# ---------------------------------------------------------------------------------------------------------------------

def run_train_test(job, d, ctx):
    from mlrl.testbed.data_splitting import NoSplitter, TrainTestSplitter
    n, layout, nominal, at_start, one_hot = job['config']
    data = Data(n, layout, nominal, at_start)
    write_all(d, {'d': data})
    expected = data.rows(seen_values(data) if one_hot else None)
    first = {}
    for p in [None] + list(itertools.permutations(range(n))):
        for size in (0.01, 0.2, 0.25, 0.33, 0.5, 0.6, 0.75, 0.99):
            ctx.case({'examples': n, 'kind': job['config'][1:], 'test_size': size, 'permutation': p})
            calls, error, _ = execute(ctx, TrainTestSplitter(data_set(d, one_hot), size, 7), p)
            ctx.state()
            num_test = int(np.ceil(round(size * n, 9)))
            if num_test >= n:
                ctx.check(error is not None and not calls, 'the training set is empty, but no error has been raised')
                continue
            if not ctx.check(error is None and len(calls) == 1, lambda: f'splitting failed: {error!r}'):
                continue
            meta, split, *xy = calls[0]
            train, test = rows_of(xy[0], xy[1]), rows_of(xy[2], xy[3])
            check_meta(ctx, data, meta, one_hot)
            check_split_kind(ctx, split, 1, None, -1)
            ctx.check(split.is_last_fold(), 'the last fold is wrong')
            if not ctx.check(train is not None and test is not None, 'the numbers of features and outputs differ'):
                continue
            ctx.check(sorted(train + test) == sorted(expected),
                      lambda: f'training set {train} and test set {test} are not a partition of {expected}')
            ctx.check(len(test) == num_test, f'the test set has {len(test)} instead of {num_test} elements')
            ctx.outcome((sorted(train), sorted(test)))
            if p is None:
                again = execute(ctx, TrainTestSplitter(data_set(d, one_hot), size, 7), None)[0][0]
                ctx.check((rows_of(*again[2:4]), rows_of(*again[4:6])) == (train, test), 'splitting is not deterministic')
            first.setdefault(size, set()).add(tuple(sorted(test)))
    ctx.case({'examples': n, 'kind': job['config'][1:], 'split': 'none'})
    calls, error, _ = execute(ctx, NoSplitter(data_set(d, one_hot)), None)
    ctx.state()
    if ctx.check(error is None and len(calls) == 1, f'loading failed: {error!r}'):
        meta, split, *xy = calls[0]
        check_meta(ctx, data, meta, one_hot)
        ctx.check(not split.is_train_test_separated() and split.get_fold() is None and split.get_num_folds() == 1,
                  'the split is wrong')
        ctx.check(rows_of(xy[0], xy[1]) == expected and rows_of(xy[2], xy[3]) == expected, 'the data is wrong')


# ---------------------------------------------------------------------------------------------------------------------
# Predefined splits
# ---------------------------------------------------------------------------------------------------------------------

def run_predefined(job, d, ctx):
    """ The files of which predefined splits consist are used as they are. """
    from mlrl.testbed.data_splitting import CrossValidationSplitter, TrainTestSplitter
    layout, nominal, at_start, one_hot = job['config']
    whole = Data(4, layout, nominal, at_start, offset=50)
    for sizes in itertools.product((1, 2, 3), repeat=2):
        for subset in range(4):
            for with_whole in (False, True):
                ctx.case({'kind': job['config'], 'sizes': sizes, 'files': subset, 'whole': with_whole, 'split': 'train-test'})
                parts = [Data(s, layout if i == 0 else 'dense', nominal, at_start, offset=10 * i)
                         for i, s in enumerate(sizes)]
                files = {name: parts[i] for i, name in enumerate(('d_training', 'd_test')) if subset >> i & 1}
                if with_whole:
                    files['d'] = whole
                write_all(d, files)
                calls, error, _ = execute(ctx, TrainTestSplitter(data_set(d, one_hot), 0.5, 7), None)
                ctx.state()
                if subset == 3:
                    if ctx.check(error is None and len(calls) == 1, lambda: f'loading failed: {error!r}'):
                        encode = seen_values(parts[0]) if one_hot else None
                        train, test = rows_of(*calls[0][2:4]), rows_of(*calls[0][4:6])
                        ctx.check(train == parts[0].rows(encode) and test == parts[1].rows(encode),
                                  lambda: f'training set {train} and test set {test} have been used')
                        check_meta(ctx, whole, calls[0][0], one_hot)
                        check_split_kind(ctx, calls[0][1], 1, None, -1)
                        ctx.outcome((train, test))
                elif subset == 0 and with_whole:
                    if ctx.check(error is None and len(calls) == 1, lambda: f'loading failed: {error!r}'):
                        train, test = rows_of(*calls[0][2:4]), rows_of(*calls[0][4:6])
                        encode = seen_values(whole) if one_hot else None
                        ctx.check(sorted(train + test) == sorted(whole.rows(encode)), 'the data is wrong')
                else:
                    ctx.check(error is not None and not calls, 'files are missing, but no error has been raised')
    for num_folds in (2, 3):
        for sizes in itertools.product((1, 2), repeat=num_folds):
            for subset in range(1 << num_folds):
                for current in range(-1, num_folds):
                    for with_whole in (False, True):
                        if (1 << num_folds) - 1 != subset and (current > 0 or sizes[0] != 1):
                            continue
                        ctx.case({'kind': job['config'], 'sizes': sizes, 'files': subset, 'whole': with_whole, 'fold': current})
                        parts = [Data(s, layout, nominal, at_start, offset=10 * i) for i, s in enumerate(sizes)]
                        files = {f'd_fold-{i + 1}': parts[i] for i in range(num_folds) if subset >> i & 1}
                        if with_whole:
                            files['d'] = whole
                        write_all(d, files)
                        splitter = CrossValidationSplitter(data_set(d, one_hot), num_folds, current, 7)
                        calls, error, _ = execute(ctx, splitter, None)
                        ctx.state()
                        if subset == (1 << num_folds) - 1:
                            folds = list(range(num_folds)) if current < 0 else [current]
                            if not ctx.check(error is None and len(calls) == len(folds), lambda: f'loading failed: {error!r}'):
                                continue
                            encode = seen_values(parts[0]) if one_hot else None
                            for fold, (meta, split, *xy) in zip(folds, calls):
                                train, test = rows_of(*xy[:2]), rows_of(*xy[2:])
                                others = [r for i, q in enumerate(parts) if i != fold for r in q.rows(encode)]
                                ctx.check(train is not None and sorted(train) == sorted(others),
                                          lambda: f'the training set is {train} instead of {others}')
                                ctx.check(test == parts[fold].rows(encode),
                                          lambda: f'the test set is {test} instead of {parts[fold].rows(encode)}')
                                check_meta(ctx, whole, meta, one_hot)
                                check_split_kind(ctx, split, num_folds, fold, current)
                                ctx.outcome((train, test))
                        elif subset == 0 and with_whole:
                            ctx.check(error is None and calls, lambda: f'loading failed: {error!r}')
                        else:
                            ctx.check(error is not None and not calls, 'files are missing, but no error has been raised')


# ---------------------------------------------------------------------------------------------------------------------
# The command line
# ---------------------------------------------------------------------------------------------------------------------

def run_cli(job, d, ctx):
    """ The arguments that are given via the command line select the split. """
    import argparse
    import sys
    from mlrl.boosting.runnables import BoomerRunnable
    from mlrl.testbed.data_splitting import DataSplitter
    n = 6
    data = Data(n, 'dense', True, False)
    write_all(d, {'d': data})
    original = DataSplitter.run
    arguments = [None, 'train-test', 'none', 'train-test{test_size=0.5}', 'train-test{test_size=0.2}', 'cross-validation{num_folds=3}',
                 'cross-validation{num_folds=2,current_fold=1}', 'cross-validation{num_folds=2,current_fold=2}',
                 'cross-validation{num_folds=6,current_fold=0}', 'cross-validation{num_folds=4,current_fold=4}',
                 'cross-validation{num_folds=1}', 'cross-validation{num_folds=2,current_fold=3}',
                 'cross-validation{num_folds=2,current_fold=-1}', 'train-test{test_size=0}', 'train-test{test_size=1}']
    for value, seed, one_hot in itertools.product(arguments, (None, 1, 2), (None, 'true', 'false')):
        ctx.case({'data-split': value, 'random-state': seed, 'one-hot-encoding': one_hot})
        argv = ['testbed', 'mlrl.boosting', '--data-dir', d, '--dataset', 'd']
        argv += ['--data-split', value] if value else []
        argv += ['--random-state', str(seed)] if seed else []
        argv += ['--one-hot-encoding', one_hot] if one_hot else []
        callback, error = Recorder(), None
        try:
            sys.argv = argv
            DataSplitter.run = lambda self, _, c=callback: original(self, c)
            runnable = BoomerRunnable()
            parser = argparse.ArgumentParser()
            parser.add_argument('module')
            runnable.configure_arguments(parser)
            runnable.run(parser.parse_args(argv[1:]))
        except (Exception, SystemExit) as e:  # pylint: disable=broad-except
            error = e
        finally:
            DataSplitter.run = original
        ctx.state()
        ctx.step()
        calls = callback.calls
        if value in arguments[-5:]:
            ctx.check(error is not None and not calls, 'an invalid value has been accepted')
            continue
        if not ctx.check(error is None, lambda: f'the program failed: {error!r}'):
            continue
        expected = data.rows(seen_values(data) if one_hot == 'true' else None)
        options = dict(o.split('=') for o in value[value.index('{') + 1:-1].split(',')) if value and '{' in value else {}
        if value == 'none':
            ctx.check(len(calls) == 1 and rows_of(*calls[0][2:4]) == expected and rows_of(*calls[0][4:6]) == expected,
                      'the data is wrong')
            continue
        folds = [None]
        if value and value.startswith('cross'):
            folds = list(range(int(options['num_folds'])))
            if int(options.get('current_fold', 0)) > 0:
                folds = [int(options['current_fold']) - 1]
        ctx.check([c[1].get_fold() for c in calls] == folds, lambda: f'the folds are {[c[1].get_fold() for c in calls]}')
        for c in calls:
            train, test = rows_of(*c[2:4]), rows_of(*c[4:6])
            size = float(options.get('test_size', 0.33)) * n if folds == [None] else n / int(options['num_folds'])
            ctx.check(abs(len(test) - size) < 1, f'the test set has {len(test)} elements')
            ctx.check(sorted(train + test) == sorted(expected), 'the sets are not a partition')
            ctx.outcome((train, test))


def jobs(tier):
    out = []
    for part in ('cv', 'train_test'):
        out += [{'part': part, 'config': c} for c in configs(tier)]
    for layout, nominal, at_start, one_hot in KINDS:
        out.append({'part': 'predefined', 'config': (layout, nominal, at_start, one_hot)})
    out.append({'part': 'cli'})
    return sorted(out, key=lambda j: -j['config'][0] if isinstance(j.get('config', ['x'])[0], int) else 0)


def run(job, ctx):
    import logging
    import shutil
    import tempfile
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        {'cv': run_cv, 'train_test': run_train_test, 'predefined': run_predefined, 'cli': run_cli}[job['part']](job, d, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)
