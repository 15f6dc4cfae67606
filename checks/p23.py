"""
P23: experiments report the results of the right models for the right data.

Experiments are run on real files with a learner that predicts for each example the identity of the model it comes from
(or scripted predictions). All small ground truths and predictions, numbers of folds, step sizes and histories of
previous runs (saved models, parameter files) are enumerated. What is written to the output files is compared to an
independent computation.
"""
import csv
import itertools
import math
import os

import numpy as np

from p20 import Data, data_set, rows_of, write_all
from p21 import dense

PROPERTY = 'P23'
BOUNDS = {'quick': 'all binary ground truths and predictions of up to 2x2 and 3x1 (single- and multi-label), selected '
                   'scores, <= 3 folds, models of size <= 5 with all minimum, maximum and step sizes',
          'thorough': 'ground truths and predictions of up to 3x2, models of size <= 8'}
ASSUMPTIONS = ['Ranking measures are defined by scikit-learn.', 'Data set files are well-formed.']


# ---------------------------------------------------------------------------------------------------------------------
# Measures
# ---------------------------------------------------------------------------------------------------------------------

def ratio(a, b, zero=1.0):
    return a / b if b else zero


def counts(y, p):
    tp = sum(1 for a, b in zip(y, p) if a and b)
    fp = sum(1 for a, b in zip(y, p) if not a and b)
    fn = sum(1 for a, b in zip(y, p) if a and not b)
    return tp, fp, fn


def bipartition(y, p):
    tp, fp, fn = counts(y, p)
    return {'Precision': ratio(tp, tp + fp), 'Recall': ratio(tp, tp + fn), 'F1': ratio(2 * tp, 2 * tp + fp + fn),
            'Jaccard': ratio(tp, tp + fp + fn)}


def mean(values):
    values = list(values)
    return sum(values) / len(values)


def multi_label(y, p):
    n, l = len(y), len(y[0])
    flat_y, flat_p = [v for r in y for v in r], [v for r in p for v in r]
    hamming = mean(a != b for a, b in zip(flat_y, flat_p))
    subset = mean(list(a) == list(b) for a, b in zip(y, p))
    out = {'Hamming Loss': hamming, 'Hamming Accuracy': 1 - hamming, 'Subset Accuracy': subset, 'Subset 0/1 Loss': 1 - subset}
    micro = bipartition(flat_y, flat_p)
    macro = [bipartition([r[j] for r in y], [r[j] for r in p]) for j in range(l)]
    example = [bipartition(y[i], p[i]) for i in range(n)]
    for k in micro:
        out['Micro ' + k] = micro[k]
        out['Macro ' + k] = mean(m[k] for m in macro)
        out['Example-wise ' + k] = mean(m[k] for m in example)
    return out


def single_label(y, p):
    y, p = [v for r in y for v in r], [v for r in p for v in r]
    out = bipartition(y, p)
    out['Accuracy'] = mean(a == b for a, b in zip(y, p))
    out['0/1 Loss'] = 1 - out['Accuracy']
    return out


def regression(y, p):
    l = len(y[0])
    err = [[abs(a - b) for a, b in zip(r, s)] for r, s in zip(y, p)]
    cols = [[r[j] for r in err] for j in range(l)]
    eps = float(np.finfo(np.float64).eps)
    return {'Mean Absolute Error': mean(mean(c) for c in cols), 'Mean Squared Error': mean(mean(e * e for e in c) for c in cols),
            'Median Absolute Error': mean(float(np.median(c)) for c in cols),
            'Mean Absolute Percentage Error':
                mean(mean(e / max(abs(t[j]), eps) for e, t in zip(cols[j], y)) for j in range(l))}


def ranking(y, p):
    """ Measures that depend on the order of the labels are defined by scikit-learn. """
    from sklearn import metrics
    out = regression(y, p)
    if len(y[0]) > 1:
        out.update({'Ranking Loss': metrics.label_ranking_loss(y, p), 'Coverage Error': metrics.coverage_error(y, p),
                    'Label Ranking Average Precision': metrics.label_ranking_average_precision_score(y, p),
                    'Discounted Cumulative Gain': metrics.dcg_score(y, p), 'NDCG': metrics.ndcg_score(y, p)})
    return out


PERCENTAGES = ('NDCG', 'Accuracy', 'Loss', 'Precision', 'Recall', 'F1', 'Jaccard')


def is_percentage(name):
    return name == 'NDCG' or (name not in ('Ranking Loss', 'Label Ranking Average Precision')
                              and any(name.endswith(s) for s in PERCENTAGES))


TIMES = ('Training Time', 'Prediction Time')


def evaluate(kind, y, p):
    if kind == 'binary':
        return multi_label(y, p) if len(y[0]) > 1 else single_label(y, p)
    if kind == 'regression':
        return regression(y, p)
    if len(y[0]) == 1 and len(p[0]) > 1:
        p = [r[-1:] for r in p]
    return ranking(y, p)


def read_csv(path):
    with open(path, encoding='utf-8', newline='') as f:
        return list(csv.DictReader(f))


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9) or (math.isnan(a) and math.isnan(b))


def check_row(ctx, row, expected, percentage=True, what=''):
    """ expected: measures to values (without standard deviations) """
    names = {k for k in row if k not in TIMES and k != 'Model size'}
    if not ctx.check(names == set(expected), lambda: f'{what}the measures {sorted(names)} are reported instead of '
                                                     f'{sorted(expected)}'):
        return
    for k, v in expected.items():
        name = k.replace('Std.-dev. ', '')
        e = v * 100 if percentage and is_percentage(name) else v
        ctx.check(close(float(row[k]), e), lambda: f'{what}{k} is {row[k]} instead of {e}')


def aggregate(results):
    out = {}
    for k in results[0]:
        values = [r[k] for r in results]
        m = mean(values)
        out[k] = m
        out['Std.-dev. ' + k] = math.sqrt(mean((v - m) ** 2 for v in values))
    return out


def writer(kind, d, options=None):
    from mlrl.common.options import Options
    from mlrl.testbed.evaluation import BinaryEvaluationWriter, EvaluationWriter, RankingEvaluationWriter, \
        RegressionEvaluationWriter
    sinks = [EvaluationWriter.CsvSink(output_dir=d, options=options or Options())]
    return {'binary': BinaryEvaluationWriter, 'scores': RankingEvaluationWriter, 'probabilities': RankingEvaluationWriter,
            'regression': RegressionEvaluationWriter}[kind](sinks)


def write(w, kind, y, p, split, data_type=None, scope=None, fmt=('dense', 'dense')):
    from p21 import FORMATS
    from mlrl.testbed.data import MetaData
    from mlrl.testbed.data_splitting import DataType
    from mlrl.testbed.prediction_scope import GlobalPrediction, PredictionType
    from mlrl.testbed.problem_type import ProblemType
    y = FORMATS[fmt[0]](np.array(y, dtype=np.float32 if kind == 'regression' else np.uint8))
    p = FORMATS[fmt[1]](np.array(p, dtype=np.uint8 if kind == 'binary' else np.float64))
    w.write_output(ProblemType.REGRESSION if kind == 'regression' else ProblemType.CLASSIFICATION, MetaData([], [], False),
                   None, y, split, None, data_type=data_type or DataType.TEST,
                   prediction_type=PredictionType.BINARY if kind == 'binary' else PredictionType.SCORES,
                   prediction_scope=scope or GlobalPrediction(), predictions=p, train_time=1.5, predict_time=2.5)


def clear(d):
    for name in os.listdir(d):
        os.remove(os.path.join(d, name))


def matrix(values, n, l):
    return [list(values[i * l:(i + 1) * l]) for i in range(n)]


def measure_cases(tier):
    shapes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3)] + ([(4, 1), (3, 2), (2, 3)] if tier == 'thorough' else [])
    for n, l in shapes:
        for y in itertools.product((0, 1), repeat=n * l):
            for p in itertools.product((0, 1), repeat=n * l):
                yield 'binary', n, l, y, p
    for kind, values in (('scores', (-1.0, 0.5, 2.0)), ('probabilities', (0.0, 0.25, 1.0)), ('regression', (-1.5, 0.0, 3.0))):
        for n, l in [(1, 1), (2, 1), (1, 2)] + ([(2, 2), (1, 3)] if tier == 'thorough' else []):
            for y in itertools.product((0, 1) if kind != 'regression' else (0.0, 2.5), repeat=n * l):
                columns = 2 if kind == 'probabilities' and l == 1 else l
                for p in itertools.product(values, repeat=n * columns):
                    yield kind, n, l, y, p


def run_measures(part, d, ctx):
    from mlrl.testbed.data_splitting import NoSplit, TrainingTestSplit
    for kind, n, l, y, p in part:
        y, p = matrix(y, n, l), matrix(p, n, len(p) // n)
        expected = evaluate(kind, y, p)
        for fmt in (('dense', 'dense'), ('lil', 'csr') if kind == 'binary' else ('lil', 'dense')):
            ctx.case({'kind': kind, 'truth': y, 'predictions': p, 'formats': fmt})
            clear(d)
            write(writer(kind, d), kind, y, p, TrainingTestSplit() if fmt[0] == 'dense' else NoSplit(), fmt=fmt)
            ctx.state()
            ctx.step()
            files = os.listdir(d)
            if ctx.check(files == ['evaluation_test_overall.csv'], f'the files {files} have been written'):
                rows = read_csv(os.path.join(d, files[0]))
                if ctx.check(len(rows) == 1, f'{len(rows)} rows have been written'):
                    check_row(ctx, rows[0], expected)
                    ctx.check(float(rows[0]['Training Time']) == 1.5 and float(rows[0]['Prediction Time']) == 2.5,
                              'the times are wrong')
                    ctx.outcome(sorted(expected.items()))


# ---------------------------------------------------------------------------------------------------------------------
# Options
# ---------------------------------------------------------------------------------------------------------------------

OPTION_NAMES = {
    'binary': {'hamming_loss': 'Hamming Loss', 'hamming_accuracy': 'Hamming Accuracy', 'subset_zero_one_loss': 'Subset 0/1 Loss',
               'subset_accuracy': 'Subset Accuracy',
               **{f'{a}_{b}': f'{c} {d}' for a, c in (('micro', 'Micro'), ('macro', 'Macro'), ('example_wise', 'Example-wise'))
                  for b, d in (('precision', 'Precision'), ('recall', 'Recall'), ('f1', 'F1'), ('jaccard', 'Jaccard'))}},
    'single': {'accuracy': 'Accuracy', 'zero_one_loss': '0/1 Loss', 'precision': 'Precision', 'recall': 'Recall', 'f1': 'F1',
               'jaccard': 'Jaccard'},
    'scores': {'rank_loss': 'Ranking Loss', 'coverage_error': 'Coverage Error', 'lrap': 'Label Ranking Average Precision',
               'dcg': 'Discounted Cumulative Gain', 'ndcg': 'NDCG', 'mean_squared_error': 'Mean Squared Error',
               'mean_absolute_percentage_error': 'Mean Absolute Percentage Error'},
    'regression': {'mean_squared_error': 'Mean Squared Error', 'mean_absolute_error': 'Mean Absolute Error',
                   'mean_absolute_percentage_error': 'Mean Absolute Percentage Error'}}


def run_options(job, d, ctx):
    """ Options select the measures and the format of their values. """
    from mlrl.common.options import Options
    from mlrl.testbed.data_splitting import CrossValidationFold, TrainingTestSplit
    data = {'binary': ('binary', [[1, 0, 0], [0, 1, 1]], [[1, 1, 0], [0, 1, 0]]), 'single': ('binary', [[1], [0], [1]], [[1], [1], [0]]),
            'scores': ('scores', [[1, 0, 0], [0, 1, 1]], [[.5, .1, .7], [.25, .25, .5]]),
            'regression': ('regression', [[1.5, 2.0], [-3.0, 0.5]], [[1.0, 2.5], [-3.25, 1.0]])}
    for name, (kind, y, p) in data.items():
        expected = evaluate(kind, y, p)
        options = OPTION_NAMES[name]
        # OPTION_MEDIAN_ABSOLUTE_ERROR has the same name as OPTION_MEAN_ABSOLUTE_ERROR, both are affected
        subsets = [s for r in (1, 2) for s in itertools.combinations(sorted(options), r)]
        for subset in subsets:
            for enable_all in (None, 'true', 'false'):
                for value in ('true', 'false'):
                    text = ','.join([f'{o}={value}' for o in subset] + ([f'enable_all={enable_all}'] if enable_all else []))
                    ctx.case({'measures': name, 'options': text})
                    enabled = {k: enable_all != 'false' for k in expected}
                    for o in subset:
                        if o == 'mean_absolute_error':
                            enabled['Median Absolute Error'] = value == 'true'
                        enabled[options[o]] = value == 'true'
                    for percentage, decimals in ((None, None), ('false', None), ('true', 3)):
                        more = [t for t in (percentage and f'percentage={percentage}', decimals and f'decimals={decimals}') if t]
                        opts = Options.create('{' + ','.join([text] + more) + '}',
                                              set(options) | {'enable_all', 'percentage', 'decimals'})
                        clear(d)
                        w = writer(kind, d, opts)
                        write(w, kind, y, p, TrainingTestSplit())
                        ctx.state()
                        ctx.step()
                        rows = read_csv(os.path.join(d, 'evaluation_test_overall.csv'))
                        if not any(enabled.values()):
                            continue
                        e = {k: v for k, v in expected.items() if enabled[k]}
                        if decimals:
                            e = {k: round(v * (100 if is_percentage(k) else 1), decimals) / (100 if is_percentage(k) else 1)
                                 for k, v in e.items()}
                        check_row(ctx, rows[0], e, percentage != 'false')
                        ctx.outcome((text, percentage, decimals))
    # The values that are written to the log
    for num_folds in (1, 2):
        run_log(ctx, num_folds, *data['binary'])


def run_log(ctx, num_folds, kind, y, p):
    import logging
    from mlrl.testbed.data_splitting import CrossValidationFold, DataType, TrainingTestSplit
    from mlrl.testbed.evaluation import BinaryEvaluationWriter, EvaluationWriter
    from mlrl.testbed.prediction_scope import GlobalPrediction, IncrementalPrediction
    messages = []

    class Handler(logging.Handler):

        def emit(self, record):
            messages.append(record.getMessage())

    handler, root = Handler(), logging.getLogger()
    level = root.level
    logging.disable(logging.NOTSET)
    root.addHandler(handler)
    root.setLevel(logging.INFO)
    try:
        for data_type in DataType:
            for scope in (GlobalPrediction(), IncrementalPrediction(4)):
                w = BinaryEvaluationWriter([EvaluationWriter.LogSink()])
                expected = evaluate(kind, y, p)
                for fold in range(num_folds):
                    ctx.case({'log': True, 'folds': num_folds, 'fold': fold, 'data': data_type.value})
                    del messages[:]
                    split = TrainingTestSplit() if num_folds == 1 else CrossValidationFold(num_folds, fold, -1)
                    write(w, kind, y, p, split, data_type, scope)
                    ctx.state()
                    ctx.step()
                    last = num_folds > 1 and fold == num_folds - 1
                    if not ctx.check(len(messages) == 1 + last, f'{len(messages)} messages have been written'):
                        continue
                    for i, message in enumerate(messages):
                        title, *lines = [s for s in message.split('\n') if s.strip()]
                        e = 'Evaluation result for ' + data_type.value + ' data' \
                            + (' using a model of size 4' if not scope.is_global() else '') \
                            + ('' if num_folds == 1 else f' (Average across {num_folds} folds)' if i else f' (Fold {fold + 1})') + ':'
                        ctx.check(title == e, lambda: f'the title is "{title}" instead of "{e}"')
                        got = {}
                        for line in lines:
                            name, value = line.rstrip().rsplit(None, 2 if i else 1)[:2]
                            got[name.strip()] = float(value)
                        ctx.check(set(got) == set(expected) and all(abs(got[k] - 100 * expected[k]) < 0.00501 for k in got),
                                  lambda: f'{got} is printed instead of {expected}')
                        if i:
                            ctx.check(all(line.rstrip().endswith('±0.00') for line in lines), 'the deviation is wrong')
    finally:
        root.removeHandler(handler)
        root.setLevel(level)
        logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------------------------------------------------------------
# Cross validation
# ---------------------------------------------------------------------------------------------------------------------

def fold_cases(tier):
    pool = [([[1, 0], [0, 1]], [[1, 0], [1, 1]]), ([[1, 0], [0, 1]], [[0, 1], [1, 0]]), ([[1, 1]], [[1, 1]])]
    for num_folds in (2, 3):
        for content in itertools.product(range(3), repeat=num_folds):
            for sizes in itertools.product((0, 1, 2), repeat=num_folds):
                yield num_folds, content, sizes, pool


def run_folds(part, d, ctx):
    """ The result of each fold and their averages (for models of the same size, if evaluated incrementally). """
    from mlrl.testbed.data_splitting import CrossValidationFold, DataType
    from mlrl.testbed.prediction_scope import GlobalPrediction, IncrementalPrediction
    for num_folds, content, sizes, pool in part:
        for current in range(-1, num_folds):
            if sizes.count(0) not in (0, num_folds):
                continue  # Either all models are evaluated incrementally or none
            ctx.case({'folds': num_folds, 'content': content, 'sizes': sizes, 'fold': current})
            clear(d)
            w = writer('binary', d)
            expected = {}  # (data type, fold) -> list of (size, result)
            history = {}
            for fold in range(num_folds) if current < 0 else [current]:
                for data_type in DataType:
                    for size in range(1, sizes[fold] + 1) if sizes[fold] else [0]:
                        # The result depends on the fold, the model size and the type of data
                        k = (content[fold] + size + (data_type == DataType.TRAINING)) % 3
                        y, p = pool[k]
                        write(w, 'binary', y, p, CrossValidationFold(num_folds, fold, current), data_type,
                              IncrementalPrediction(size) if size else GlobalPrediction())
                        ctx.step()
                        result = evaluate('binary', y, p)
                        expected.setdefault((data_type.value, fold), []).append((size, result))
                        history.setdefault((data_type.value, size), []).append(result)
                        if current < 0 and fold == num_folds - 1:
                            expected.setdefault((data_type.value, None), []).append(
                                (size, aggregate(history[(data_type.value, size)])))
            ctx.state()
            names = {f'evaluation_{t}_' + ('overall' if f is None else f'fold-{f + 1}') + '.csv' for t, f in expected}
            ctx.check(set(os.listdir(d)) == names, lambda: f'the files {os.listdir(d)} exist instead of {names}')
            for (t, f), results in expected.items():
                path = os.path.join(d, f'evaluation_{t}_' + ('overall' if f is None else f'fold-{f + 1}') + '.csv')
                if not os.path.exists(path):
                    continue
                rows = read_csv(path)
                if ctx.check(len(rows) == len(results), lambda: f'{len(rows)} rows instead of {len(results)} in {path}'):
                    for row, (size, result) in zip(rows, results):
                        if size:
                            ctx.check(row.get('Model size') == str(size), 'the size of the model is wrong')
                        row = {k: v for k, v in row.items() if k.replace('Std.-dev. ', '') not in TIMES}
                        check_row(ctx, row, result, what=f'{os.path.basename(path)}: ')
                        ctx.outcome(sorted(result.items()))


# ---------------------------------------------------------------------------------------------------------------------
# Incremental evaluation
# ---------------------------------------------------------------------------------------------------------------------

LOG = []


def learner_types():
    """ A learner that predicts the identity of the model (and the number of its members that have been used). """
    from mlrl.common.mixins import ClassifierMixin, IncrementalClassifierMixin, IncrementalPredictor, \
        NominalFeatureSupportMixin, OrdinalFeatureSupportMixin

    class Predictor(IncrementalPredictor):

        def __init__(self, model, x, how):
            self.model, self.x, self.how, self.used = model, x, how, 0

        def get_num_next(self):
            return self.model.size - self.used

        def apply_next(self, step_size):
            self.used += min(step_size, self.model.size - self.used)
            LOG.append(('apply', self.used))
            return self.model.answer(self.x, self.used, self.how)

    class Learner(ClassifierMixin, IncrementalClassifierMixin, OrdinalFeatureSupportMixin, NominalFeatureSupportMixin):

        def __init__(self, size=3, name='a'):
            self.size, self.name = size, name
            self.trained = None
            self.ordinal, self.nominal = None, None

        ordinal_feature_indices = property(lambda self: self.ordinal, lambda self, v: setattr(self, 'ordinal', v))
        nominal_feature_indices = property(lambda self: self.nominal, lambda self, v: setattr(self, 'nominal', v))

        def set_ordinal_feature_indices(self, indices):
            self.ordinal = indices

        def set_nominal_feature_indices(self, indices):
            self.nominal = indices

        def __getstate__(self):
            return self.__dict__

        def answer(self, x, used, how):
            return ANSWER(self, x, used, how)

        def fit(self, x, y, **kwargs):
            LOG.append(('fit', self.name, self.size, rows_of(x, y), self.trained, tuple(self.ordinal or ()),
                        tuple(self.nominal or ()), tuple(sorted(kwargs.items()))))
            self.trained = rows_of(x, y)
            return self

        def _fit(self, x, y, **kwargs):
            raise NotImplementedError

        def predict(self, x, **kwargs):
            scores = kwargs.pop('predict_scores', False)
            LOG.append(('predict', tuple(sorted(kwargs.items()))))
            return self.answer(x, self.size, 'scores' if scores else 'binary')

        def _predict_binary(self, x, **kwargs):
            raise NotImplementedError

        def _predict_scores(self, x, **kwargs):
            raise NotImplementedError

        def predict_proba(self, x, **kwargs):
            LOG.append(('predict', tuple(sorted(kwargs.items()))))
            return self.answer(x, self.size, 'probabilities')

        def predict_incrementally(self, x, **kwargs):
            scores = kwargs.pop('predict_scores', False)
            LOG.append(('predict', tuple(sorted(kwargs.items()))))
            return Predictor(self, x, 'scores' if scores else 'binary')

        def predict_proba_incrementally(self, x, **kwargs):
            LOG.append(('predict', tuple(sorted(kwargs.items()))))
            return Predictor(self, x, 'probabilities')

    for t in (Learner, Predictor):
        t.__module__, t.__qualname__ = __name__, t.__name__
        globals()[t.__name__] = t
    return Learner


ANSWER = None


class Collector:
    """ An output writer that records what it is given. """

    def __new__(cls):
        from mlrl.testbed.output_writer import OutputWriter

        class Writer(OutputWriter):

            def __init__(self):
                super().__init__([object()])
                self.calls = []

            def write_output(self, problem_type, meta_data, x, y, data_split, learner, data_type=None, prediction_type=None,
                             prediction_scope=None, predictions=None, train_time=0, predict_time=0):
                self.calls.append((data_split, data_type, prediction_type, prediction_scope, rows_of(x, y), predictions,
                                   learner))

            def _generate_output_data(self, *_):
                return None

        return Writer()


def run_incremental(job, d, ctx):
    global ANSWER
    from mlrl.testbed.data import MetaData
    from mlrl.testbed.data_splitting import DataType, TrainingTestSplit
    from mlrl.testbed.experiments import GlobalEvaluation, IncrementalEvaluation
    from mlrl.testbed.prediction_scope import PredictionType
    from mlrl.testbed.problem_type import ProblemType
    learner = learner_types()
    ANSWER = lambda self, x, used, how: (used, how)
    bound = 5 if job['tier'] == 'quick' else 8
    x, y = np.zeros((1, 1)), np.zeros((1, 1))
    for size in range(bound + 1):
        for lo in range(bound + 2):
            for hi in [0] + list(range(lo + 1, bound + 3)):
                for step in range(1, bound + 2):
                    for kind in PredictionType:
                        ctx.case({'size': size, 'min_size': lo, 'max_size': hi, 'step_size': step, 'type': kind.value})
                        collector = Collector()
                        del LOG[:]
                        e = IncrementalEvaluation(kind, [collector], min_size=lo, max_size=hi, step_size=step)
                        e.predict_and_evaluate(ProblemType.CLASSIFICATION, MetaData([], [], False), TrainingTestSplit(),
                                               DataType.TEST, 0, learner(size=size), x, y, sparse_feature_value=1.0)
                        total = min(size, hi) if hi else size
                        expected, n = [], 0
                        while n < total:
                            n = min(total, n + (lo if n == 0 and lo else step))
                            expected.append(n)
                        got = [(c[3].get_model_size(), c[5]) for c in collector.calls]
                        ctx.check(got == [(n, (n, kind.value)) for n in expected],
                                  lambda: f'the evaluated models are {got} instead of {expected}')
                        ctx.check(LOG[0] == ('predict', (('sparse_feature_value', 1.0),)),
                                  lambda: f'the arguments are {LOG[0]}')
                        ctx.check(all(not c[3].is_global() and c[2] == kind and c[1] == DataType.TEST
                                      for c in collector.calls), 'the scope is wrong')
                        ctx.state()
                        ctx.step(len(expected) or 1)
                        ctx.outcome(expected)
    for kind in PredictionType:
        ctx.case({'type': kind.value, 'global': True})
        collector = Collector()
        del LOG[:]
        GlobalEvaluation(kind, [collector]).predict_and_evaluate(
            ProblemType.CLASSIFICATION, MetaData([], [], False), TrainingTestSplit(), DataType.TRAINING, 0, learner(size=4), x, y,
            sparse_feature_value=1.0)
        ctx.check(len(collector.calls) == 1 and collector.calls[0][5] == (4, kind.value) and collector.calls[0][3].is_global()
                  and collector.calls[0][1] == DataType.TRAINING, 'the predictions are wrong')
        ctx.check(LOG[0] == ('predict', (('sparse_feature_value', 1.0),)), lambda: f'the arguments are {LOG[0]}')
        ctx.state()


# ---------------------------------------------------------------------------------------------------------------------
# Experiments
# ---------------------------------------------------------------------------------------------------------------------

def experiment_cases(tier):
    for strategy in ('none', 'train-test', 'predefined', 'cv2', 'cv3', 'cv2-predefined'):
        num_models = {'cv2': 2, 'cv3': 3, 'cv2-predefined': 2}.get(strategy, 1)
        for current in range(-1, num_models if num_models > 1 else 0):
            for saved in range(1 << num_models):
                for params in range(1 << num_models):
                    for incremental in (False, True):
                        for train in (False, True):
                            for one_hot in (False, True):
                                yield strategy, num_models, current, saved, params, incremental, train, one_hot


def run_experiments(part, d, ctx):
    """ The models of previous runs, parameter files, etc. are used for the data they belong to. """
    global ANSWER
    from mlrl.testbed.data_splitting import CrossValidationFold, CrossValidationSplitter, DataType, NoSplitter, TrainTestSplitter, \
        TrainingTestSplit
    from mlrl.testbed.experiments import Experiment, GlobalEvaluation, IncrementalEvaluation
    from mlrl.testbed.parameters import ParameterCsvInput
    from mlrl.testbed.persistence import ModelPersistence
    from mlrl.testbed.prediction_scope import PredictionType
    from mlrl.testbed.problem_type import ProblemType
    learner = learner_types()
    ANSWER = lambda self, x, used, how: (tuple(self.trained), used, self.size, tuple(map(tuple, dense(x).tolist())))
    data_dir, model_dir, param_dir = (os.path.join(d, n) for n in ('data', 'models', 'parameters'))
    for name in (data_dir, model_dir, param_dir):
        os.makedirs(name, exist_ok=True)
    for strategy, num_models, current, saved, params, incremental, train, one_hot in part:
        ctx.case({'split': strategy, 'fold': current, 'saved': saved, 'parameters': params, 'incremental': incremental,
                  'training data': train, 'one-hot': one_hot})
        data = Data(5, 'dense', True, False)
        files = {'d': data}
        if strategy == 'predefined':
            files = {'d_training': Data(3, 'dense', True, False), 'd_test': Data(2, 'dense', True, False, 3)}
        elif strategy == 'cv2-predefined':
            files = {'d_fold-1': Data(3, 'dense', True, False), 'd_fold-2': Data(2, 'dense', True, False, 3)}
        write_all(data_dir, files)
        clear(model_dir)
        clear(param_dir)

        def splitter():
            s = data_set(data_dir, one_hot)
            if strategy.startswith('cv'):
                return CrossValidationSplitter(s, num_models, current, 3)
            return NoSplitter(s) if strategy == 'none' else TrainTestSplitter(s, 0.4, 3)

        # What the splits are (P20 is concerned with their correctness)
        from p20 import Recorder
        recorder = Recorder()
        splitter().run(recorder)
        splits = [(c[1].get_fold(), rows_of(*c[2:4]), rows_of(*c[4:6])) for c in recorder.calls]
        # Models that have been saved by previous runs
        persistence = ModelPersistence(model_dir)
        for i in range(num_models):
            if saved >> i & 1:
                old = learner(size=2 + i, name='old')
                old.trained = [('saved', i)]
                persistence.save_model(old, 'test', CrossValidationFold(num_models, i, -1) if num_models > 1 else TrainingTestSplit())
        for i in range(num_models):
            if params >> i & 1:
                name = f'parameters_fold-{i + 1}.csv' if num_models > 1 else 'parameters_overall.csv'
                with open(os.path.join(param_dir, name), 'w', encoding='utf-8') as f:
                    f.write(f'name,size\nparam{i},3\n')
        test, training, before, after = Collector(), Collector(), Collector(), Collector()
        base = learner(size=3, name='base')

        def evaluation(w):
            return IncrementalEvaluation(PredictionType.SCORES, [w], 0, 0, 2) if incremental else \
                GlobalEvaluation(PredictionType.SCORES, [w])

        del LOG[:]
        # Sizes that are read from files are strings
        original = learner.set_params
        learner.set_params = lambda self, **kw: original(self, **{k: int(v) if k == 'size' else v for k, v in kw.items()})
        Experiment(problem_type=ProblemType.CLASSIFICATION, base_learner=base, learner_name='test', data_splitter=splitter(),
                   pre_training_output_writers=[before], post_training_output_writers=[after],
                   train_evaluation=evaluation(training) if train else None, test_evaluation=evaluation(test),
                   parameter_input=ParameterCsvInput(param_dir), persistence=persistence,
                   fit_kwargs={'sparse_feature_value': 2.0}, predict_kwargs={'sparse_feature_value': 2.0}).run()
        ctx.state()
        ctx.step(len(splits))
        fits = [e for e in LOG if e[0] == 'fit']
        expected_fits, expected_test, expected_train = [], [], []
        nominal = () if one_hot else (1,)
        kwargs = (('sparse_feature_value', 2.0),)
        for fold, train_rows, test_rows in splits:
            i = fold or 0
            name = f'param{i}' if params >> i & 1 else 'base'
            if saved >> i & 1:
                trained = (('saved', i),)
            else:
                trained = tuple(train_rows)
                expected_fits.append(('fit', name, 3, train_rows, None, (), nominal, kwargs))
            for rows, out in ((test_rows, expected_test), (train_rows, expected_train)):
                if out is expected_train and (not train or strategy == 'none'):
                    continue
                for used in (2, 3) if incremental else (3,):
                    out.append((fold, used if incremental else 0, rows, (trained, used, 3, tuple(r[0] for r in rows))))
        ctx.check(fits == expected_fits, lambda: f'{fits} has been trained instead of {expected_fits}')
        for collector, expected, data_type in ((test, expected_test, DataType.TRAINING if strategy == 'none' else DataType.TEST),
                                               (training, expected_train, DataType.TRAINING)):
            got = [(c[0].get_fold(), c[3].get_model_size(), c[4], c[5]) for c in collector.calls]
            ctx.check(got == expected, lambda: f'{got} has been evaluated instead of {expected}')
            ctx.check(all(c[1] == data_type for c in collector.calls), 'the type of the data is wrong')
        for collector in (before, after):
            got = [(c[0].get_fold(), c[4]) for c in collector.calls]
            ctx.check(got == [(f, t) for f, t, _ in splits], lambda: f'output has been written for {got}')
        ctx.check(all(e[1] == kwargs for e in LOG if e[0] == 'predict'), 'the arguments are wrong')
        ctx.check(base.trained is None and base.name == 'base', 'the original learner has been modified')
        # The models that are saved afterwards
        expected = sorted(set(f for f, _, _ in splits) | {i if num_models > 1 else None for i in range(num_models) if saved >> i & 1},
                          key=str)
        names = {'test_overall.model' if f is None else f'test_fold-{f + 1}.model' for f in expected}
        ctx.check(set(os.listdir(model_dir)) == names, lambda: f'the models {os.listdir(model_dir)} have been saved')
        for fold, train_rows, _ in splits:
            m = persistence.load_model('test', CrossValidationFold(num_models, fold, -1) if fold is not None else TrainingTestSplit())
            i = fold or 0
            ctx.check(m is not None and list(m.trained) == ([('saved', i)] if saved >> i & 1 else train_rows),
                      'the wrong model has been saved')
        ctx.outcome((fits, len(expected_test)))
        learner.set_params = original


# ---------------------------------------------------------------------------------------------------------------------

PARTS = {'measures': (measure_cases, run_measures, 60), 'folds': (fold_cases, run_folds, 40),
         'experiments': (experiment_cases, run_experiments, 40)}
SINGLE = {'options': run_options, 'incremental': run_incremental}


def jobs(tier):
    out = [{'part': part, 'tier': tier} for part in SINGLE]
    for part, (cases, _, chunk) in PARTS.items():
        total = sum(1 for _ in cases(tier))
        for lo in range(0, total, chunk):
            out.append({'part': part, 'lo': lo, 'hi': min(total, lo + chunk), 'tier': tier})
    return out


def run(job, ctx):
    import logging
    import shutil
    import tempfile
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        if job['part'] in SINGLE:
            SINGLE[job['part']](job, d, ctx)
        else:
            cases, check, _ = PARTS[job['part']]
            check(itertools.islice(cases(job['tier']), job['lo'], job['hi']), d, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)
