"""
P24: whatever is printed or written to a file about a model, a data set or predictions, describes them faithfully.

All small models, calibration models, label vectors, data sets and predictions are passed to the real writers with all
combinations of options and sinks. An independent parser reads what has been logged or written and the information it
obtains is compared to the subject of the report.
"""
import csv
import itertools
import logging
import math
import os
import re

import numpy as np
import scipy.sparse as sp

import harness as h
from p08 import version_of
from p21 import dense, read_arff, write_arff, write_xml

PROPERTY = 'P24'
BOUNDS = {'quick': 'models with <= 2 rules (plus default rule) and bodies with <= 2 conditions, two lists of <= 2 bins, '
                   'binary matrices of up to 2x3 and 3x2 (and selected ones with up to 1001 columns), predictions of up to 2x2, all combinations of options',
          'thorough': 'bodies with <= 3 conditions, <= 3 lists of <= 3 bins, binary matrices up to 3x3, predictions up to 3x2'}
ASSUMPTIONS = ['Names of features and outputs are alphanumeric.', 'Rules without conditions are default rules.',
               'Zeros that are explicitly stored count as values of features (their meaning depends on the parameter '
               '"sparse_feature_value"), but not as relevant labels.']
CHUNK = 150
SYMBOLS = {'numerical_leq': '<=', 'numerical_gr': '>', 'ordinal_leq': '<=', 'ordinal_gr': '>', 'nominal_eq': '==',
           'nominal_neq': '!='}


# ---------------------------------------------------------------------------------------------------------------------
# Capturing and parsing output
# ---------------------------------------------------------------------------------------------------------------------

class Log(logging.Handler):
    """ Collects everything that is logged by the testbed. """

    def __init__(self):
        super().__init__()
        self.messages = []

    def emit(self, record):
        self.messages.append((record.levelno, record.getMessage()))

    def __enter__(self):
        root = logging.getLogger()
        self.saved = root.level, root.handlers[:]
        root.handlers[:] = [self]
        root.setLevel(logging.INFO)
        return self

    def __exit__(self, *_):
        root = logging.getLogger()
        root.handlers[:] = self.saved[1]
        root.setLevel(self.saved[0])

    def body(self, title):
        """ The only message, without its title. """
        infos = [m for l, m in self.messages if l == logging.INFO and m.startswith(title)]
        if len(infos) != 1:
            return None
        head, sep, body = infos[0].partition(':\n\n')
        return body if sep else None


def read_csv(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.DictReader(f))


def table(text):
    """ Parses a table that is surrounded by lines or a plain one. Returns a list of lists of cells. """
    rows = []
    lines = text.split('\n')
    if any('│' in line for line in lines):
        for i in range(len(lines) - 1, 0, -1):  # Cells may contain line breaks
            if lines[i] and lines[i][0] not in '┌├└│':
                lines[i - 1:i + 1] = [lines[i - 1] + ' ' + lines[i]]
        for line in lines:
            if line.startswith('│'):
                rows.append([c.strip() for c in line.strip('│').split('│')])
            elif rows and line.startswith('└'):
                rows.append(None)
        return rows
    return [re.split(r'\s{2,}', line.strip()) for line in lines if line.strip()]


def tables(text):
    """ Splits the tables of a text. """
    out, current = [], []
    for row in table(text):
        if row is None:
            out.append(current)
            current = []
        else:
            current.append(row)
    return out + ([current] if current else [])


def near(text, value, decimals):
    """ Whether a number has been printed with a given number of decimals (0, if unrestricted). """
    try:
        v = float(text)
    except (TypeError, ValueError):
        return False
    if math.isnan(value) or math.isinf(value):
        return str(v) == str(float(value))
    if decimals > 0:
        return bool(re.match(r'^-?\d+\.\d{%d}$' % decimals, text)) and abs(v - value) <= 0.5000001 * 10 ** -decimals
    return abs(v - value) <= 1e-6 * max(1, abs(value))


def near_table(text, value, decimals):
    """ Numbers in tables are additionally rounded to six significant digits and trailing zeros are omitted. """
    try:
        return abs(float(text) - value) <= (0.5000001 * 10 ** -decimals if decimals > 0 else 0) + 6e-6 * abs(value)
    except (TypeError, ValueError):
        return False


def options(**kwargs):
    from mlrl.common.options import Options
    text = ','.join(f'{k}={str(v).lower() if isinstance(v, bool) else v}' for k, v in kwargs.items())
    return Options.create('{' + text + '}', set(kwargs))


def meta(features, num_outputs):
    from mlrl.testbed.data import Feature, MetaData, Output
    return MetaData([Feature(n, t, v) for n, t, v in features], [Output(f'Out{i}') for i in range(num_outputs)],
                    outputs_at_start=False)


_STATE = {}


def state():
    if not _STATE:
        from mlrl.testbed.data import FeatureType as T
        x = np.array([[0, 0, 0], [1, 1, 1], [2, 0, 1]], dtype=np.float32)
        y = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 1]], dtype=np.uint8)
        _STATE['boomer'] = h.make('boomer', max_rules=2, statistic_format='dense').fit(x, y)
        _STATE['features'] = [('Num', T.NUMERICAL, None), ('Ord', T.ORDINAL, ['low', 'mid', 'high']),
                              ('Nom', T.NOMINAL, ['red', 'green', 'blue'])]
        _STATE['meta'] = meta(_STATE['features'], 3)
    return _STATE


def split(fold=None, folds=3):
    from mlrl.testbed.data_splitting import CrossValidationFold, NoSplit
    return NoSplit() if fold is None else CrossValidationFold(num_folds=folds, fold=fold, current_fold=-1)


def write(writer, **kwargs):
    from mlrl.testbed.problem_type import ProblemType
    args = dict(problem_type=ProblemType.CLASSIFICATION, meta_data=state()['meta'], x=None, y=np.zeros((1, 3)),
                data_split=split(), learner=state()['boomer'])
    args.update(kwargs)
    writer.write_output(**args)


def clear(d):
    for name in os.listdir(d):
        os.unlink(os.path.join(d, name))


# ---------------------------------------------------------------------------------------------------------------------
# Rules and model characteristics
# ---------------------------------------------------------------------------------------------------------------------

CONDITIONS = [('numerical_leq', 0, 0.125), ('numerical_leq', 0, 2.0), ('numerical_gr', 0, -1.625),
              ('ordinal_leq', 1, 1), ('ordinal_gr', 1, 0), ('nominal_eq', 2, 2), ('nominal_neq', 2, 0),
              ('nominal_neq', 2, 1)]
COMPLETE = ({0: 0.5, 1: -0.125, 2: 0.0}, True)
HEADS = [COMPLETE, ({1: 0.75}, False), ({0: -0.5, 2: 0.257}, False)]
DEFAULT = (None, {0: -0.5, 1: 0.25, 2: 1e-5}, True)


def bodies(size):
    return [b for n in range(1, size + 1) for b in itertools.combinations(CONDITIONS, n)]


def models(tier):
    """ (rules, default_first, num_used) """
    res = []
    many = bodies(2 if tier == 'quick' else 3)
    for i, body in enumerate(many):
        for head in HEADS if tier != 'quick' or len(body) == 1 else HEADS[i % 3:i % 3 + 1]:
            res.append(([(body, *head)], False, 0))
    few = bodies(1) + [bodies(2)[k] for k in (9, 20, 30)]
    for i, (a, b) in enumerate(itertools.product(few, repeat=2)):
        rules = [(a, *HEADS[i % 3]), (b, *HEADS[(i + 1) % 3])]
        res.append((rules, False, (0, 1, 2)[i % 3]))
        if i % 4 == 0 or tier != 'quick':
            for default_first, used in ((True, 0), (False, 0), (True, 1), (True, 2), (False, 1), (False, 2)):
                full = [DEFAULT] + rules if default_first else rules + [DEFAULT]
                res.append((full, default_first, used))
    res += [([DEFAULT], True, 0), ([], False, 0)]
    return res


def rule_options():
    flags = ('print_feature_names', 'print_output_names', 'print_nominal_values', 'print_bodies', 'print_heads')
    out = [{}]
    for values in itertools.product((True, False), repeat=5):
        out.append(dict(zip(flags, values)))
    out += [{'decimals_body': a, 'decimals_head': b} for a in (0, 1, 3) for b in (0, 1, 4)]
    return out


def parse_rule(line):
    m = re.match(r'^(\{(.*?)\})?( => )?(\((.*)\))?$', line)
    if m is None or bool(m.group(3)) != bool(m.group(1) and m.group(4)):
        return None
    body = None
    if m.group(1):
        body = []
        for text in m.group(2).split(' & ') if m.group(2) else ():
            c = re.match(r'^(\S+) (<=|>|==|!=) (\S+)$', text)
            if not c:
                return None
            body.append(c.groups())
    head = None
    if m.group(4):
        head = []
        for text in m.group(5).split(', '):
            c = re.match(r'^(\S+) = (\S+)$', text)
            if not c:
                return None
            head.append(c.groups())
    return body, head


def check_rules(ctx, text, rules, o, features):
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    show_body, show_head = o.get('print_bodies', True), o.get('print_heads', True)
    if not show_body and not show_head:
        return ctx.check(not text.strip(), f'rules are printed despite of options: {text!r}')
    if not ctx.check(len(lines) == len(rules), f'{len(rules)} rules are used, but {len(lines)} are printed: {text!r}'):
        return False
    for line, (conditions, head, _) in zip(lines, rules):
        parsed = parse_rule(line)
        if not ctx.check(parsed is not None, f'rule cannot be parsed: {line!r}'):
            return False
        body, scores = parsed
        if not ctx.check((body is not None) == show_body and (scores is not None) == show_head,
                         f'options {o} are not respected by {line!r}'):
            return False
        if show_body:
            left = list(body)
            for kind, f, t in conditions or ():
                name = features[f][0] if o.get('print_feature_names', True) and f < len(features) else str(f)
                values = features[f][2] if f < len(features) else None
                found = None
                for c in left:
                    if c[0] == name and c[1] == SYMBOLS[kind]:
                        if values is not None:
                            same = c[2] == ('"' + values[int(t)] + '"' if o.get('print_nominal_values', True)
                                            else str(int(t)))
                        else:
                            same = near(c[2], float(np.float32(t)), o.get('decimals_body', 2))
                        if same:
                            found = c
                            break
                if not ctx.check(found is not None, f'condition {kind}[{f}] {t} is missing in {line!r} ({o})'):
                    return False
                left.remove(found)
            if not ctx.check(not left, f'conditions {left} do not exist: {line!r}'):
                return False
        if show_head:
            got = dict(scores)
            names = {i: f'Out{i}' if o.get('print_output_names', True) else str(i) for i in head}
            if not ctx.check(len(got) == len(scores) and set(got) == set(names.values())
                             and all(near(got[names[i]], v, o.get('decimals_head', 2)) for i, v in head.items()),
                             f'head {head} is printed as {scores} ({o})'):
                return False
    return True


def used_rules(rules, default_first, num_used):
    # The default rule is taken into account in addition to the rules that are used
    if not num_used:
        return rules
    real = [r for r in rules if r[0] is not None]
    default = [r for r in rules if r[0] is None]
    real = real[:num_used]
    return default + real if default_first else real + default


def run_rules(job, d, ctx):
    from mlrl.testbed.models import ModelWriter, RuleModelWriter
    s = state()
    learner = s['boomer']
    all_options = rule_options()
    for i, (rules, default_first, num_used) in job:
        model = h.craft(rules, default_first, num_used)
        learner.model_ = model
        shown = [(r.conditions if not r.default else None, r.head, r.complete) for r in h.rules_of(model, used=True)]
        for o in all_options if i % 5 == 0 else all_options[:1] + all_options[1 + i % 41::41]:
            for sinks in ('both', 'log', 'txt') if not o else ('both',):
                fold = (None, 0, 1)[i % 3]
                features = s['features'] if i % 4 else []
                ctx.case({'rules': rules, 'default_first': default_first, 'num_used': num_used, 'options': o,
                          'sinks': sinks, 'fold': fold, 'features': len(features)})
                clear(d)
                log_sink, txt_sink = ModelWriter.LogSink(options(**o)), ModelWriter.TxtSink(d, options(**o))
                with Log() as log:
                    write(RuleModelWriter({'both': [log_sink, txt_sink], 'log': [log_sink], 'txt': [txt_sink]}[sinks]),
                          data_split=split(fold), meta_data=meta(features, 3))
                if sinks != 'txt':
                    text = log.body('Model')
                    ctx.check(text is not None, 'nothing is logged')
                    check_rules(ctx, text[:-1] if text else '', shown, o, features)
                if sinks != 'log':
                    name = 'rules_overall.txt' if fold is None else f'rules_fold-{fold + 1}.txt'
                    if ctx.check(os.listdir(d) == [name], f'files {os.listdir(d)} have been written'):
                        with open(os.path.join(d, name), encoding='utf-8') as f:
                            check_rules(ctx, f.read(), shown, o, features)
                ctx.state()
                ctx.outcome(('rules', len(shown), tuple(sorted(o.items()))))
    return True


def counts(rule):
    conditions, head, _ = rule
    c = {k: sum(1 for kind, _, _ in conditions or () if kind == k) for k in SYMBOLS}
    pos = sum(1 for v in head.values() if v > 0)
    return c, pos, len(head) - pos


def run_characteristics(job, d, ctx):
    from mlrl.testbed.model_characteristics import ModelCharacteristicsWriter, RuleModelCharacteristicsWriter
    learner = state()['boomer']
    for i, (rules, default_first, num_used) in job:
        model = h.craft(rules, default_first, num_used)
        learner.model_ = model
        shown = [(r.conditions if not r.default else None, r.head, r.complete) for r in h.rules_of(model, used=True)]
        fold = (None, 0, 1)[i % 3]
        for sinks in ('both', 'log', 'csv'):
            ctx.case({'characteristics': rules, 'default_first': default_first, 'num_used': num_used, 'sinks': sinks,
                      'fold': fold})
            clear(d)
            log_sink, csv_sink = ModelCharacteristicsWriter.LogSink(), ModelCharacteristicsWriter.CsvSink(d)
            with Log() as log:
                write(RuleModelCharacteristicsWriter({'both': [log_sink, csv_sink], 'log': [log_sink],
                                                      'csv': [csv_sink]}[sinks]), data_split=split(fold))
            ctx.state()
            if sinks != 'log' and shown:
                name = f'model_characteristics_{"overall" if fold is None else "fold-" + str(fold + 1)}.csv'
                if ctx.check(os.listdir(d) == [name], f'files {os.listdir(d)} have been written'):
                    got = read_csv(os.path.join(d, name))
                    expected = []
                    for k, rule in enumerate(shown):
                        c, pos, neg = counts(rule)
                        expected.append({
                            'Rule': f'Rule {k + 1}' + (' (Default rule)' if rule[0] is None else ''),
                            'conditions': sum(c.values()),
                            'numerical conditions': c['numerical_leq'] + c['numerical_gr'],
                            'numerical <= operator': c['numerical_leq'], 'numerical > operator': c['numerical_gr'],
                            'ordinal conditions': c['ordinal_leq'] + c['ordinal_gr'],
                            'ordinal <= operator': c['ordinal_leq'], 'ordinal > operator': c['ordinal_gr'],
                            'nominal conditions': c['nominal_eq'] + c['nominal_neq'],
                            'nominal == operator': c['nominal_eq'], 'nominal != operator': c['nominal_neq'],
                            'predictions': pos + neg, 'pos. predictions': pos, 'neg. predictions': neg})
                    ctx.check(got == [{k: str(v) for k, v in row.items()} for row in expected],
                              f'characteristics are {got} instead of {expected}')
            if sinks != 'csv':
                text = log.body('Model characteristics')
                if ctx.check(text is not None, 'nothing is logged'):
                    check_summary(ctx, tables(text), shown)
    return True


def number(text):
    return float(text.rstrip('%'))


def check_summary(ctx, got, shown):
    local = [counts(r) for r in shown if r[0] is not None]
    default = [counts(r) for r in shown if r[0] is None]
    conditions = [sum(c.values()) for c, _, _ in local]
    predictions = [p + n for _, p, n in local]

    def percent(values, total):
        return [100 * v / total if total else 0.0 for v in values]
    want1 = ([[0] + [0] * 6] if default else []) + \
        [[sum(conditions)] + percent([sum(c[k] for c, _, _ in local) for k in SYMBOLS], sum(conditions))]
    want2 = ([[default[0][1] + default[0][2]] + percent(default[0][1:], default[0][1] + default[0][2])]
             if default else []) + \
        [[sum(predictions)] + percent([sum(p for _, p, _ in local), sum(n for _, _, n in local)], sum(predictions))]

    def stats(v):
        return [min(v), sum(v) / len(v), max(v)] if v else [0.0] * 3
    want3 = [stats(conditions), stats(predictions)]
    if not ctx.check(len(got) == 3, f'{len(got)} tables are printed'):
        return
    titles1 = (['Default rule'] if default else []) + [f'{len(local)} local rules']
    for rows, want, titles in zip(got, (want1, want2, want3), (titles1, titles1, ['Conditions', 'Predictions'])):
        ctx.check([r[0] for r in rows[1:]] == titles
                  and all(len(r) - 1 == len(w) and all(abs(number(a) - b) <= 0.00501 for a, b in zip(r[1:], w))
                          for r, w in zip(rows[1:], want)),
                  f'{rows} is printed instead of {titles}, {want}')


# ---------------------------------------------------------------------------------------------------------------------
# Label vectors
# ---------------------------------------------------------------------------------------------------------------------

def formats(y):
    return [('dense', y), ('fortran', np.asfortranarray(y))] + \
        [(cls.__name__, cls(y)) for cls in (sp.csr_array, sp.csc_array, sp.lil_array, sp.coo_array, sp.csr_matrix)]


def loaded(y, d):
    """ The label matrices that are loaded from ARFF files that store all values or only those that are not zero. """
    from mlrl.testbed.data import load_data_set_and_meta_data
    out = []
    names = [f'l{j}' for j in range(y.shape[1])]
    write_xml(os.path.join(d, 'in.xml'), names)
    for layout in ('dense', 'explicit', 'sparse'):
        write_arff(os.path.join(d, 'in.arff'), 'in', [('f', 'NUMERIC')] + [(n, ['0', '1']) for n in names],
                   [['1'] + [str(int(v)) for v in row] for row in y], layout)
        out.append(('loaded-' + layout, load_data_set_and_meta_data(d, 'in.arff', 'in.xml')[1]))
    return out


def parse_vector(text):
    m = re.match(r'^\[([\d\s]*)\]$', text)
    return [int(v) for v in m.group(1).split()] if m else None


def check_label_vectors(ctx, rows, expected, sparse, num_labels):
    """ rows: (index, label vector, frequency) """
    got = {}
    for k, (index, vector, frequency) in enumerate(rows):
        v = parse_vector(vector)
        if not ctx.check(v is not None and index == str(k + 1), f'cannot parse row {index, vector, frequency}'):
            return
        key = tuple(v) if sparse else tuple(j for j, b in enumerate(v) if b)
        if not ctx.check((sparse or len(v) == num_labels) and key not in got,
                         f'label vector {vector} is ill-formed or a duplicate'):
            return
        got[key] = int(frequency)
    ctx.check(got == expected, f'label vectors are {got} instead of {expected}')


def run_label_vectors(job, d, ctx):
    from mlrl.common.cython.output_space_info import LabelVectorSet
    from mlrl.testbed.label_vectors import LabelVectorSetWriter, LabelVectorWriter
    learner = state()['boomer']
    info = version_of(LabelVectorSet, 3)
    for i, y in job:
        y = np.asarray(y, dtype=np.uint8)
        expected = {}
        for row in y:
            key = tuple(int(j) for j in np.nonzero(row)[0])
            expected[key] = expected.get(key, 0) + 1
        cases = [(name, m, cls) for name, m in formats(y) + loaded(y, d) for cls in (LabelVectorWriter, LabelVectorSetWriter)] + \
            [('set', y, LabelVectorSetWriter)]
        for name, m, cls in cases:
            for sparse in (None, False, True):
                for sinks in ('both', 'log', 'csv') if name in ('dense', 'csr_array', 'set') else ('both',):
                    fold = (None, 1)[i % 2]
                    ctx.case({'label_vectors': y.tolist() if y.size < 100 else [i, y.shape], 'format': name, 'writer': cls.__name__, 'sparse': sparse,
                              'sinks': sinks, 'fold': fold})
                    clear(d)
                    if name == 'set':
                        label_vector_set = LabelVectorSet()
                        label_vector_set.__setstate__((info, [(list(k), f) for k, f in expected.items()]))
                        learner.output_space_info_ = label_vector_set
                    else:
                        from mlrl.common.cython.output_space_info import NoOutputSpaceInfo
                        learner.output_space_info_ = NoOutputSpaceInfo()
                    o = {} if sparse is None else {'sparse': sparse}
                    log_sink, csv_sink = cls.LogSink(options(**o)), cls.CsvSink(d, options(**o))
                    with Log() as log:
                        write(cls({'both': [log_sink, csv_sink], 'log': [log_sink], 'csv': [csv_sink]}[sinks]), y=m,
                              data_split=split(fold))
                    ctx.state()
                    if sinks != 'csv':
                        text = log.body('Label vectors')
                        if ctx.check(text is not None, 'nothing is logged'):
                            rows = tables(text)
                            if ctx.check(bool(rows) and rows[0][0] == ['Index', 'Label vector', 'Frequency'],
                                         f'unexpected output: {text}'):
                                check_label_vectors(ctx, rows[0][1:], expected, bool(sparse), y.shape[1])
                    if sinks != 'log':
                        file_name = f'label_vectors_{"overall" if fold is None else "fold-" + str(fold + 1)}.csv'
                        if ctx.check(os.listdir(d) == [file_name], f'files {os.listdir(d)} have been written'):
                            check_label_vectors(ctx, [(r['Index'], r['Label vector'], r['Frequency'])
                                                      for r in read_csv(os.path.join(d, file_name))], expected,
                                                bool(sparse), y.shape[1])
    return True


# ---------------------------------------------------------------------------------------------------------------------
# Characteristics of data and predictions
# ---------------------------------------------------------------------------------------------------------------------

def describe(y, classification):
    n, l = len(y), len(y[0])
    cells = n * l
    ones = sum(1 for row in y for v in row if v)
    out = {'Outputs': (l, False), 'Output Density': (ones / cells, True), 'Output Sparsity': (1 - ones / cells, True)}
    if classification:
        per_label = [sum(1 for row in y if row[j]) for j in range(l)]
        present = [c for c in per_label if c]
        out['Label Imbalance Ratio'] = (sum(max(present) / c for c in present) / len(present) if present else 0.0, False)
        out['Label Cardinality'] = (ones / n, False)
        out['Distinct Label Vectors'] = (len({tuple(bool(v) for v in row) for row in y}), False)
    return out


OPTION_NAMES = {'Outputs': 'outputs', 'Output Density': 'output_density', 'Output Sparsity': 'output_sparsity',
                'Label Imbalance Ratio': 'label_imbalance_ratio', 'Label Cardinality': 'label_cardinality',
                'Distinct Label Vectors': 'distinct_label_vectors', 'Examples': 'examples', 'Features': 'features',
                'Numerical Features': 'numerical_features', 'Ordinal Features': 'ordinal_features',
                'Nominal Features': 'nominal_features', 'Feature Density': 'feature_density',
                'Feature Sparsity': 'feature_sparsity'}


def characteristic_options():
    out = [{}]
    for p in (True, False):
        for dec in (0, 1, 3):
            out.append({'percentage': p, 'decimals': dec})
    return out


def check_values(ctx, got, expected, o, default_decimals, hidden=(), extra=None, close=near):
    want = {k: v for k, v in expected.items() if k not in hidden}
    names = set(want) | set(extra or ())
    if not ctx.check(set(got) == names, f'{sorted(got)} is reported instead of {sorted(names)} ({o})'):
        return
    for name, (value, percentage) in want.items():
        v = value * 100 if percentage and o.get('percentage', True) else value
        ctx.check(close(got[name], v, o.get('decimals', default_decimals)),
                  f'{name} is {got[name]} instead of {v} ({o})')
    for name, value in (extra or {}).items():
        ctx.check(got[name] == str(value), f'{name} is {got[name]} instead of {value}')


def run_data(job, d, ctx):
    from mlrl.testbed.data import FeatureType as T
    from mlrl.testbed.data_characteristics import DataCharacteristicsWriter
    from mlrl.testbed.data_splitting import DataType
    from mlrl.testbed.prediction_characteristics import PredictionCharacteristicsWriter
    from mlrl.testbed.prediction_scope import GlobalPrediction, IncrementalPrediction, PredictionType
    from mlrl.testbed.problem_type import ProblemType
    all_options = characteristic_options()
    for i, y in job:
        y = np.asarray(y, dtype=np.uint8)
        for k, (name, m) in enumerate(formats(y) + loaded(y, d)):
            for o in all_options if name in ('dense', 'csr_array') else all_options[:1]:
                hidden = [sorted(OPTION_NAMES)[(i + k) % len(OPTION_NAMES)]] if o and (i + k) % 2 else []
                full = dict(o, **{OPTION_NAMES[n]: False for n in hidden})
                classification = (i + k) % 3 != 0
                problem = ProblemType.CLASSIFICATION if classification else ProblemType.REGRESSION
                fold = (None, 0)[i % 2]
                suffix = 'overall' if fold is None else f'fold-{fold + 1}'
                # Data characteristics (the matrix is used as features and as outputs)
                types = [(T.NUMERICAL, T.ORDINAL, T.NOMINAL)[(i >> j) % 3] for j in range(y.shape[1])]
                features = [(f'F{j}', t, None) for j, t in enumerate(types)]
                x = np.asarray(y[::-1, ::-1] if k % 2 else 1 - y, dtype=np.float32)
                x_in = x if k % 2 == 0 else sp.csr_array(x)
                expected = {'Examples': (len(x), False), 'Features': (len(types), False),
                            'Numerical Features': (types.count(T.NUMERICAL), False),
                            'Ordinal Features': (types.count(T.ORDINAL), False),
                            'Nominal Features': (types.count(T.NOMINAL), False),
                            'Feature Density': (float(np.count_nonzero(x)) / x.size, True),
                            'Feature Sparsity': (1 - float(np.count_nonzero(x)) / x.size, True)}
                expected.update(describe(y.tolist(), classification))
                ctx.case({'data': y.tolist(), 'x': x.tolist(), 'format': name, 'options': full, 'fold': fold,
                          'classification': classification})
                clear(d)
                with Log() as log:
                    write(DataCharacteristicsWriter([DataCharacteristicsWriter.LogSink(options(**full)),
                                                     DataCharacteristicsWriter.CsvSink(d, options(**full))]),
                          problem_type=problem, meta_data=meta(features, y.shape[1]), x=x_in, y=m, data_split=split(fold))
                ctx.state()
                text = log.body('Data characteristics')
                if ctx.check(text is not None, 'nothing is logged'):
                    check_values(ctx, {r[0]: r[-1] for r in table(text)}, expected, o, 2, hidden, close=near_table)
                file_name = f'data_characteristics_{suffix}.csv'
                if ctx.check(os.listdir(d) == [file_name], f'files {os.listdir(d)} have been written'):
                    rows = read_csv(os.path.join(d, file_name))
                    if ctx.check(len(rows) == 1, f'{len(rows)} rows are written'):
                        check_values(ctx, rows[0], expected, o, 0, hidden)
                # Characteristics of predictions, possibly obtained from models of increasing size
                # or from the final model of two experiments, the second of which overwrites the file of the first one
                sizes = (None, (1,), (1, 2, 3), (None, None))[(i + k) % 4]
                expected = describe(y.tolist(), classification)
                for data_type in (DataType.TEST, DataType.TRAINING):
                    ctx.case({'predictions': y.tolist(), 'format': name, 'options': full, 'fold': fold, 'sizes': sizes,
                              'classification': classification, 'data_type': data_type.value})
                    clear(d)
                    writer = PredictionCharacteristicsWriter([PredictionCharacteristicsWriter.LogSink(options(**full)),
                                                              PredictionCharacteristicsWriter.CsvSink(d, options(**full))])
                    texts = []
                    for size in sizes or (None,):
                        with Log() as log:
                            write(writer, problem_type=problem, data_split=split(fold), data_type=data_type,
                                  predictions=m, prediction_type=PredictionType.BINARY,
                                  prediction_scope=GlobalPrediction() if size is None else IncrementalPrediction(size))
                        texts.append(log.body('Prediction characteristics'))
                    ctx.state()
                    for text in texts:
                        if ctx.check(text is not None, 'nothing is logged'):
                            check_values(ctx, {r[0]: r[-1] for r in table(text)}, expected, o, 2, hidden, close=near_table)
                    file_name = 'prediction_characteristics_' + \
                        ('training' if data_type == DataType.TRAINING else 'test') + f'_{suffix}.csv'
                    if data_type == DataType.TRAINING:
                        file_name = data_type.get_file_name('prediction_characteristics') + f'_{suffix}.csv'
                    if ctx.check(os.listdir(d) == [file_name], f'files {os.listdir(d)} have been written'):
                        rows = read_csv(os.path.join(d, file_name))
                        if ctx.check(len(rows) == len(set(sizes or (None,))), f'{len(rows)} rows are written for {sizes}'):
                            for row, size in zip(rows, sizes or (None,)):
                                check_values(ctx, row, expected, o, 0, hidden,
                                             {} if size is None else {'Model size': size})
                ctx.outcome((name, tuple(sorted(full.items()))))
    return True


# ---------------------------------------------------------------------------------------------------------------------
# Calibration models
# ---------------------------------------------------------------------------------------------------------------------

BINS = [(-0.5, 0.125), (0.25, 0.3333333333333333), (0.75, 0.9)]


def bin_lists(max_bins):
    return [list(c) for n in range(max_bins + 1) for c in itertools.combinations(BINS, n)]


def calibration_models(tier):
    lists = bin_lists(2 if tier == 'quick' else 3)
    out = []
    for n in range(1, 3 if tier == 'quick' else 4):
        out += [list(c) for c in itertools.product(lists, repeat=n)]
    return out


def run_calibration(job, d, ctx):
    import mlrl.common.cython.probability_calibration as c
    import mlrl.testbed.probability_calibration as t
    learner = state()['boomer']
    kinds = [(c.IsotonicMarginalProbabilityCalibrationModel, t.MarginalProbabilityCalibrationModelWriter, 'Label',
              'marginal', 'marginal_probability_calibration_model_'),
             (c.IsotonicJointProbabilityCalibrationModel, t.JointProbabilityCalibrationModelWriter, 'Label vector',
              'joint', 'joint_probability_calibration_model_')]
    for i, lists in job:
        for cls, writer, title, name, attribute in kinds:
            model = _calibration_model(cls, lists)
            setattr(learner, attribute, model)
            for decimals in (None, 0, 1, 5):
                for order in (('log',), ('csv',), ('log', 'csv'), ('csv', 'log'), ('csv', 'csv'), ('log', 'log')):
                    ctx.case({'calibration': lists, 'type': name, 'decimals': decimals, 'sinks': order})
                    o = {} if decimals is None else {'decimals': decimals}
                    clear(d)
                    sinks = [writer.LogSink(options(**o)) if s == 'log' else writer.CsvSink(d, options(**o))
                             for s in order]
                    with Log() as log:
                        write(writer(sinks))
                    ctx.state()
                    messages = [m for l, m in log.messages if l == logging.INFO]
                    if ctx.check(len(messages) == order.count('log'), f'{len(messages)} messages are logged'):
                        for text in messages:
                            check_bins(ctx, tables(text.partition(':\n\n')[2]), lists, title,
                                       4 if decimals is None else decimals)
                    file_name = f'{name}_probability_calibration_model_overall.csv'
                    any_bins = any(lists)
                    if ctx.check(os.listdir(d) == ([file_name] if 'csv' in order and any_bins else []),
                                 f'files {os.listdir(d)} have been written') and os.listdir(d):
                        check_columns(ctx, read_csv(os.path.join(d, file_name)), lists, title, decimals or 0)
    return True


def _calibration_model(cls, lists):
    model = cls(len(lists))
    model.__setstate__((version_of(cls, 3), [list(bins) for bins in lists]))
    return model


def check_bins(ctx, got, lists, title, decimals):
    want = [(j, bins) for j, bins in enumerate(lists) if bins]
    if not ctx.check(len(got) == len(want), f'{len(got)} lists of bins are printed instead of {len(want)}'):
        return
    for rows, (j, bins) in zip(got, want):
        ctx.check(rows[0] == [f'{title} {j + 1} thresholds', f'{title} {j + 1} probabilities']
                  and len(rows) - 1 == len(bins)
                  and all(near_table(r[0], b[0], decimals) and near_table(r[1], b[1], decimals) for r, b in zip(rows[1:], bins)),
                  f'bins {bins} of list {j + 1} are printed as {rows}')


def check_columns(ctx, rows, lists, title, decimals):
    for j, bins in enumerate(lists):
        t, p = f'{title} {j + 1} thresholds', f'{title} {j + 1} probabilities'
        got = [(r[t], r[p]) for r in rows if r.get(t)]
        ctx.check(len(got) == len(bins) and all(near(a, b[0], decimals) and near(c, b[1], decimals)
                                                for (a, c), b in zip(got, bins)),
                  f'bins {bins} of list {j + 1} are written as {got}')


# ---------------------------------------------------------------------------------------------------------------------
# Predictions
# ---------------------------------------------------------------------------------------------------------------------

def parse_array(text):
    """ Parses the textual representation of a dense matrix. """
    rows = re.findall(r'\[([^\[\]]*)\]', text)
    out = []
    for row in rows:
        try:
            out.append([float(v) for v in row.split()])
        except ValueError:
            return None
    return out


def run_predictions(job, d, ctx):
    from mlrl.testbed.data_splitting import DataType
    from mlrl.testbed.prediction_scope import GlobalPrediction, IncrementalPrediction, PredictionType
    from mlrl.testbed.predictions import PredictionWriter
    from mlrl.testbed.problem_type import ProblemType
    for i, (kind, y, p) in job:
        y, p = np.asarray(y), np.asarray(p)
        problem = ProblemType.REGRESSION if kind == 'regression' else ProblemType.CLASSIFICATION
        y = y.astype(np.float32 if kind == 'regression' else np.uint8)
        p = p.astype(np.uint8 if kind == 'binary' else np.float64)
        prediction_type = {'binary': PredictionType.BINARY, 'regression': PredictionType.SCORES,
                           'scores': PredictionType.SCORES, 'proba': PredictionType.PROBABILITIES}[kind]
        for ny, fy in formats(y)[::2]:
            for np_, fp in formats(p)[:3:2] if kind == 'binary' else formats(p)[:1]:
                for decimals in (None, 0, 1, 3):
                    size = (None, 2)[i % 2]
                    fold = (None, 1)[(i >> 1) % 2]
                    data_type = (DataType.TEST, DataType.TRAINING)[(i >> 2) % 2]
                    o = {} if decimals is None else {'decimals': decimals}
                    ctx.case({'kind': kind, 'ground_truth': y.tolist(), 'predictions': p.tolist(), 'options': o,
                              'formats': (ny, np_), 'size': size, 'fold': fold})
                    clear(d)
                    m = meta([], y.shape[1])
                    before = dense(fy).copy(), dense(fp).copy()
                    with Log() as log:
                        write(PredictionWriter([PredictionWriter.ArffSink(d, options(**o)),
                                                PredictionWriter.LogSink(options(**o))]),
                              problem_type=problem, meta_data=m, y=fy, predictions=fp, data_split=split(fold),
                              data_type=data_type, prediction_type=prediction_type,
                              prediction_scope=GlobalPrediction() if size is None else IncrementalPrediction(size))
                    ctx.state()
                    ctx.check(np.array_equal(before[0], dense(fy)) and np.array_equal(before[1], dense(fp)),
                              'the matrices have been modified')
                    text = log.body('Predictions')
                    if ctx.check(text is not None and text.startswith('Ground truth:\n\n') and 'Predictions:\n\n' in text,
                                 f'unexpected output: {log.messages}'):
                        a, _, b = text[len('Ground truth:\n\n'):].partition('\n\nPredictions:\n\n')
                        for got, want, what in ((a, y, 'ground truth'), (b, p, 'predictions')):
                            parsed = parse_array(got)
                            digits = (2 if decimals is None else decimals) if want.dtype.kind == 'f' else 0
                            tol = 0.5000001 * 10 ** -digits if digits else 1e-6
                            ctx.check(parsed is not None and np.shape(parsed) == want.shape
                                      and bool(np.all(np.abs(np.array(parsed) - want) <= tol)),
                                      f'{what} {want.tolist()} is printed as {got!r}')
                    name = 'predictions' if size is None else f'predictions_model-size-{size}'
                    files = os.listdir(d)
                    suffix = 'overall' if fold is None else f'fold-{fold + 1}'
                    if ctx.check(len(files) == 1 and files[0].endswith(f'_{suffix}.arff')
                                 and files[0].startswith('predictions_')
                                 and (size is None) == ('model-size' not in files[0])
                                 and (size is None or f'model-size-{size}' in files[0]),
                                 f'files {files} have been written, {name} expected'):
                        _, attributes, rows = read_arff(os.path.join(d, files[0]))
                        l = y.shape[1]
                        names = [f'Ground Truth Out{j}' for j in range(l)] + [f'Prediction Out{j}' for j in range(l)]
                        ctx.check([n for n, _ in attributes] == names, f'attributes are {attributes}')
                        want = np.hstack([y.astype(float), p.astype(float)])
                        tol = np.full(want.shape, 1e-6)
                        if decimals and p.dtype.kind == 'f':
                            tol[:, l:] = 0.5000001 * 10 ** -decimals
                        ok = len(rows) == len(want) and all(len(r) == 2 * l for r in rows)
                        ctx.check(ok and bool(np.all(np.abs(np.array(rows, dtype=float) - want) <= tol)),
                                  f'{want.tolist()} is written as {rows}')
                        if decimals and p.dtype.kind == 'f' and ok:
                            ctx.check(all(re.match(r'^-?\d+(\.\d{1,%d})?$' % decimals, v) for r in rows for v in r[l:]),
                                      f'more than {decimals} decimals are written: {rows}')
    return True


def prediction_cases(tier):
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(3, 1), (3, 2)] if tier != 'quick' else [])
    for n, m in shapes:
        for ys in itertools.product((0, 1), repeat=n * m):
            y = np.array(ys).reshape(n, m).tolist()
            if n * m <= 4:
                for ps in itertools.product((0, 1), repeat=n * m):
                    out.append(('binary', y, np.array(ps).reshape(n, m).tolist()))
            else:
                out.append(('binary', y, (1 - np.array(ys)).reshape(n, m).tolist()))
                out.append(('binary', y, y))
        values = (0.0, -0.256, 1.0, 12.3456)
        some = list(itertools.product(values, repeat=n * m))[::1 if n * m <= 2 else 7]
        for k, ps in enumerate(some):
            p = np.array(ps).reshape(n, m)
            out.append(('regression', np.roll(p, 1).tolist(), p.tolist()))
            out.append(('scores', (p > 0).astype(int).tolist(), p.tolist()))
            out.append(('proba', (p > 0).astype(int).tolist(), (np.abs(p) / 20).tolist()))
    return out


# ---------------------------------------------------------------------------------------------------------------------

def label_matrices(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3)] if tier != 'quick' else [])
    return [m.astype(int).tolist() for n, l in shapes for m in h.matrices(n, l, (0, 1))]


def wide_matrices(tier):
    """ Label matrices with many labels, the textual representation of which spans several lines. """
    out = label_matrices(tier)
    for l in (37, 38, 40, 75, 1000, 1001) + ((2500,) if tier != 'quick' else ()):
        out.append([[1] * l, [0] * l, [int(j == l // 2) for j in range(l)], [int(j in (0, l - 1)) for j in range(l)]])
    return out


def cases(kind, tier):
    return {'rules': models, 'characteristics': models, 'labels': wide_matrices, 'data': label_matrices,
            'calibration': calibration_models, 'predictions': prediction_cases}[kind](tier)


RUN = {'rules': run_rules, 'characteristics': run_characteristics, 'labels': run_label_vectors, 'data': run_data,
       'calibration': run_calibration, 'predictions': run_predictions}


def jobs(tier):
    out = []
    for kind, size in (('rules', 60), ('characteristics', 100), ('labels', 20), ('data', 20), ('calibration', 10),
                       ('predictions', 60)):
        total = len(cases(kind, tier))
        for start in range(0, total, size):
            out.append({'kind': kind, 'start': start, 'stop': min(total, start + size), 'tier': tier})
    return out


def run(job, ctx):
    d = os.path.join(os.getcwd(), f'out-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    items = list(enumerate(cases(job['kind'], job['tier'])))[job['start']:job['stop']]
    RUN[job['kind']](items, d, ctx)
