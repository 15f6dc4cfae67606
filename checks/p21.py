"""
P21: data sets are read from and written to files without altering, dropping or mixing up any values.

All small data sets are enumerated (all combinations of cell values, storage layouts, attribute types, positions and
descriptions of the outputs). An independent writer creates the files that are loaded by the real code, and an
independent reader interprets the files that have been written by it.
"""
import csv
import itertools
import os
import re

import numpy as np
from scipy.sparse import coo_array, csc_array, csr_array, lil_array

PROPERTY = 'P21'
BOUNDS = {'quick': 'all matrices with <= 3 rows and <= 3 columns (cells 0, 1.5 and missing, labels 0 and 1), two '
                   'attributes of all combinations of types with all combinations of values',
          'thorough': '<= 4 rows and <= 4 columns'}
ASSUMPTIONS = ['Outputs are located at the start or at the end of a data set, as required by the tools that use these '
               'file formats.']
NAN = float('nan')
CHUNK = 400


def quote(name):
    return "'" + name.replace("\\", "\\\\").replace("'", "\\'") + "'" if re.search(r"[\s'\"%,{}]", name) else name


def write_arff(path, relation, attributes, rows, layout, style=0):
    """ attributes: list of (name, type); type is a string or a list of nominal values; rows: lists of tokens. """
    kw = ('@relation', '@attribute', '@data') if style % 2 else ('@RELATION', '@ATTRIBUTE', '@DATA')
    lines = ['% a comment', ''] if style >= 2 else []
    lines.append(f"{kw[0]} '{relation}'")
    for name, t in attributes:
        text = '{' + (', ' if style % 2 else ',').join(quote(v) for v in t) + '}' if isinstance(t, list) else t
        lines.append(f'{kw[1]} {quote(name)} {text}')
    lines += ['', kw[2]]
    for row in rows:
        if layout == 'dense':
            lines.append(','.join(quote(v) for v in row))
        else:
            cells = [f'{i} {quote(v)}' for i, v in enumerate(row)
                     if layout == 'explicit' or not is_zero(v, attributes[i][1])]
            lines.append('{' + (', ' if style % 2 else ',').join(cells) + '}')
        if style >= 2:
            lines.append('')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


def is_zero(token, t):
    return token == t[0] if isinstance(t, list) else token in ('0', '0.0')


def write_xml(path, names):
    def esc(s):
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<labels xmlns="http://mulan.sourceforge.net/labels">\n'
                + ''.join(f'<label name="{esc(n)}"></label>\n' for n in names) + '</labels>\n')


def number(token, t):
    """ The number that represents a token. """
    if token == '?':
        return NAN
    return float(t.index(token)) if isinstance(t, list) else float(np.float32(float(token)))


def read_arff(path):
    """ An independent reader. Returns the names and types of attributes and a dense list of rows of tokens. """
    attributes, rows, data, relation = [], [], False, None
    with open(path, encoding='utf-8') as f:
        for line in f.read().split('\n'):
            line = line.strip()
            if not line or line.startswith('%'):
                continue
            if data:
                if line.startswith('{'):
                    row = [t[0] if isinstance(t, list) else '0' for _, t in attributes]
                    for cell in line[1:-1].split(','):
                        if cell.strip():
                            i, v = cell.strip().split(' ', 1)
                            row[int(i)] = v.strip()
                    rows.append(row)
                else:
                    rows.append([v.strip() for v in next(csv.reader([line]))])
            elif line.upper().startswith('@RELATION'):
                relation = line[9:].strip().strip('\'"')
            elif line.upper().startswith('@ATTRIBUTE'):
                m = re.match(r'@ATTRIBUTE\s+("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|\S+)\s+(.*)$', line, re.I)
                name = m.group(1)
                if name[0] in '\'"':
                    name = re.sub(r'\\(.)', r'\1', name[1:-1])
                t = m.group(2).strip()
                if t.startswith('{'):
                    t = [v.strip().strip('\'"') for v in t[1:-1].split(',')]
                attributes.append((name, t))
            elif line.upper().startswith('@DATA'):
                data = True
    return relation, attributes, rows


def same(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


# ---------------------------------------------------------------------------------------------------------------------
# Loading
# ---------------------------------------------------------------------------------------------------------------------

def expect_loaded(ctx, got, features, outputs, rows_x, rows_y, at_start):
    """ features, outputs: lists of (name, type); rows_x, rows_y: tokens; outputs in the order of the columns. """
    from mlrl.testbed.data import FeatureType
    x, y, meta = got
    n = len(rows_x)
    ex = np.array([[number(v, t) for v, (_, t) in zip(r, features)] for r in rows_x]).reshape(n, len(features))
    ey = np.array([[number(v, t) for v, (_, t) in zip(r, outputs)] for r in rows_y]).reshape(n, len(outputs))
    ctx.check(same(dense(x), ex), lambda: f'the features {dense(x).tolist()} (shape {x.shape}) have been loaded instead '
                                          f'of {ex.tolist()}',
              finding='dense-missing' if np.isnan(ex).any() and same(dense(x), np.nan_to_num(ex)) and is_dense(PATH[0]) else None)
    ctx.check(same(dense(y), ey), lambda: f'the outputs {dense(y).tolist()} (shape {y.shape}) have been loaded instead '
                                          f'of {ey.tolist()}', finding='outputs-truncated' if truncated(y, ey) else None)
    if meta is not None:
        names = [f.name for f in meta.features]
        ctx.check(names == [f[0] for f in features], lambda: f'the features are named {names}')
        names = [f.name for f in meta.outputs]
        ctx.check(names == [f[0] for f in outputs], lambda: f'the outputs are named {names}')
        ctx.check(meta.outputs_at_start == at_start, 'the location of the outputs is wrong')
        types = [f.feature_type for f in meta.features]
        expected = [FeatureType.NOMINAL if isinstance(t, list) else FeatureType.ORDINAL if t.lower() == 'integer'
                    else FeatureType.NUMERICAL for _, t in features]
        ctx.check(types == expected, lambda: f'the types of the features are {types}')
        values = [f.nominal_values for f in meta.features]
        ctx.check(values == [t if isinstance(t, list) else None for _, t in features],
                  lambda: f'the values of the features are {values}')
        for kind in FeatureType:
            e = [i for i, t in enumerate(expected) if t == kind]
            ctx.check(meta.get_feature_indices({kind}) == e and meta.get_num_features({kind}) == len(e),
                      f'the indices of the features of type {kind} are wrong')
    ctx.state()
    ctx.step()
    ctx.outcome((dense(x).tolist(), dense(y).tolist()))


def is_dense(path):
    """ Whether the last file that has been written is in dense layout. """
    with open(path, encoding='utf-8') as f:
        rows = re.split('@data', f.read(), maxsplit=1, flags=re.I)[1].strip()
    return not rows.startswith('{')


def truncated(y, ey):
    return y.shape == ey.shape and not np.isnan(ey).any() and bool(np.any(ey != np.floor(ey) % 256)) \
        and same(dense(y), ey.astype(np.uint8))


def load(ctx, d, case, features, outputs, rows_x, rows_y, layout, at_start, meta_kind, style=0, xml_order=None,
         **kwargs):
    from mlrl.testbed.data import load_data_set_and_meta_data
    ctx.case(case)
    attributes = outputs + features if at_start else features + outputs
    rows = [y + x if at_start else x + y for x, y in zip(rows_x, rows_y)]
    for name in os.listdir(d):
        os.remove(os.path.join(d, name))
    relation = f'data: -C {len(outputs) if at_start else -len(outputs)}' + (' -split 3' if style % 2 else '') \
        if meta_kind == 'relation' else 'data'
    PATH[0] = os.path.join(d, 'a.arff')
    write_arff(os.path.join(d, 'a.arff'), relation, attributes, rows, layout, style)
    if meta_kind == 'xml':
        names = [n for n, _ in outputs]
        write_xml(os.path.join(d, 'a.xml'), [names[i] for i in xml_order] if xml_order else names)
    return load_data_set_and_meta_data(d, 'a.arff', 'a.xml', **kwargs)


PATH = [None]  # The path of the last file that has been written
LAYOUTS = ('dense', 'sparse', 'explicit')


def value_cases(tier):
    shapes = [(1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1), (3, 1, 2)]
    if tier == 'thorough':
        shapes += [(2, 2, 2), (3, 2, 1), (4, 1, 1), (4, 1, 2), (2, 1, 3), (2, 3, 1)]
    for n, f, o in shapes:
        for x in itertools.product(('0', '1.5', '?') if n * f <= 4 or tier == 'thorough' else ('0', '1.5'), repeat=n * f):
            for y in itertools.product('01', repeat=n * o):
                yield n, f, o, x, y


def run_values(part, d, ctx):
    for n, f, o, x, y in part:
        features = [(f'f{i}', 'NUMERIC') for i in range(f)]
        outputs = [(f'l{i}', ['0', '1']) for i in range(o)]
        rows_x = [list(x[i * f:(i + 1) * f]) for i in range(n)]
        rows_y = [list(y[i * o:(i + 1) * o]) for i in range(n)]
        for layout in LAYOUTS:
            for at_start in (False, True):
                for kind in ('xml', 'relation'):
                    case = {'x': rows_x, 'y': rows_y, 'layout': layout, 'at_start': at_start, 'meta': kind}
                    expect_loaded(ctx, load(ctx, d, case, features, outputs, rows_x, rows_y, layout, at_start, kind),
                                  features, outputs, rows_x, rows_y, at_start)


TYPES = {'NUMERIC': ['0', '-1', '2.5', '?'], 'REAL': ['0', '0.1'], 'INTEGER': ['0', '3'],
         'ab': ['a', 'b', '?'], '10': ['1', '0'], 'abc': ['c', 'a', 'b'], 'space': ['x y', 'z'], 'one': ['a']}
NOMINAL = {'ab': ['a', 'b'], '10': ['1', '0'], 'abc': ['c', 'a', 'b'], 'space': ['x y', 'z'], 'one': ['a']}


def type_cases(tier):
    for t in itertools.product(TYPES, repeat=2):
        for style in range(4):
            for r in itertools.product(*[TYPES[k] for k in t]):
                for r2 in itertools.product(*[TYPES[k] for k in t]):
                    if tier == 'thorough' or style == 0 or r == r2:
                        yield t, style, r, r2


def run_types(part, d, ctx):
    for t, style, r, r2 in part:
        features = [(f'f{i}', NOMINAL.get(k, k if style != 1 else k.lower())) for i, k in enumerate(t)]
        outputs = [('l0', ['0', '1'])]
        rows_x, rows_y = [list(r), list(r2)], [['1'], ['0']]
        for layout in LAYOUTS:
            for at_start in (False, True):
                case = {'x': rows_x, 'types': t, 'layout': layout, 'at_start': at_start, 'style': style}
                expect_loaded(ctx, load(ctx, d, case, features, outputs, rows_x, rows_y, layout, at_start, 'xml', style),
                              features, outputs, rows_x, rows_y, at_start)


NAMES = ['a', 'b c', "d'e", 'f&g', 'h<i', 'j%k', 'l{m}', 'é', 'Label']


def name_cases(tier):
    for names in itertools.permutations(NAMES, 3):
        yield 'feature', names, None
    for names in itertools.combinations(NAMES, 3) if tier == 'quick' else itertools.permutations(NAMES, 3):
        for order in itertools.permutations(range(3)):
            yield 'output', names, order


def run_names(part, d, ctx):
    for kind, names, order in part:
        others = [('z0', 'NUMERIC')] if kind == 'output' else [('z0', ['0', '1'])]
        mine = [(n, ['0', '1'] if kind == 'output' else 'NUMERIC') for n in names]
        features, outputs = (others, mine) if kind == 'output' else (mine, others)
        rows = [['1', '0', '0'], ['0', '1', '0'], ['0', '1', '1']]
        other = [['1'], ['1'], ['0']]
        rows_x, rows_y = (other, rows) if kind == 'output' else (rows, other)
        for layout in LAYOUTS[:2]:
            for at_start in (False, True):
                for style in (0, 3):
                    case = {'kind': kind, 'names': names, 'xml': order, 'layout': layout, 'at_start': at_start, 'style': style}
                    try:
                        got = load(ctx, d, case, features, outputs, rows_x, rows_y, layout, at_start, 'xml', style, order)
                    except Exception as e:  # pylint: disable=broad-except
                        ctx.violation(f'loading the data set failed: {e!r}')
                        continue
                    expect_loaded(ctx, got, features, outputs, rows_x, rows_y, at_start)


def regression_cases(tier):
    values = ('0', '1', '2.5', '-1', '300')
    for y in itertools.product(values, repeat=2):
        yield y


def run_regression(part, d, ctx):
    """ The outputs of regression data sets are real numbers. """
    import argparse
    import sys
    from mlrl.boosting.runnables import BoomerRunnable
    from mlrl.common.data_types import Float32
    from mlrl.testbed.data_splitting import DataSplitter
    original = DataSplitter.run
    for y in part:
        features, outputs = [('f0', 'NUMERIC')], [('l0', 'NUMERIC')]
        rows_x, rows_y = [['1'], ['0']], [[v] for v in y]
        for layout in LAYOUTS:
            for at_start in (False, True):
                case = {'regression': y, 'layout': layout, 'at_start': at_start}
                got = load(ctx, d, case, features, outputs, rows_x, rows_y, layout, at_start, 'xml', output_dtype=Float32)
                expect_loaded(ctx, got, features, outputs, rows_x, rows_y, at_start)
                # The same data set is used by the command line API
                ctx.case({'command line': case})
                calls = []

                class Callback(DataSplitter.Callback):

                    def train_and_evaluate(self, meta_data, data_split, train_x, train_y, test_x, test_y):
                        calls.append((train_x, train_y, meta_data))  # pylint: disable=cell-var-from-loop

                sys.argv = ['testbed', 'mlrl.boosting', '--data-dir', d, '--dataset', 'a', '--problem-type', 'regression',
                            '--data-split', 'none']
                try:
                    DataSplitter.run = lambda self, _: original(self, Callback())
                    runnable = BoomerRunnable()
                    parser = argparse.ArgumentParser()
                    parser.add_argument('module')
                    runnable.configure_arguments(parser)
                    runnable.run(parser.parse_args(sys.argv[1:]))
                finally:
                    DataSplitter.run = original
                if ctx.check(len(calls) == 1, 'no data set has been loaded'):
                    expect_loaded(ctx, calls[0], features, outputs, rows_x, rows_y, at_start)


def second_cases(tier):
    n = 2 if tier == 'quick' else 3
    for layout in itertools.product(LAYOUTS, repeat=2):
        for at_start in (False, True):
            for cells in itertools.product('01', repeat=3 * n):
                yield layout, at_start, cells


def run_second(part, d, ctx):
    """ A test set is loaded by using the meta-data of the training set. """
    from mlrl.testbed.data import load_data_set, load_data_set_and_meta_data
    for (layout, layout2), at_start, cells in part:
        ctx.case({'layouts': [layout, layout2], 'at_start': at_start, 'cells': cells})
        features, outputs = [('f0', 'NUMERIC')], [('l0', ['0', '1']), ('l1', ['0', '1'])]
        rows = [list(cells[i:i + 3]) for i in range(0, len(cells), 3)]
        attributes = outputs + features if at_start else features + outputs
        for name in os.listdir(d):
            os.remove(os.path.join(d, name))
        write_arff(os.path.join(d, 'a.arff'), 'a', attributes, [['1', '0', '0'], ['0', '1', '1']], layout)
        write_arff(os.path.join(d, 'b.arff'), 'b', attributes, rows, layout2)
        write_xml(os.path.join(d, 'a.xml'), ['l0', 'l1'])
        _, _, meta = load_data_set_and_meta_data(d, 'a.arff', 'a.xml')
        x, y = load_data_set(d, 'b.arff', meta)
        expect_loaded(ctx, (x, y, None), features, outputs, [r[2:] if at_start else r[:1] for r in rows],
                      [r[:2] if at_start else r[1:] for r in rows], at_start)


# ---------------------------------------------------------------------------------------------------------------------
# Saving
# ---------------------------------------------------------------------------------------------------------------------

FORMATS = {'dense': lambda m: m, 'fortran': np.asfortranarray, 'csr': csr_array, 'csc': csc_array, 'coo': coo_array,
           'lil': lil_array}


def save_cases(tier):
    shapes = [(1, 1, 1), (2, 1, 1), (2, 1, 2), (1, 2, 1), (2, 2, 1)]
    if tier == 'thorough':
        shapes += [(3, 1, 1), (2, 2, 2), (3, 2, 1)]
    for n, f, o in shapes:
        for x in itertools.product((0.0, 0.1, -2.0, NAN) if n * f <= 2 else (0.0, 0.1), repeat=n * f):
            for y in itertools.product((0, 1), repeat=n * o):
                for fx, fy in itertools.product(FORMATS, ('dense', 'csr', 'lil')):
                    yield n, f, o, x, y, fx, fy


def run_save(part, d, ctx):
    from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, load_data_set_and_meta_data, save_arff_file, \
        save_data_set_and_meta_data, save_meta_data
    for n, f, o, x, y, fx, fy in part:
        ctx.case({'shape': [n, f, o], 'x': x, 'y': y, 'formats': [fx, fy]})
        x0 = np.array(x, dtype=np.float32).reshape(n, f)
        y0 = np.array(y, dtype=np.uint8).reshape(n, o)
        mx, my = FORMATS[fx](x0.copy()), FORMATS[fy](y0.copy())
        for how in ('simple', 'start', 'end'):
            for name in os.listdir(d):
                os.remove(os.path.join(d, name))
            features = [(f'X{i}', 'NUMERIC') for i in range(f)]
            outputs = [(f'y{i}', ['0', '1']) for i in range(o)]
            if how == 'simple':
                meta = save_data_set_and_meta_data(d, 'a.arff', 'a.xml', mx, my)
            else:
                meta = MetaData([Feature(k, FeatureType.NUMERICAL) for k, _ in features], [Output(k) for k, _ in outputs],
                                outputs_at_start=how == 'start')
                save_arff_file(d, 'a.arff', mx, my, meta)
                save_meta_data(d, 'a.xml', meta)
            PATH[0] = os.path.join(d, 'a.arff')
            _, attributes, rows = read_arff(PATH[0])
            ok = ctx.check([a[0] for a in attributes] == ([a for a, _ in outputs + features] if how == 'start' else
                                                          [a for a, _ in features + outputs]),
                           f'attributes {attributes} have been written')
            if ok:
                got = np.array([[NAN if v == '?' else np.float32(v) for v in r] for r in rows]).reshape(len(rows), -1)
                e = np.hstack([y0, x0] if how == 'start' else [x0, y0])
                ctx.check(same(got, e), lambda: f'{got.tolist()} has been written instead of {e.tolist()}')
            for xml in (True, False):
                if not xml:
                    os.remove(os.path.join(d, 'a.xml'))
                rows_x = [['?' if v != v else repr(float(v)) for v in r] for r in x0]
                rows_y = [[str(int(v)) for v in r] for r in y0]
                expect_loaded(ctx, load_data_set_and_meta_data(d, 'a.arff', 'a.xml'), features, outputs, rows_x, rows_y,
                              how == 'start')
        ctx.check(same(dense(mx), x0) and same(dense(my), y0), 'saving a data set modifies it')


def prediction_cases(tier):
    for problem in ('binary', 'scores', 'probabilities', 'regression'):
        for n, o in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if problem == 'binary' or tier == 'thorough' else ()):
            truths = (0, 1) if problem != 'regression' else (0.0, 2.5, -1.0)
            preds = {'binary': (0, 1), 'scores': (0.0, -1.25, 7.0), 'probabilities': (0.0, 1.0, 1 / 3),
                     'regression': (0.0, 2.123456789, -300.0)}[problem]
            for y in itertools.product(truths, repeat=n * o):
                for p in itertools.product(preds, repeat=n * o):
                    for decimals in (0, 1, 3) if problem != 'binary' else (0, 2):
                        for fy, fp in itertools.product(('dense', 'lil'),
                                                        ('dense', 'csr') if problem == 'binary' else ('dense',)):
                            yield problem, n, o, y, p, decimals, fy, fp


def run_predictions(part, d, ctx):
    """ Predictions and the ground truth are written to a file. """
    import arff
    from mlrl.common.options import Options
    from mlrl.testbed.data import MetaData, Output
    from mlrl.testbed.data_splitting import CrossValidationFold, DataType, TrainingTestSplit
    from mlrl.testbed.prediction_scope import GlobalPrediction, IncrementalPrediction, PredictionType
    from mlrl.testbed.predictions import PredictionWriter
    from mlrl.testbed.problem_type import ProblemType
    kinds = {'binary': PredictionType.BINARY, 'scores': PredictionType.SCORES,
             'probabilities': PredictionType.PROBABILITIES, 'regression': PredictionType.SCORES}
    for problem, n, o, y, p, decimals, fy, fp in part:
        ctx.case({'problem': problem, 'shape': [n, o], 'y': y, 'predictions': p, 'decimals': decimals, 'formats': [fy, fp]})
        y0 = np.array(y, dtype=np.float32 if problem == 'regression' else np.uint8).reshape(n, o)
        p0 = np.array(p, dtype=np.uint8 if problem == 'binary' else np.float64).reshape(n, o)
        for name in os.listdir(d):
            os.remove(os.path.join(d, name))
        names = ['l one', "l'2"][:o]
        options = Options.create('{decimals=' + str(decimals) + '}', {'decimals'}) if decimals else Options()
        writer = PredictionWriter([PredictionWriter.ArffSink(output_dir=d, options=options)])
        for split, suffix in ((TrainingTestSplit(), 'overall'), (CrossValidationFold(3, 1, -1), 'fold-2')):
            for data_type in DataType:
                for scope in (GlobalPrediction(), IncrementalPrediction(7)):
                    before = set(os.listdir(d))
                    writer.write_output(ProblemType.REGRESSION if problem == 'regression' else
                                        ProblemType.CLASSIFICATION, MetaData([], [Output(k) for k in names], False), None,
                                        FORMATS[fy](y0.copy()), split, None, data_type=data_type,
                                        prediction_type=kinds[problem], prediction_scope=scope,
                                        predictions=FORMATS[fp](p0.copy()), train_time=0, predict_time=0)
                    new = set(os.listdir(d)) - before
                    if not ctx.check(len(new) == 1 and suffix in next(iter(new)) and data_type.value in next(iter(new)),
                                     f'the files {new} have been written'):
                        continue
                    with open(os.path.join(d, next(iter(new))), encoding='utf-8') as f:
                        text = f.read()
                    try:
                        data = arff.loads(text, return_type=arff.LOD if fy == 'lil' and fp == 'csr' else arff.DENSE)
                    except arff.ArffException as e:
                        ctx.violation(f'the file is not valid: {e}\n{text}')
                        continue
                    attributes = [a[0] for a in data['attributes']]
                    columns = ['Ground Truth ' + k for k in names] + ['Prediction ' + k for k in names]
                    ctx.check(sorted(attributes) == sorted(columns), f'the file contains the attributes {attributes}')
                    rows = data['data']
                    if rows and isinstance(rows[0], dict):
                        rows = [[r.get(i, 0) for i in range(len(attributes))] for r in rows]
                    got = np.array([[float(r[attributes.index(c)]) for c in columns] for r in rows])
                    e = np.hstack([y0, np.around(p0, decimals) if decimals and problem != 'binary' else p0])
                    ctx.check(got.shape == e.shape and np.allclose(got, e, rtol=1e-6, atol=1e-9),
                              lambda: f'{got.tolist()} has been written instead of {e.tolist()}')
                    ctx.state()
                    ctx.step()
                    ctx.outcome(got.tolist())


# ---------------------------------------------------------------------------------------------------------------------
# One-hot-encoding
# ---------------------------------------------------------------------------------------------------------------------

def onehot_cases(tier):
    kinds = ('num', 'nom2', 'nom3')
    for f in (1, 2):
        for t in itertools.product(kinds, repeat=f):
            for x in itertools.product((0, 1), repeat=2 * f):
                for q in itertools.product((0, 1, 2), repeat=f):
                    yield t, x, q
    if tier == 'thorough':
        for t in itertools.product(kinds, repeat=3):
            for x in itertools.product((0, 1), repeat=6):
                for q in itertools.product((0, 1, 2), repeat=3):
                    yield t, x, q


def run_onehot(part, d, ctx):
    """ Encoded examples agree in a column iff they have the same value, and other features remain the same. """
    from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, one_hot_encode
    for t, x, q in part:
        f = len(t)
        values = {'nom2': ['a', 'b'], 'nom3': ['a', 'b', 'c']}
        meta = MetaData([Feature(f'f{i}', FeatureType.NUMERICAL if k == 'num' else FeatureType.NOMINAL, values.get(k))
                         for i, k in enumerate(t)], [Output('l')], bool(sum(q) % 2 if q else 0))
        train, query = np.array(x, dtype=np.float32).reshape(2, f), np.array([q], dtype=np.float32)
        y = np.array([[0], [1]], dtype=np.uint8)
        for fmt in ('dense', 'lil', 'csr'):
            ctx.case({'types': t, 'x': x, 'query': q, 'format': fmt})
            ex, encoder, em = one_hot_encode(FORMATS[fmt](train.copy()), y, meta)
            eq = one_hot_encode(FORMATS[fmt](query.copy()), y[:1], meta, encoder=encoder)[0]
            ex, eq = dense(ex), dense(eq)
            ctx.check(em.outputs_at_start == meta.outputs_at_start, 'the outputs are declared to be in another place')
            ctx.check(len(em.outputs) == 1 and (not em.features if 'nom2' in t or 'nom3' in t else em.features == meta.features),
                      'the meta-data is wrong')
            # The expected columns, in any order
            cols = []
            for i, k in enumerate(t):
                if k == 'num':
                    cols.append(tuple(train[:, i]) + tuple(query[:, i]))
                else:
                    for v in sorted(set(train[:, i])):
                        cols.append(tuple(float(w == v) for w in train[:, i]) + tuple(float(w == v) for w in query[:, i]))
            got = [tuple(c) for c in np.vstack([ex, eq]).T] if ex.shape[1] == eq.shape[1] else None
            ctx.check(got is not None and sorted(got) == sorted(cols), lambda: f'the columns are {got} instead of {cols}')
            ctx.state()
            ctx.step()
            ctx.outcome(got)


PARTS = {'values': (value_cases, run_values, 60), 'types': (type_cases, run_types, 200), 'names': (name_cases, run_names, 80),
         'regression': (regression_cases, run_regression, 100), 'second': (second_cases, run_second, 400),
         'save': (save_cases, run_save, 120), 'predictions': (prediction_cases, run_predictions, 60),
         'onehot': (onehot_cases, run_onehot, 300)}


def jobs(tier):
    out = []
    for part, (cases, _, chunk) in PARTS.items():
        total = sum(1 for _ in cases(tier))
        for lo in range(0, total, chunk):
            out.append({'part': part, 'lo': lo, 'hi': min(total, lo + chunk), 'tier': tier})
    return out


def run(job, ctx):
    import logging
    import shutil
    import tempfile
    logging.disable(logging.CRITICAL)
    cases, check, _ = PARTS[job['part']]
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        check(itertools.islice(cases(job['tier']), job['lo'], job['hi']), d, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)
