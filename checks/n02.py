"""Repeated and interleaved calls: the arguments stay as they were and every call gives its first result again."""
import copy
import inspect
import math

import numpy as np
import pandas as pd

import aggcase
from gens import count
from lines import ROWS
from objects import COUNTS, OBJECT, SIZES
from statfns import FUNCTIONS, degenerate, values_of
from vh import call, decimals, expect, facet, fail, ints, lists, pick, quiet, st
import metcalcpy.util.correlation as correlation
import metcalcpy.util.ctc_statistics as ctc
import metcalcpy.util.eclv_statistics as eclv
import metcalcpy.util.tost_paired as tost
import metcalcpy.util.utils as u
from metcalcpy.util.wald_wolfowitz_runs_test import runs_test


def frozen(x):
    """Plain data of any argument or result, for comparison."""
    if isinstance(x, pd.DataFrame):
        return ['frame', [str(c) for c in x.columns], [str(t) for t in x.dtypes], frozen(list(x.index)), [frozen(list(x[c])) for c in x.columns]]
    if isinstance(x, pd.Series):
        return ['series', str(x.dtype), frozen(list(x))]
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype), list(x.shape), frozen(x.tolist())]
    if isinstance(x, dict):
        return ['dict', [[str(k), frozen(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [frozen(v) for v in x]]
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return 'nan'
    if isinstance(x, (bool, int, float, str, type(None), np.generic)):
        return repr(x)
    return ['object', type(x).__name__, frozen(vars(x))] if hasattr(x, '__dict__') else repr(x)


def repeated(calls, order, pool):
    """Make the calls in the given order on the shared arguments."""
    before = {k: frozen(v) for k, v in pool.items()}
    first = {}
    for i in order:
        name, f, args = calls[i % len(calls)]
        got = frozen(call(f, *[pool[a] if isinstance(a, str) and a in pool else a for a in args]))
        for k in pool:
            if before[k] != frozen(pool[k]):
                fail(f"{name} changed its {k}")
        if i % len(calls) in first:
            expect(first[i % len(calls)] == got, f"{name} gave {str(first[i % len(calls)])[:200]} first and {str(got)[:200]} later")
        first[i % len(calls)] = got
    # the same calls on arguments of their own
    for i, want in first.items():
        name, f, args = calls[i]
        own = copy.deepcopy(pool)
        got = frozen(call(f, *[own[a] if isinstance(a, str) and a in own else a for a in args]))
        expect(got == want, f"{name} gave {str(want)[:200]} among other calls and {str(got)[:200]} alone")
    return len(order) > len(first)


ORDER = lists(ints(0, 10000), 2, 40)


@facet("statistics", st.fixed_dictionaries({'table': degenerate(), 'order': ORDER, 'views': pick('C', 'F')}), quick=250, thorough=2500,
       rule="a call is repeated after another one")
def statistics(c):
    values, columns = values_of(c['table'])
    pool = {'table': np.asarray(values, order=c['views']), 'column list': columns}
    calls = []
    for name, f in FUNCTIONS[c['table']['line']].items():
        if len(inspect.signature(f).parameters) > 2:
            calls += [(f'{name} (aggregated: {flag})', f, ('table', 'column list', flag)) for flag in (False, True)]
        else:
            calls.append((name, f, ('table', 'column list')))
    return repeated(calls, [k for i in c['order'] for k in (i, i)][::2] + c['order'][::-1], pool)


@st.composite
def objects(draw):
    return {'objs': [draw(OBJECT) for _ in range(draw(ints(0, 12)))], 'order': draw(ORDER), 'size': draw(pick('area', 'volume'))}


@facet("objects", objects(), quick=150, thorough=1500, rule="at least two objects")
def object_statistics(c):
    names = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', c['size'], 'model']
    rows = [[f'F{i:03d}', o['type'], int(o['fcst']), int(o['simple']), int(o['matched']), o[c['size']], 'M'] for i, o in enumerate(c['objs'])]
    pool = {'table': np.array(rows, dtype=object).reshape(len(rows), len(names)), 'column list': np.array(names)}
    fns = {**COUNTS, **{n: f for n, f in SIZES.items() if ('3d_' in n) == (c['size'] == 'volume')}}
    repeated([(n, f, ('table', 'column list')) for n, f in fns.items()], c['order'] + c['order'], pool)
    return len(rows) > 1


@st.composite
def curves(draw):
    th = draw(st.lists(pick('>0.1', '>=0.5', '<2', '>10', '==3', '>2', '<=0.25'), min_size=1, max_size=8))
    return {'rows': [[t] + [draw(count()) for _ in range(4)] for t in th], 'cl': draw(st.lists(ints(1, 99), min_size=1, max_size=9, unique=True)),
            'mids': sorted(draw(st.lists(ints(0, 100), min_size=1, max_size=6, unique=True))), 'order': draw(ORDER),
            'index': draw(st.booleans())}


@facet("curves", curves(), quick=200, thorough=2000, rule="at least two thresholds")
def curve_calls(c):
    rows = c['rows']
    frame = pd.DataFrame({'model': 'M', 'fcst_thresh': [r[0] for r in rows], 'fy_oy': [r[1] for r in rows], 'fy_on': [r[2] for r in rows],
                          'fn_oy': [r[3] for r in rows], 'fn_on': [r[4] for r in rows], 'total': [sum(r[1:]) for r in rows],
                          'fcst_valid_beg': '2020-01-01 00:00:00', 'fcst_lead': 10000})
    if c['index']:
        frame.index = [5 + 3 * i for i in range(len(frame))][::-1]
    counts = np.array([r[1:] for r in rows], dtype=float)
    bins = np.array([[m / 100, rows[i % len(rows)][1], rows[i % len(rows)][2]] for i, m in enumerate(c['mids'])], dtype=float)
    pool = {'frame': frame, 'counts': counts, 'count columns': np.array(['fy_oy', 'fy_on', 'fn_oy', 'fn_on']), 'summary': counts.sum(axis=0),
            'bins': bins, 'bin columns': np.array(['thresh_i', 'oy_i', 'on_i']), 'ratios': np.array([x / 100 for x in c['cl']]),
            'ratio list': [x / 100 for x in c['cl']]}
    calls = [('sorting', ctc.sort_by_thresh, ('frame',)), ('roc', ctc.calculate_ctc_roc, ('frame', True)), ('roc down', ctc.calculate_ctc_roc, ('frame', False)),
             ('value', ctc.calculate_economic_value, ('summary', 'ratios')), ('value with base', ctc.calculate_economic_value, ('summary', 'ratios', True)),
             ('value of a list', ctc.calculate_economic_value, ('summary', 'ratio list', True)), ('default value', ctc.calculate_economic_value, ('summary',)),
             ('default value with base', lambda s: ctc.calculate_economic_value(s, add_base_rate=True), ('summary',)),
             ('ctc curve', eclv.calculate_eclv, ('counts', 'count columns', None, 'ctc', 'ratios')),
             ('ctc curve with base', eclv.calculate_eclv, ('counts', 'count columns', None, 'ctc', 'ratio list', 1)),
             ('bin curve', eclv.calculate_eclv, ('bins', 'bin columns', 0.3, 'pct', 'ratios')),
             ('bin curve with base', eclv.calculate_eclv, ('bins', 'bin columns', 0.3, 'pct', 'ratios', 1)),
             ('unknown curve', eclv.calculate_eclv, ('bins', 'bin columns', 0.3, 'none', 'ratios')),
             ('curve without threshold', eclv.calculate_eclv, ('bins', 'bin columns', None, 'pct', 'ratios'))]
    repeated(calls, c['order'] + c['order'][::-1], pool)
    return len({r[0] for r in rows}) > 1


@st.composite
def samples(draw):
    n = draw(st.one_of(ints(1, 5), ints(4, 30)))
    v = st.one_of(decimals(-20, 20, 2), ints(-3, 3).map(float))
    x = [draw(v) for _ in range(n)]
    y = [draw(v) for _ in range(n)]
    holes = draw(lists(ints(0, 29), 0, 3)) if draw(st.booleans()) else []
    return {'x': x, 'y': y, 'holes': [h for h in holes if h < n], 'order': draw(ORDER)}


@facet("samples", samples(), quick=250, thorough=2500, rule="at least four values")
def sample_calls(c):
    x, y = np.array(c['x']), np.array(c['y'])
    for h in c['holes']:
        x[h] = np.nan
    gaps = [None if math.isnan(v) else v for v in x.tolist()]
    pool = {'x': x, 'y': y, 'list': x.tolist(), 'list with gaps': gaps, 'full list': list(c['y']), 'frame': pd.DataFrame(
        {'stat_value': x, 'fcst_valid_beg': [f'2020-01-{i % 28 + 1:02d} 00:00:00' for i in range(len(x))][::-1], 'fcst_lead': [10000 * (i % 3) for i in range(len(x))],
         'stat_name': 'ME'})}
    enough = len([v for v in gaps if v is not None]) > 4
    calls = [('autocorrelation', correlation.acf, ('list with gaps',)), ('autocovariance', correlation.acf, ('list', 'covariance', 3)),
             ('error of the mean', u.compute_std_err_from_mean, ('list',)), ('error of the median', u.compute_std_err_from_median_no_variance_inflation_factor, ('list',)),
             ('inflated error of the median', u.compute_std_err_from_median_variance_inflation_factor, ('list',)),
             ('error of the sum', u.compute_std_err_from_sum, ('list',)), ('lag coefficient', u.autocor_coef, ('list with gaps',)),
             ('sorted rows', u.sort_data, ('frame',)), ('revisions', u.calculate_mtd_revision_stats, ('frame', 3)),
             ('differences', u.calc_derived_curve_value, ('list', 'full list', 'DIFF')), ('ratios', u.calc_derived_curve_value, ('list', 'full list', 'RATIO')),
             ('without missing', correlation.remove_none, ('list with gaps',)),
             ('equivalence', tost.tost_paired if hasattr(tost, 'tost_paired') else u.tost_paired, (len(x) + 2, 1.0, 1.5, 2.0, 1.0, 0.4, -0.3, 0.3, 0.05))]
    mid = float(np.median(c['y']))
    if min(c['y']) < mid < max(c['y']) and sum(v != mid for v in c['y']) > 3:
        calls.append(('runs', runs_test, ('full list', 'right.sided', 'median')))
    if enough:
        calls += [(f'correlation ({m})', lambda a, b, m=m: correlation.corr(a, b, method=m), ('x', 'y')) for m in ('pearson', 'spearman', 'kendall', 'bicor', 'percbend')]
    with quiet():
        repeated(calls, c['order'] + c['order'][::-1], pool)
    return len(x) > 3


@facet("parameters", aggcase.case(), quick=60, thorough=600, rule="at least two rows")
def parameters(c):
    """The aggregation leaves its parameters as they were, and a second run with the same ones writes the same."""
    p = aggcase.parameters(c)
    before = copy.deepcopy(p)
    rows = aggcase.table(c, sorted(set(c['stats1']) | set(c['stats2'])))
    one = aggcase.run(rows, p)
    two = aggcase.run(rows, p)
    expect(one == two, "a second run with the same parameters differs")
    expect(frozen(before) == frozen(p), f"parameters changed: {[k for k in set(before) | set(p) if frozen(before.get(k)) != frozen(p.get(k))]}")
    return len(c['rows']) > 1
