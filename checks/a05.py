"""Aggregated economic value curves match the pooled table of each series."""
import itertools
import math
import os

import numpy as np
import pandas as pd

import agg
from aggcase import check_append, number
from vh import call, expect, facet, ints, pick, quiet, scratch, st
from metcalcpy.agg_eclv import AggEclv
from metcalcpy.bootstrap import bootstrap_and_value

POOL = {'model': ['A', 'B', 'A_2'], 'fcst_lev': ['Z10', 'P850'], 'interp_pnts': [1, 9], 'frac': [0.25, 0.5]}
STEPS = (0.05, 0.1, 0.2, 0.25, 0.3, 0.5)
DAYS = [f"2020-01-{d:02d} 12:00:00" for d in range(1, 9)]


def count():
    return st.one_of(ints(0, 3), ints(0, 60), ints(0, 5000))


@st.composite
def case(draw, boot=False):
    line = draw(pick('ctc', 'ctc', 'pct'))
    keys = draw(st.permutations(list(POOL)))[:draw(pick(1, 1, 2, 0))]
    series = {}
    for k in keys:
        series[k] = [str(v) for v in draw(st.lists(st.sampled_from(POOL[k]), unique=True, min_size=1, max_size=2))]
        if draw(ints(0, 6)) == 0:
            series[k].append({'model': 'none', 'fcst_lev': 'Z2', 'interp_pnts': '77', 'frac': '0.75'}[k])
    rows = []
    mids = sorted(draw(st.lists(st.sampled_from([0.05, 0.1, 0.3, 0.5, 0.8]), unique=True, min_size=1, max_size=4)))
    for _ in range(draw(ints(1, 10))):
        r = {k: draw(st.sampled_from(POOL[k])) for k in POOL}
        r.update(fcst_valid_beg=draw(st.sampled_from(DAYS)), fcst_lead=120000, fcst_var='TMP', stat_name='ECLV', stat_value=None)
        if line == 'ctc':
            r.update({k: draw(count()) for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on')})
            r['total'] = r['fy_oy'] + r['fy_on'] + r['fn_oy'] + r['fn_on']
        else:
            r.update(thresh_i=draw(st.sampled_from(mids)), oy_i=draw(count()), on_i=draw(count()))
        rows.append(r)
    return {'line': line, 'series': series, 'rows': rows, 'step': draw(st.sampled_from(STEPS)), 'base': draw(pick(None, 0, 0, 1, 1)),
            'iterations': draw(ints(10, 40)) if boot else 1, 'seed': draw(ints(1, 10 ** 6)), 'cbb': draw(st.booleans()),
            'method': draw(pick('perc', 'perc', 'pivotal')), 'alpha': draw(pick(0.05, 0.2, 0.5))}


def params(c, **over):
    p = {'random_seed': c['seed'], 'indy_var': '', 'method': c['method'], 'num_iterations': c['iterations'], 'event_equal': 'False',
         'fixed_vars_vals_input': {}, 'series_val_1': {k: list(v) for k, v in c['series'].items()}, 'alpha': c['alpha'], 'line_type': c['line'],
         'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'], 'circular_block_bootstrap': c['cbb'], 'equalize_by_indep': 'True',
         'cl_step': c['step']}
    if c['base'] is not None:
        p['add_base_rate'] = c['base']
    p.update(over)
    return p


def run(rows, p):
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(rows, p['agg_stat_input'])
        call(lambda: AggEclv(p).calculate_stats_and_ci())
        return pd.read_csv(p['agg_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records')


def pooled(rows, line, thresh):
    if line == 'ctc':
        return [sum(r[k] for r in rows) for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on')]
    up = [r for r in rows if r['thresh_i'] > thresh]
    low = [r for r in rows if r['thresh_i'] <= thresh]
    return [sum(r['oy_i'] for r in up), sum(r['on_i'] for r in up), sum(r['oy_i'] for r in low), sum(r['on_i'] for r in low)]


def value(table, cl):
    """Relative economic value by comparing expected expenses: forecast against climatology and perfect information."""
    hit, false, miss, neg = table
    n = sum(table)
    s = (hit + miss) / n
    forecast = cl * (hit + false) / n + miss / n
    climate, perfect = min(cl, s), cl * s
    return (climate - forecast) / (climate - perfect)


def grid(step):
    return [k * step for k in range(1, 100) if k * step < 1 - 1e-9]


def points(c):
    for combo in itertools.product(*c['series'].values()):
        point = dict(zip(c['series'], combo))
        yield point, [r for r in c['rows'] if all(str(r[k]) == v for k, v in point.items())]


def check_values(c, out):
    """Consumes the output in order of series and threshold; returns the defined curves."""
    left = list(out)
    curves = []
    for point, rows in points(c):
        threshs = sorted({r['thresh_i'] for r in rows}) if c['line'] == 'pct' else [0]
        for t in threshs:
            table = pooled(rows, c['line'], t)
            defined = table[0] + table[2] > 0 and table[1] + table[3] > 0
            cls = grid(c['step'])
            if c['base'] == 1:
                cls = sorted(cls + [(table[0] + table[2]) / sum(table)]) if defined else cls + [None]
            mine = [o for o in left if all(o[k] == v for k, v in point.items()) and float(o['thresh_i']) == t]
            expect(len(mine) == len(cls), f"{len(mine)} rows for {point} at threshold {t}, expected {len(cls)}")
            for o, cl in zip(mine, cls):
                left.remove(o)
                x, y = number(o['x_pnt_i']), number(o['y_pnt_i'])
                expect(number(o['nstats']) == len(rows), f"{o['nstats']} rows reported for {point}, {len(rows)} used")
                expect((x is None) == (cl is None) and (cl is None or abs(x - cl) < 2e-7), f"cost/loss ratio {x}, expected {cl}")
                if not defined:
                    expect(y is None, f"value {y} of {table}, expected missing")
                    continue
                want = value(table, cl)
                expect(y is not None and abs(y - want) <= 1e-6 * max(1, abs(want)), f"value {y} at {cl} of {table}, expected {want}")
            if defined:
                curves.append((mine, rows, t))
    expect(not left, f"unexpected output {left[:2]}")
    return curves


@facet("values", case(), quick=500, thorough=5000, rule="a defined curve from two or more rows")
def values(c):
    return any(len(rows) > 1 for _, rows, _ in check_values(c, run(c['rows'], params(c))))


@facet("bounds", case(True), quick=200, thorough=2000, rule="an interval somewhere on a curve")
def bounds(c):
    """Intervals are ordered, wider at higher confidence, and unchanged when every count is multiplied."""
    low = {}
    some = False
    for alpha in (0.5, 0.05):
        out = run(c['rows'], params(c, alpha=alpha))
        curves = check_values(c, out)
        for mine, rows, t in curves:
            for o in mine:
                lo, hi = number(o['stat_btcl']), number(o['stat_btcu'])
                expect((lo is None) == (hi is None), f"one bound only: {o}")
                if lo is None:
                    continue
                expect(lo <= hi, f"bounds out of order: {o}")
                key = tuple(o[k] for k in c['series']) + (t, o['x_pnt_i'])
                if alpha == 0.5:
                    low[key] = (lo, hi)
                elif key in low:
                    a, b = low[key]
                    tol = 1e-6 * max(1, abs(a), abs(b))
                    expect(lo <= a + tol and hi >= b - tol, f"95% interval {lo, hi} does not contain the 50% one {a, b}")
                    some = some or hi - lo > b - a
                    expect(len({tuple(sorted((k, str(v)) for k, v in r.items() if k not in POOL)) for r in rows}) > 1
                           or hi - lo < 1e-6, "an interval although all rows are the same")
    big = [{k: (v * 3 if k in ('total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'oy_i', 'on_i') else v) for k, v in r.items()} for r in c['rows']]
    again = run(big, params(c, alpha=0.05))
    expect(len(again) == len(out), "tripled counts give a different number of rows")
    for o, b in zip(out, again):
        for k in ('y_pnt_i', 'stat_btcl', 'stat_btcu'):
            x, y = number(o[k]), number(b[k])
            if x is None or y is None:
                # identical statistics up to rounding: with or without an interval of no width
                w = [number(r['stat_btcu']) - number(r['stat_btcl']) for r in (o, b) if number(r['stat_btcl']) is not None]
                expect(x is y or (k != 'y_pnt_i' and max(map(abs, w)) < 1e-5), f"{k} {x} and {y} with tripled counts")
            else:
                expect(abs(x - y) <= 1e-5 * max(1, abs(x)), f"{k} {x} and {y} with tripled counts")
    return some


@facet("resampled", case(True), quick=150, thorough=2000, rule="an interval somewhere on a curve")
def resampled(c):
    """Bounds equal those of resampling this series' rows with the same seed and statistics computed here."""
    c = dict(c, series={}, base=c['base'] or 0)
    if c['line'] == 'pct':
        c['rows'] = [dict(r, thresh_i=c['rows'][0]['thresh_i']) for r in c['rows']]
    t = c['rows'][0].get('thresh_i', 0)
    out = run(c['rows'], params(c))
    curves = check_values(c, out)
    if not curves:
        return False
    rows = c['rows']
    table = pooled(rows, c['line'], t)
    cls = grid(c['step']) + ([(table[0] + table[2]) / sum(table)] if c['base'] == 1 else [])
    cls.sort()

    def curve(ids):
        tab = pooled([rows[int(i)] for i in ids], c['line'], t)
        if tab[0] + tab[2] == 0 or tab[1] + tab[3] == 0:
            return None
        return {'cl': cls, 'V': np.array([value(tab, x) for x in cls])}

    def stat(v):
        return [curve(v[:, 0])] if v.ndim == 2 else [[curve(x[:, 0])] for x in v]
    np.random.seed(c['seed'])
    with quiet():
        want = call(bootstrap_and_value, np.arange(len(rows)).reshape(-1, 1), stat, alpha=c['alpha'], num_iterations=c['iterations'],
                    ci_method=c['method'], block_length=int(math.sqrt(len(rows))) if c['cbb'] else 1, eclv=True)
    some = False
    for i, o in enumerate(out):
        for k, w in (('stat_btcl', want.lower_bound[i]), ('stat_btcu', want.upper_bound[i])):
            g = number(o[k])
            other = number(o['stat_btcu' if k == 'stat_btcl' else 'stat_btcl'])
            if w is None or g is None:
                lo, hi = want.lower_bound[i], want.upper_bound[i]
                width = (hi - lo) if w is not None else abs(g - other) if g is not None else 0
                expect(width < 1e-6, f"{k} {g}, expected {w}")
                continue
            expect(abs(g - w) <= 1e-6 * max(1, abs(w)), f"{k} {g} at {o['x_pnt_i']}, expected {w}")
            some = True
    return some


@st.composite
def equalize(draw):
    c = draw(case())
    models = ['A', 'B']
    rows = []
    for d in DAYS[:draw(ints(1, 5))]:
        for m in models:
            if draw(ints(0, 3)):
                r = dict(draw(st.sampled_from(c['rows'])))
                r.update(model=m, fcst_valid_beg=d)
                rows.append(r)
    return dict(c, rows=rows or c['rows'][:1], series={'model': models})


@facet("equalized", equalize(), quick=100, thorough=1000, rule="equalization removes some rows and leaves a defined curve")
def equalized(c):
    """With equalization only the valid times of every series count."""
    have = [{r['fcst_valid_beg'] for r in c['rows'] if r['model'] == m} for m in ('A', 'B')]
    kept = [r for r in c['rows'] if r['fcst_valid_beg'] in have[0] & have[1] and r['model'] in ('A', 'B')]
    if not kept:
        return False
    out = run(c['rows'], params(c, event_equal='True'))
    curves = check_values(dict(c, rows=kept), out)
    return bool(curves) and len(kept) < len(c['rows'])


@facet("appended", st.fixed_dictionaries({'case': case(), 'flag': pick('True', 'False', True, False)}), quick=30, thorough=200, rule="rows are written after others")
def appended(c):
    return check_append(c['case']['rows'], params(c['case']), c['flag'], AggEclv)
