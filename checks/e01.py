"""Event equalization keeps exactly the cases every combination of series and fixed values has."""
import itertools
import os

import pandas as pd

from vh import call, expect, facet, ints, lists, pick, quiet, scratch, st
from ee import CASE_VARS, LEADS, POOL, SEP, VALID, alike, cell, matches, same_alike, same_rows, ungroup
from metcalcpy.agg_stat_event_equalize import AggStatEventEqualize
from metcalcpy.event_equalize import event_equalize
from metcalcpy.util import utils

@st.composite
def table(draw, valid_name, wanted, groups=(('TMP', 'ME'),), rows=14):
    """Rows over few valid times, leads and series: either a design complete for the wanted values apart from a few
    removed, repeated and unrelated rows, or rows at random."""
    n_valid, n_lead = draw(ints(1, 4)), draw(ints(1, 3))
    row = st.fixed_dictionaries({valid_name: st.sampled_from(VALID[:n_valid]), 'fcst_lead': st.sampled_from(LEADS[:n_lead]),
                                 'model': st.sampled_from(POOL['model'][:3]), 'vx_mask': st.sampled_from(POOL['vx_mask'][:2]),
                                 'interp_pnts': st.sampled_from(POOL['interp_pnts'][:2]), 'fcst_lev': st.sampled_from(POOL['fcst_lev']),
                                 'obs_init_beg': st.sampled_from(POOL['obs_init_beg']),
                                 'fcst_var': st.sampled_from(['TMP', 'TMP', 'DPT']), 'stat_name': st.sampled_from(['ME', 'ME', 'RMSE'])})
    names = [k for k in wanted if k not in CASE_VARS]
    combos = list(itertools.product(*[sorted(set(wanted[k])) for k in names]))
    cases = [(v, l) for v in VALID[:n_valid] for l in LEADS[:n_lead]][:max(1, 40 // (len(combos) * len(groups)))]
    if draw(ints(0, 4)):
        base = draw(row)
        full = []
        for v, l in cases:
            for combo in combos:
                for var, stat in groups:
                    full.append({**base, valid_name: v, 'fcst_lead': l, 'fcst_var': var, 'stat_name': stat,
                                 **{k: cell(k, x) for k, x in zip(names, combo)}})
        drop = draw(st.lists(ints(0, len(full) - 1), max_size=3))
        rep = draw(st.lists(ints(0, len(full) - 1), max_size=2))
        data = [r for i, r in enumerate(full) if i not in drop] + [dict(full[i]) for i in rep]
        data += draw(lists(row, 0 if data else 1, 3))
    else:
        data = draw(lists(row, 1, rows))
    order = draw(st.permutations(range(len(data)))) if draw(st.booleans()) else list(range(len(data)))
    data = [dict(data[i]) for i in order]
    for i, r in enumerate(data):
        r['stat_value'] = i + 0.5
    return data


@st.composite
def series(draw, names=('model', 'vx_mask', 'interp_pnts', 'fcst_lev'), lo=0, hi=3):
    """Series values as text; several may be grouped."""
    out = {}
    for k in draw(st.lists(st.sampled_from(names), unique=True, min_size=lo, max_size=hi)):
        vals = draw(st.lists(st.sampled_from([str(v) for v in POOL[k][:3] if v is not None]), unique=True, min_size=1, max_size=3))
        if len(vals) > 1 and draw(st.booleans()):
            vals = [SEP.join(vals[:2])] + vals[2:]
        out[k] = vals
    return out


@st.composite
def case(draw):
    valid_name = draw(st.sampled_from(['fcst_valid_beg', 'fcst_valid']))
    s = draw(series(names=('model', 'vx_mask', 'interp_pnts', 'fcst_lev', 'obs_init_beg'), hi=2))
    if draw(pick(False, False, True)):
        s['fcst_lead'] = ['0', '30000']   # case variables never split the cases
    left = [k for k in ('fcst_lev', 'vx_mask', 'interp_pnts') if k not in s]
    fixed = draw(st.lists(st.sampled_from(left), unique=True, max_size=2)) if left else []
    vals = [draw(st.lists(st.sampled_from(['P500', 'NA', 'Z2'] if k == 'fcst_lev' else [str(v) for v in POOL[k]]), unique=True, min_size=1, max_size=3)) for k in fixed]
    data = draw(table(valid_name, {**{k: ungroup(v) for k, v in s.items()}, **dict(zip(fixed, vals))}))
    return {'rows': data, 'series': s, 'fixed': fixed, 'fixed_vals': vals, 'valid': valid_name, 'single': draw(st.booleans()),
            'indy': draw(st.sampled_from(['', 'fcst_lead', valid_name, 'vx_mask', 'interp_pnts', 'fcst_var'])), 'by_indy': draw(st.booleans()),
            'multi': draw(st.booleans()), 'perm': draw(st.permutations(range(len(data))))}


def kept(rows, wanted, valid_name, indy, by_indy):
    """Row numbers that survive: naive set intersection over all combinations of wanted values."""
    def key(r):
        k = (r[valid_name], r['fcst_lead'])
        return k + (str(r[indy]),) if by_indy and indy not in CASE_VARS else k
    names = [k for k in wanted if k not in CASE_VARS]
    common = None
    for combo in itertools.product(*[wanted[k] for k in names]):
        have = {key(r) for r in rows if all(matches(r[k], v) for k, v in zip(names, combo))}
        common = have if common is None else common & have
    return [i for i, r in enumerate(rows) if key(r) in common]


def frame(rows):
    return pd.DataFrame(rows, columns=list(rows[0]))


@facet("direct", case(), quick=500, thorough=4000, rule="some rows kept and some removed")
def direct(c):
    wanted = {k: ungroup(v) for k, v in c['series'].items()}
    wanted.update(dict(zip(c['fixed'], c['fixed_vals'])))
    want = kept(c['rows'], wanted, c['valid'], c['indy'], c['by_indy'])
    cols = list(c['rows'][0])
    fixed, vals, ser = c['fixed'], c['fixed_vals'], c['series']
    if c['single']:
        # a lone fixed variable or value may be given as plain text
        vals = [v[0] if len(v) == 1 else v for v in vals]
        ser = {k: (v[0] if len(v) == 1 else v) for k, v in ser.items()}
        fixed = fixed[0] if len(fixed) == 1 else fixed
    with quiet():
        got = call(event_equalize, frame(c['rows']), c['indy'], ser, fixed, vals, c['by_indy'], c['multi'])
        same_rows(got, c['rows'], want, "kept", cols)
        got = call(event_equalize, frame(alike(c['rows'])), c['indy'], ser, fixed, vals, c['by_indy'], c['multi'])
        same_alike(got, alike(c['rows']), want, "kept", cols)
        # row order and the order of series values do not matter
        moved = [c['rows'][i] for i in c['perm']]
        back = {k: list(reversed(v)) for k, v in reversed(list(c['series'].items()))}
        got = call(event_equalize, frame(moved), c['indy'], back, c['fixed'], [list(reversed(v)) for v in c['fixed_vals']], c['by_indy'], not c['multi'])
    expect(sorted(got['stat_value']) == sorted(c['rows'][i]['stat_value'] for i in want), "result depends on row or series order")
    expect(list(got['stat_value']) == [r['stat_value'] for r in moved if r['stat_value'] in set(got['stat_value'])], "rows not in input order")
    return 0 < len(want) < len(c['rows'])


@st.composite
def run_case(draw):
    two = draw(st.booleans())
    s1 = draw(series(names=('model', 'vx_mask', 'interp_pnts', 'obs_init_beg'), lo=1, hi=2))
    s2 = {}
    if two:
        for k in s1:
            s2[k] = draw(st.lists(st.sampled_from([str(v) for v in POOL[k][:3]]), unique=True, min_size=1, max_size=3))
    left = [k for k in ('fcst_lev', 'vx_mask') if k not in s1]
    fixed = draw(st.lists(st.sampled_from(left), unique=True, max_size=2)) if left else []
    style = draw(st.booleans())
    fix = {}
    for k in fixed:
        vals = draw(st.lists(st.sampled_from(['P500', 'Z2'] if k == 'fcst_lev' else POOL[k]), unique=True, min_size=1, max_size=2))
        fix[k] = {k + '_0': vals} if style else vals
    var1 = draw(st.sampled_from([{'TMP': ['ME']}, {'TMP': ['ME', 'RMSE']}, {'TMP': ['ME'], 'DPT': ['ME']}]))
    # the second axis may ask for what the first one has
    var2 = draw(st.sampled_from([{'DPT': ['RMSE']}, {'WIND': ['ME'], 'DPT': ['RMSE']}, {'TMP': ['ME']}, {'TMP': ['RMSE', 'ME']}, {'DPT': ['ME']}])) if two else {}
    wanted = {k: ungroup(v) for k, v in s1.items()}
    for k, v in s2.items():
        wanted[k] = wanted[k] + ungroup(v)
    wanted.update({k: (list(v.values())[0] if isinstance(v, dict) else v) for k, v in fix.items()})
    data = draw(table('fcst_valid_beg', wanted, [(v, x) for a in (var1, var2) for v in a for x in a[v]], 20))
    return {'rows': data, 's1': s1, 's2': s2, 'fixed': fix, 'var1': var1, 'var2': var2,
            'indy': draw(st.sampled_from(['fcst_lead', 'fcst_valid_beg', 'vx_mask'])), 'line': draw(st.sampled_from(['sl1l2', 'ssvar'])),
            'named': draw(ints(0, 5)) > 0}


def axis_rows(c, ser, var, fixed, by_stat=True):
    """(row number) list kept for one axis: per variable and statistic, then concatenated."""
    out = []
    wanted = {k: ungroup(v) for k, v in ser.items()}
    groups = [(v, s) for v in var for s in var[v]] if by_stat else [(None, None)]
    for v, s in groups:
        pool = [i for i, r in enumerate(c['rows']) if (v is None or (r['fcst_var'] == v and (r['stat_name'] == s or not c['named'])))
                and all(any(matches(r[k], x) for x in wanted[k]) for k in ser)]
        if pool:
            k = kept([c['rows'][i] for i in pool], {**wanted, **fixed}, 'fcst_valid_beg', c['indy'], True)
            out += [pool[i] for i in k if pool[i] not in out]
    return out


def joint(c, idx, fixed):
    wanted = {}
    for s in (c['s1'], c['s2']):
        for k, v in s.items():
            wanted.setdefault(k, []).extend(ungroup(v))
    if not idx:
        return []
    k = kept([c['rows'][i] for i in idx], {**wanted, **fixed}, 'fcst_valid_beg', c['indy'], True)
    return [idx[i] for i in k]


@facet("parameters", run_case(), quick=350, thorough=3000, rule="some but not all rows of the series kept")
def parameters(c):
    fixed = {k: (list(v.values())[0] if isinstance(v, dict) else v) for k, v in c['fixed'].items()}
    idx = axis_rows(c, c['s1'], c['var1'], fixed)
    if c['s2']:
        idx = joint(c, idx + [i for i in axis_rows(c, c['s2'], c['var2'], fixed) if i not in idx], fixed)
    p = {'indy_var': c['indy'], 'line_type': c['line'], 'series_val_1': c['s1'], 'series_val_2': c['s2'],
         'fcst_var_val_1': c['var1'], 'fcst_var_val_2': c['var2'], 'fixed_vars_vals_input': c['fixed']}
    with quiet():
        # a table without names of statistics serves all of them
        def equalized(rows):
            return call(utils.perform_event_equalization, p, frame(rows) if c['named'] else frame(rows).drop(columns='stat_name'))
        got, equal = equalized(c['rows']), equalized(alike(c['rows']))
    cols = [k for k in c['rows'][0] if c['named'] or k != 'stat_name']
    same_rows(got, c['rows'], idx, "kept", cols, ordered=False)
    same_alike(equal, alike(c['rows']), idx, "kept", cols, ordered=False)
    expect('equalize' not in got.columns or not len(got), "working column left in the result")
    return 0 < len(idx) < len(c['rows'])


@facet("program", run_case(), quick=250, thorough=2000, rule="some but not all rows kept")
def program(c):
    fixed = {k: (list(v.values())[0] if isinstance(v, dict) else v) for k, v in c['fixed'].items()}
    idx = axis_rows(c, c['s1'], {}, fixed, False)
    if c['s2']:
        both = idx + [i for i in axis_rows(c, c['s2'], {}, fixed, False) if i not in idx]
        idx = joint(c, both, fixed)
    p = {'indy_var': c['indy'], 'series_val_1': c['s1'], 'series_val_2': c['s2'],
         'fixed_vars_vals_input': {k: (v if isinstance(v, dict) else {k + '_0': v}) for k, v in c['fixed'].items()}}
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        def written(rows):
            frame(rows).to_csv(p['agg_stat_input'], sep='\t', index=False, na_rep='NA')
            call(lambda: AggStatEventEqualize(p).calculate_values())
            return pd.read_csv(p['agg_stat_output'], sep='\t')
        got, equal = written(c['rows']), written(alike(c['rows']))
    same_rows(got, c['rows'], idx, "written", list(c['rows'][0]), ordered=False)
    same_alike(equal, alike(c['rows']), idx, "written", list(c['rows'][0]), ordered=False)
    return 0 < len(idx) < len(c['rows'])
