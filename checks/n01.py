"""Missing and degenerate data: every statistic is a finite number or missing, and never an exception."""
import inspect
import math

import numpy as np

import aggcase
from lines import ROWS
from objects import COUNTS, OBJECT, SIZES
from statfns import FUNCTIONS, degenerate, values_of
from vh import call, expect, facet, ints, is_missing, lists, pick, st

def okay(got, what):
    if isinstance(got, np.ndarray) and got.shape == (1,):
        got = got[0]
    if is_missing(got):
        return
    try:
        fine = math.isfinite(got)
    except (TypeError, ValueError):
        fine = False
    expect(fine, f"{what} is {got!r}")


@facet("statistics", degenerate(), quick=700, thorough=8000, rule="the table has a missing or zero entry")
def statistics(c):
    for name, f in FUNCTIONS[c['line']].items():
        for flag in (False, True) if len(inspect.signature(f).parameters) > 2 else (None,):
            v, columns = values_of(c)
            okay(call(f, v, columns) if flag is None else call(f, v, columns, flag), f"{name} (aggregated: {flag})")
    return bool(c['hits']) or not c['rows']


@st.composite
def objects(draw):
    objs = [draw(OBJECT) for _ in range(draw(ints(0, 6)))]
    hits = [[draw(ints(0, 5)), draw(pick('fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume')), draw(pick('nan', 'zero'))] for _ in range(draw(ints(0, 4)))]
    return {'objs': objs, 'hits': hits, 'all': draw(pick(None, None, 'nan', 'zero')), 'type': draw(pick(None, '2d', '3d')),
            'absent': draw(pick(None, None, None, 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume'))}


@facet("object_statistics", objects(), quick=200, thorough=2000, rule="the table has a missing or zero entry")
def object_statistics(c):
    columns = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume', 'model']
    rows = []
    for i, o in enumerate(c['objs']):
        d = {'object_id': f'F{i:03d}', 'object_type': c['type'] or o['type'], 'fcst_flag': int(o['fcst']), 'simple_flag': int(o['simple']),
             'matched_flag': int(o['matched']), 'area': o['area'], 'volume': o['volume'], 'model': 'M'}
        for k, col, word in c['hits']:
            if k == i:
                d[col] = np.nan if word == 'nan' else 0
        if c['all']:
            d['area'] = d['volume'] = np.nan if c['all'] == 'nan' else 0
        rows.append(d)
    for fns in (COUNTS, SIZES):
        for name, f in fns.items():
            names = [x for x in columns if (fns is COUNTS or x != ('area' if '3d_' in name else 'volume')) and x != c['absent']]
            v = np.array([[d[x] for x in names] for d in rows], dtype=object).reshape(len(rows), len(names))
            okay(call(f, v, np.array(names)), name)
    return bool(c['hits']) or bool(c['all']) or bool(c['absent']) or not rows


# statistics that are quotients, and entries that make the denominator vanish
QUOTIENTS = {
    'sl1l2': [('MBIAS', {'obar': 0}), ('SI', {'obar': 0}), ('PR_CORR', {'fbar': 2, 'ffbar': 4}), ('PR_CORR', {'obar': 3, 'oobar': 9}),
              ('MSESS', {'obar': 3, 'oobar': 9})],
    'sal1l2': [('ANOM_CORR_RAW', {'ffabar': 0}), ('ANOM_CORR_RAW', {'ooabar': 0}), ('ANOM_CORR', {'fabar': 2, 'ffabar': 4}), ('ANOM_CORR', {'oabar': 3, 'ooabar': 9})],
    'grad': [('S1', {'mgbar': 0}), ('S1_OG', {'ogbar': 0}), ('FGOG_RATIO', {'ogbar': 0})],
    'val1l2': [('VAL1L2_ANOM_CORR', {'ufabar': 2, 'vfabar': 1, 'uvffabar': 5}), ('VAL1L2_ANOM_CORR', {'uoabar': 3, 'voabar': 4, 'uvooabar': 25})],
    'vcnt': [('VCNT_ANOM_CORR_UNCNTR', {'uvffabar': 0}), ('VCNT_ANOM_CORR_UNCNTR', {'uvooabar': 0})],
    'ssvar': [('SSVAR_PR_CORR', {'fbar': 2, 'ffbar': 4}), ('SSVAR_PR_CORR', {'obar': 3, 'oobar': 9}), ('SSVAR_MSESS', {'obar': 3, 'oobar': 9}),
              ('SSVAR_ANOM_CORR', {'fbar': 2, 'ffbar': 4})],
    'mctc': [('MCTS_HSS_EC', 'all')],
    'ctc': [('BASER', 'all'), ('ACC', 'all'), ('FMEAN', 'all'), ('FBIAS', {'fy_oy': 0, 'fn_oy': 0}), ('PODY', {'fy_oy': 0, 'fn_oy': 0}),
            ('POFD', {'fy_on': 0, 'fn_on': 0}), ('PODN', {'fy_on': 0, 'fn_on': 0}), ('FAR', {'fy_oy': 0, 'fy_on': 0}),
            ('CSI', {'fy_oy': 0, 'fy_on': 0, 'fn_oy': 0}), ('HK', {'fy_on': 0, 'fn_on': 0}), ('HK', {'fy_oy': 0, 'fn_oy': 0}),
            ('GSS', {'fy_oy': 0, 'fy_on': 0, 'fn_oy': 0}), ('HSS', {'fy_oy': 0, 'fy_on': 0, 'fn_oy': 0}), ('ODDS', {'fn_oy': 0}), ('ODDS', {'fy_on': 0}),
            ('LODDS', {'fn_oy': 0}), ('LODDS', {'fy_oy': 0}), ('ORSS', 'all'), ('ORSS', {'fy_oy': 0, 'fn_oy': 0}), ('ODDS1', {'fn_oy': 0}), ('ODDS1', {'fy_on': 0}),
            ('EDS', 'all'), ('SEDS', 'all'), ('EDI', 'all'), ('SEDI', 'all'), ('EDI', {'fy_on': 0, 'fn_on': 0}), ('SEDI', {'fy_oy': 0, 'fn_oy': 0}), ('BAGSS', 'all'),
            ('LODDS', {'fy_on': 0}), ('LODDS', {'fn_on': 0})],
    'rps': [('RPSS', {'rps': 0, 'rpss': 0})],
    'ecnt': [('ECNT_CRPSS', {'crpscl': 0}), ('ECNT_CRPSS_EMP', {'crpscl_emp': 0}), ('ECNT_BIAS_RATIO', {'me_lt_obs': 0})],
    'nbr_cnt': [('NBR_AFSS', {'f_rate': 0, 'o_rate': 0})],
    'pct': [('PSTD_BRIER', 'all'), ('PSTD_BASER', 'all'), ('PSTD_ROC_AUC', 'oy'), ('PSTD_ROC_AUC', 'on'), ('PSTD_BSS_SMPL', 'oy'), ('PSTD_BSS_SMPL', 'on'),
            ('PSTD_CALIBRATION', 'all'), ('PSTD_RELIABILITY', 'all'), ('PSTD_RESOLUTION', 'all'), ('PSTD_UNCERTAINTY', 'all')],
}
QUOTIENTS['nbr_ctc'] = [('NBR_' + s, e) for s, e in QUOTIENTS['ctc'] if s in 'BASER ACC FMEAN FBIAS PODY POFD PODN FAR CSI HK GSS HSS ODDS'.split()]


@st.composite
def quotient(draw):
    line = draw(st.sampled_from(sorted(QUOTIENTS)))
    k = draw(ints(0, len(QUOTIENTS[line]) - 1))
    rows = [draw(ROWS[line]()) for _ in range(draw(pick(1, 1, 2, 3)))]
    return {'line': line, 'which': k, 'rows': rows, 'text': draw(st.booleans()), 'columns': draw(st.permutations(sorted(rows[0])))}


@facet("quotients", quotient(), quick=600, thorough=5000, rule="the quotient has other than zero entries")
def quotients(c):
    stat, entries = QUOTIENTS[c['line']][c['which']]
    rows = []
    for r in c['rows']:
        r = dict(r)
        if entries == 'all':
            r.update({k: 0 for k in r if k[:3] in ('fy_', 'fn_', 'oy_', 'on_') or k.startswith('fi_oj')})
        elif entries in ('oy', 'on'):
            r.update({k: 0 for k in r if k.startswith(entries + '_i')})
        else:
            r.update(entries)
        if c['line'] in ('ctc', 'nbr_ctc'):
            r['total'] = r['fy_oy'] + r['fy_on'] + r['fn_oy'] + r['fn_on']
        if c['line'] == 'mctc':
            r['total'] = 0
        if c['line'] == 'pct':
            r['total'] = sum(v for k, v in r.items() if k[:4] in ('oy_i', 'on_i'))
        rows.append(r)
    if c['line'] in ('sl1l2', 'sal1l2', 'val1l2', 'ssvar'):
        rows = rows[:1]
    f = FUNCTIONS[c['line']][stat]
    v, columns = values_of({'line': c['line'], 'rows': rows, 'hits': [], 'columns': c['columns'], 'absent': None, 'text': c['text']})
    got = call(f, v, columns) if len(inspect.signature(f).parameters) == 2 else call(f, v, columns, False)
    expect(is_missing(got), f"{stat} is {got!r} although its denominator is zero")
    return len(rows) > 1 or entries != 'all'


@st.composite
def file(draw):
    c = draw(aggcase.case())
    numeric = sorted(set(c['rows'][0]) - set(aggcase.COMMON) - {'n_cat', 'n_thresh', 'ec_value'} - {f'{a}_value_{i}' for a in 'ij' for i in range(9)})
    numeric = [k for k in numeric if not k.startswith('thresh_i')]      # the layout of the row, the same in all rows
    c['hits'] = [[draw(pick('cell', 'cell', 'row', 'column')), draw(ints(0, 15)), draw(st.sampled_from(numeric)), draw(pick('nan', 'nan', 'zero'))]
                 for _ in range(draw(pick(1, 2, 3, 6)))]
    return c


@facet("program", file(), quick=120, thorough=1200, rule="a point uses a row with a missing or zero entry")
def program(c):
    """The aggregation of a file with missing and zero entries writes all its points."""
    rows = [dict(r) for r in c['rows']]
    touched = set()
    for kind, i, col, word in c['hits']:
        for k, r in enumerate(rows):
            if kind == 'column' or k == i % len(rows):
                touched.add(k)
                for name in ([x for x in r if x not in aggcase.COMMON and not x.startswith(('i_v', 'j_v', 'n_', 'thresh', 'ec_'))] if kind == 'row' else [col]):
                    r[name] = None if word == 'nan' else 0
    p = aggcase.parameters(c)
    out = aggcase.run(aggcase.table(dict(c, rows=rows), sorted(set(c['stats1']) | set(c['stats2']))), p)
    some = False
    for axis, var, point, stat in aggcase.expected_points(c, p):
        mine = [o for o in out if o['stat_name'] == stat and o['fcst_var'] == var and all(o[k] == v for k, v in point.items())]
        expect(mine, f"no output row for axis {axis} {point} {stat}")
        okay(aggcase.number(mine[0]['stat_value']), f"{stat} of {point}")
        idx = aggcase.selected(c, point, var)
        some = some or bool(touched & set(idx))
    return some
