"""Combining rows of several field values conserves pair counts and sums."""
import os

import pandas as pd

import agg
import lines
from aggcase import number
from ee import VALID
from vh import call, expect, facet, ints, is_missing, pick, quiet, scratch, st
from metcalcpy.agg_stat import AggStat
from metcalcpy.util.utils import aggregate_field_values

# line type name of this operation and of the row generator
TYPES = {'ctc': 'ctc', 'nbrctc': 'nbr_ctc', 'sl1l2': 'sl1l2', 'sal1l2': 'sal1l2', 'vl1l2': 'vl1l2', 'val1l2': 'val1l2', 'grad': 'grad',
         'nbrcnt': 'nbr_cnt', 'ecnt': 'ecnt', 'rps': 'rps'}
POOL = {'vx_mask': ['EAST', 'NMT', 'W', 'POLAR'], 'model': ['A', 'B', 'A_2', 'C'], 'interp_pnts': [1, 9, 16, 25], 'frac': [0.25, 0.5, 1.5, 2.5],
        'fcst_lead': [30000, 60000, 120000, 1200000]}


@st.composite
def rows_of(draw, line, n):
    strat = lines.ROWS[TYPES.get(line, line)]()
    whole = draw(ints(0, 3)) == 0
    few = {k: draw(st.lists(st.sampled_from(v[:3] if k == 'fcst_lead' else v), unique=True, min_size=1, max_size=2 if k == 'fcst_lead' else 3)) for k, v in POOL.items()}
    days = draw(ints(1, 3))
    out = []
    for _ in range(n):
        r = {k: draw(st.sampled_from(v)) for k, v in few.items()}
        r.update(fcst_valid_beg=draw(st.sampled_from(VALID[:days])), fcst_var='TMP', stat_name=draw(pick('X', 'X', 'X', 'Y')))
        m = draw(strat)
        if whole and line in ('grad', 'ecnt'):          # columns that happen to hold whole numbers
            m = {k: (int(v) + 1 if isinstance(v, float) and v > 0 and k not in ('crpss', 'crpss_emp') else v) for k, v in m.items()}
        out.append({**r, **m})
    return out


@st.composite
def case(draw):
    line = draw(st.sampled_from(sorted(TYPES)))
    var = draw(st.sampled_from(['vx_mask', 'vx_mask', 'model', 'interp_pnts', 'frac', 'fcst_lead']))
    rows = draw(rows_of(line, draw(st.one_of(ints(1, 5), ints(3, 20)))))
    there = sorted({r[var] for r in rows})
    vals = [str(v) for v in draw(st.permutations(there)) + [v for v in POOL[var] if v not in there]]
    form = draw(pick('one', 'one', 'rest', 'two', 'single', 'none'))
    groups = {'one': [vals[0] + ';' + vals[1]], 'rest': [';'.join(vals[:3]), vals[3]], 'two': [';'.join(vals[:2]), ';'.join(vals[2:])],
              'single': [vals[0] + ';'], 'none': vals[:2]}[form]
    return {'line': line, 'var': var, 'groups': groups, 'rows': rows,
            'other': draw(st.booleans()), 'index': draw(ints(0, 5))}


def key(c, r):
    return tuple(str(r[k]) for k in ('fcst_valid_beg', 'fcst_lead', 'stat_name') if k != c['var'])


@facet("combined", case(), quick=250, thorough=2500, rule="some combined row stands for two or more rows")
def combined(c):
    frame = pd.DataFrame(c['rows'])
    frame.index = frame.index + c['index']
    series = {c['var']: list(c['groups'])}
    if c['other']:
        series = {'fcst_var': ['TMP'], **series}
    with quiet():
        out = call(aggregate_field_values, series, frame.copy(), c['line']).to_dict('records')
    want, rest = [], list(c['rows'])
    for g in c['groups']:
        if ';' not in g:
            continue
        members = g.split(';')
        mine = [r for r in rest if str(r[c['var']]) in members]
        rest = [r for r in rest if str(r[c['var']]) not in members]
        found = {}
        for r in mine:
            found.setdefault(key(c, r), []).append(r)
        want += [(g, rows) for rows in found.values()]
    expect(len(out) == len(want) + len(rest), f"{len(out)} rows out of {len(c['rows'])}, expected {len(want)} combined and {len(rest)} others")
    left = list(out)
    for r in rest:
        same = [o for o in left if all(o[k] == v for k, v in r.items())]
        expect(same, f"row {r} that is not to be combined is missing or changed")
        left.remove(same[0])
    some = False
    for g, rows in want:
        lead = c['var'] == 'fcst_lead'
        mine = [o for o in left if key(c, o) == key(c, rows[0]) and (str(o[c['var']]) in g.split(';') if lead else o[c['var']] == g)]
        expect(mine, f"no row {g} for {key(c, rows[0])}")
        o = mine[0]
        left.remove(o)
        p = lines.pool(TYPES[c['line']], rows)
        for k in p:
            if k in lines.COUNTS:
                expect(o[k] == p[k], f"{g} {key(c, rows[0])}: {k} {o[k]}, the rows add up to {p[k]}")
            elif k in MEANS[c['line']]:
                expect(abs(o[k] - p[k]) <= 1e-9 * max(1, abs(p[k])), f"{g} {key(c, rows[0])}: {k} {o[k]}, weighted mean {p[k]}")
        statistics(c['line'], o, rows, f"{g} {key(c, rows[0])}")
        some = some or len(rows) > 1
    return some


MEANS = {'ctc': [], 'nbrctc': [], 'sl1l2': ['fbar', 'obar', 'fobar', 'ffbar', 'oobar'], 'sal1l2': ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar'],
         'vl1l2': ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar'],
         'val1l2': ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar'], 'grad': ['fgbar', 'ogbar', 'mgbar', 'egbar'],
         'nbrcnt': ['fbs', 'f_rate', 'o_rate'], 'ecnt': ['me', 'crps', 'ign', 'me_oerr'], 'rps': ['rps', 'rps_comp']}


def statistics(line, o, rows, what):
    """Every statistic of the combined row is that of the rows it stands for."""
    t = TYPES[line]
    cols = list(lines.ROWS_COLUMNS(t, rows))
    o = {k: float(o[k]) for k in cols}
    for s in lines.STATS[t]:
        with quiet():
            got, want = lines.statistic(t, s, [o]), lines.statistic(t, s, rows)
        if is_missing(want) or is_missing(got):
            expect(is_missing(got) == is_missing(want), f"{what}: {s} {got}, of the rows {want}")
        else:
            expect(abs(got - want) <= lines.tolerance(t, s, want), f"{what}: {s} {got}, of the rows {want}")


@st.composite
def runs(draw):
    line = draw(st.sampled_from(['ctc', 'nbr_ctc', 'sl1l2', 'sal1l2', 'vl1l2', 'val1l2', 'grad', 'nbr_cnt', 'ecnt', 'rps']))
    var = draw(pick('vx_mask', 'fcst_lead', 'interp_pnts'))
    rows = draw(rows_of(line, draw(ints(2, 14))))
    there = sorted({r[var] for r in rows})
    vals = [str(v) for v in draw(st.permutations(there)) + [v for v in POOL[var] if v not in there]]
    return {'line': line, 'var': var, 'ivals': [';'.join(vals[:2]), vals[2]] if draw(st.booleans()) else [';'.join(vals[:3])], 'rows': rows,
            'models': draw(pick(['A'], ['A', 'B'])), 'stats': draw(st.lists(st.sampled_from(lines.STATS[line]), unique=True, min_size=1, max_size=2)),
            'masks': draw(pick([], [], ['EAST;NMT'], ['EAST;NMT', 'NMT;W'], ['EAST', 'W;EAST']))}


@facet("aggregation", runs(), quick=150, thorough=1500, rule="a defined value over two or more rows")
def aggregation(c):
    """Through the aggregation program: the value is that of the rows, their number that of the combined rows."""
    series = {'model': c['models']}
    if c['masks'] and c['var'] != 'vx_mask':
        series['vx_mask'] = c['masks']
    p = agg.params(line_type=c['line'], series_val_1=series, indy_var=c['var'], indy_vals=c['ivals'], list_stat_1=c['stats'],
                   fcst_var_val_1={'TMP': c['stats']})
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(agg.per_stat([dict(r, stat_value=None) for r in c['rows']], c['stats']), p['agg_stat_input'])
        call(lambda: AggStat(p).calculate_stats_and_ci())
        out = pd.read_csv(p['agg_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records')
    some = False
    expect(len(out) == len(c['models']) * len(series.get('vx_mask', [0])) * len(c['ivals']) * len(c['stats']), f"{len(out)} output rows")
    for o in out:
        rows = [r for r in c['rows'] if all(str(r[k]) in o[k].split(';') for k in [*series, c['var']])]
        want = lines.statistic(c['line'], o['stat_name'], rows)
        what = f"{c['line']} {o['stat_name']} of {[o[k] for k in [*series, c['var']]]} ({len(rows)} rows)"
        got = number(o['stat_value'])
        n = {(r['fcst_valid_beg'], None if c['var'] == 'fcst_lead' else r['fcst_lead']) for r in rows}
        expect(int(o['nstats']) == (len(n) if ';' in o[c['var']] else len(rows)), f"{what}: {o['nstats']} rows reported")
        if is_missing(want):
            expect(got is None, f"{what}: got {got}, expected missing")
            continue
        expect(got is not None and abs(got - want) <= lines.tolerance(c['line'], o['stat_name'], want), f"{what}: got {got}, expected {want}")
        some = some or len(rows) > 1
    return some
