"""Generated parameter sets and tables for the aggregation program, and its expected output."""
import itertools
import os

import pandas as pd

import agg
import ee
import lines
from vh import call, expect, fail, ints, is_missing, quiet, scratch, st
from metcalcpy.agg_stat import AggStat

POOL = {'model': ['A', 'B', 'A_2'], 'vx_mask': ['E', 'W'], 'interp_pnts': [1, 9], 'frac': [0.25, 0.5],
        'fcst_lead': [30000, 120000, 1200000], 'fcst_valid_beg': ee.VALID[:3]}
COMMON = ['model', 'vx_mask', 'interp_pnts', 'frac', 'fcst_lead', 'fcst_valid_beg', 'fcst_var', 'stat_name']


@st.composite
def chosen(draw, key, absent=True):
    """Series or independent values of one variable as text, some grouped, maybe one that never occurs."""
    vals = [str(v) for v in draw(st.lists(st.sampled_from(POOL[key]), unique=True, min_size=1, max_size=3))]
    if len(vals) > 1 and draw(ints(0, 2)) == 0:
        k = draw(ints(2, len(vals)))
        # members of the group may be asked for on their own as well
        vals = [ee.SEP.join(vals[:k])] + vals[draw(st.sampled_from([k, k, 0, 1])):]
    if absent and draw(ints(0, 5)) == 0:
        vals.append({'model': 'none such', 'vx_mask': 'none', 'interp_pnts': '77', 'frac': '0.75', 'fcst_lead': '990000',
                     'fcst_valid_beg': '2021-05-05 00:00:00'}[key])
    return vals


@st.composite
def rows_of(draw, line, n, var=('TMP',)):
    strat = lines.ROWS[line]()
    out = []
    for _ in range(n):
        r = {k: draw(st.sampled_from(POOL[k])) for k in POOL}
        r['fcst_var'] = draw(st.sampled_from(var))
        r.update(draw(strat))
        out.append(r)
    return out


@st.composite
def case(draw, line_types=tuple(lines.ROWS), named=False):
    line = draw(st.sampled_from(line_types))
    keys = draw(st.permutations(['model', 'vx_mask', 'interp_pnts', 'frac']))[:draw(st.sampled_from([1, 1, 2]))]
    indy = draw(st.sampled_from(['fcst_lead', 'fcst_lead', 'fcst_valid_beg'] + [k for k in ('vx_mask', 'frac') if k not in keys]))
    s1 = {k: draw(chosen(k)) for k in keys}
    stats = draw(st.lists(st.sampled_from(lines.STATS[line]), unique=True, min_size=1, max_size=3))
    two = draw(ints(0, 3)) == 0
    s2 = {k: draw(chosen(k)) for k in keys} if two else {}
    stats2 = draw(st.lists(st.sampled_from(lines.STATS[line]), unique=True, min_size=1, max_size=2)) if two else []
    rows = draw(rows_of(line, draw(st.one_of(ints(1, 8), ints(4, 16))), ('TMP', 'TMP', 'DPT')))
    if named and draw(ints(0, 3)) == 0:                  # a series value that is also the name of a statistic
        name = draw(st.sampled_from(stats + stats2))
        rows = [dict(r, model=name) if r['model'] == 'B' else r for r in rows]
        for s in (s1, s2):
            if 'model' in s:
                s['model'] = [ee.SEP.join(name if x == 'B' else x for x in v.split(ee.SEP)) for v in s['model']]
    return {'line': line, 's1': s1, 's2': s2, 'indy': indy, 'ivals': draw(chosen(indy)), 'stats1': stats, 'stats2': stats2, 'rows': rows,
            'var2': draw(st.sampled_from(['TMP', 'DPT'])), 'no_indy': draw(ints(0, 9)) == 0}


def split(v):
    return ee.ungroup([v])


def selected(c, point, var):
    """Row numbers of one point."""
    out = []
    for i, r in enumerate(c['rows']):
        if r['fcst_var'] == var and all(any(str(r[k]) == x for x in split(v)) for k, v in point.items()):
            out.append(i)
    return out


def parameters(c, **over):
    p = agg.params(line_type=c['line'], series_val_1=c['s1'], series_val_2=c['s2'], indy_var=c['indy'], indy_vals=c['ivals'],
                   list_stat_1=c['stats1'], list_stat_2=c['stats2'], fcst_var_val_1={'TMP': c['stats1']},
                   fcst_var_val_2={c['var2']: c['stats2']} if c['s2'] else {}, **over)
    if c.get('no_indy'):
        p['indy_vals'] = []
    return p


def run_text(rows, p, program=AggStat, before=None):
    """Output file as text."""
    p = dict(p)
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(rows, p['agg_stat_input'])
        if before is not None:
            with open(p['agg_stat_output'], 'w') as f:
                f.write(before)
        call(lambda: program(p).calculate_stats_and_ci())
        with open(p['agg_stat_output']) as f:
            return f.read()


def check_append(rows, p, flag, program=AggStat):
    """Appending keeps what the file holds and adds the rows without a second header."""
    fresh = run_text(rows, p, program)
    text = run_text(rows, dict(p, append_to_file=flag), program, 'first\tline\n')
    if flag in ('True', True):
        expect(text == 'first\tline\n' + fresh.split('\n', 1)[1], f"appended file {text[:200]!r}")
        return True
    expect(text == fresh, f"replaced file {text[:200]!r}")
    return False


def run(rows, p):
    """Output rows as text."""
    p = dict(p)
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(rows, p['agg_stat_input'])
        call(lambda: AggStat(p).calculate_stats_and_ci())
        text = open(p['agg_stat_output']).read()
        if not text.strip():
            return []
        return pd.read_csv(p['agg_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records')


def number(text):
    return None if text in ('NA', '', 'nan', 'None') else float(text)


def expected_points(c, p):
    for axis, var in (('1', 'TMP'), ('2', c['var2'])):
        ser = p['series_val_' + axis]
        if axis == '2' and not ser:
            continue
        fields = dict(ser)
        if p['indy_vals']:
            fields[p['indy_var']] = p['indy_vals']
        for combo in itertools.product(*fields.values()):
            for s in p['list_stat_' + axis]:
                yield axis, var, dict(zip(fields, combo)), s


def compare(c, p, out, keep=None):
    """Every expected point has its output row with the value and number of exactly its rows."""
    left = list(out)
    some = False
    for axis, var, point, stat in expected_points(c, p):
        match = [o for o in left if o['stat_name'] == stat and all(o[k] == v for k, v in point.items()) and o['fcst_var'] == var]
        if not match:
            fail(f"no output row for axis {axis} {point} {stat}")
        o = match[0]
        left.remove(o)
        idx = selected(c, point, var)
        if keep is not None:
            idx = [i for i in idx if i in keep[stat, axis]]
        rows = [c['rows'][i] for i in idx]
        with quiet():
            want = lines.statistic(c['line'], stat, rows)
        got = number(o['stat_value'])
        label = f"{c['line']} {stat} of {point} ({len(rows)} rows)"
        expect(o['nstats'] == str(len(rows)), f"{label}: {o['nstats']} rows reported")
        if is_missing(want):
            expect(got is None, f"{label}: got {got}, expected missing")
            continue
        expect(got is not None, f"{label}: missing, expected {want}")
        expect(abs(got - want) <= lines.tolerance(c['line'], stat, want), f"{label}: got {got}, expected {want}")
        some = some or len(rows) > 1
    expect(not left, f"unexpected output rows {left[:2]}")
    return some


def table(c, stats):
    return agg.per_stat([dict(r, stat_value=None) for r in c['rows']], stats)


@st.composite
def bins(draw):
    """Rows of single probability bins over one or two series variables."""
    mids = sorted(draw(st.lists(st.sampled_from([0.05, 0.1, 0.25, 0.5, 0.75, 0.9]), unique=True, min_size=1, max_size=4)))
    rows = []
    for day in draw(st.lists(st.sampled_from(ee.VALID), unique=True, min_size=1, max_size=3)):
        for m in draw(st.lists(st.sampled_from(['A', 'B', 'A_2']), unique=True, min_size=1)):
            for v in draw(st.sampled_from([['E'], ['E', 'W']])):
                for t in mids:
                    rows.append({'model': m, 'vx_mask': v, 'fcst_valid_beg': day, 'fcst_lead': 30000, 'fcst_var': 'TMP', 'thresh_i': t,
                                 'oy_i': draw(ints(0, 50)), 'on_i': draw(ints(0, 50)), 'stat_value': None})
    if draw(ints(0, 3)) == 0:                        # another variable in the same file
        rows += [dict(r, fcst_var='DPT', oy_i=draw(ints(0, 50)), on_i=draw(ints(0, 50))) for r in rows]
    return {'rows': rows, 'mids': mids, 'models': draw(st.sampled_from([['A'], ['A', 'B'], ['A:B'], ['A:A_2', 'B']])),
            'masks': draw(st.sampled_from([[], ['E'], ['W', 'E'], ['E:W']])), 'order': draw(st.permutations(range(len(rows))))}


def bin_parameters(c, stats):
    series = {'model': c['models']}
    if c['masks']:
        series['vx_mask'] = c['masks']
    return agg.params(line_type='pct', series_val_1=series, indy_var='thresh_i', indy_vals=['ignored'], list_stat_1=stats, fcst_var_val_1={'TMP': stats})
