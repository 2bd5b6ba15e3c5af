"""Object aggregation reports each series point's own object ratios."""
import itertools
import os

import pandas as pd

import agg
import objects
from aggcase import number
from ee import VALID
from vh import call, expect, facet, ints, near, pick, quiet, scratch, st
from metcalcpy.agg_stat_bootstrap import AggStatBootstrap

POOL = {'model': ['A', 'B', 'A_2'], 'vx_mask': ['E', 'W'], 'interp_pnts': [1, 9], 'frac': [0.25, 0.5]}
INDY = {'fcst_lead': [30000, 120000, 1200000], 'fcst_valid': VALID[:3], 'fcst_lev': ['P500', 'P1000'], 'scale': [0.5, 1.5]}


@st.composite
def case(draw, iterations=1):
    keys = draw(st.permutations(list(POOL)))[:draw(pick(1, 1, 2))]
    # a few values of each field per case, so that points hold several objects
    few = {k: draw(st.lists(st.sampled_from(v), unique=True, min_size=1, max_size=2)) for k, v in {**POOL, **INDY}.items()}
    few['fcst_valid'] = INDY['fcst_valid']
    indy = draw(st.sampled_from(['fcst_lead'] + sorted(INDY)))

    def chosen(k):
        vals = [str(v) for v in draw(st.lists(st.sampled_from(draw(pick(few, few, POOL))[k]), unique=True, min_size=1, max_size=3))]
        if len(vals) > 1 and draw(ints(0, 2)) == 0:
            vals = [':'.join(vals[:2])] + vals[2:]
        if draw(ints(0, 7)) == 0:
            vals.append({'model': 'none', 'vx_mask': 'N', 'interp_pnts': '77', 'frac': '0.75'}[k])
        return vals
    two = draw(ints(0, 3)) == 0
    size = draw(pick(None, None, 'area', 'volume'))
    names = objects.names(size)
    rows = []
    for i in range(draw(st.one_of(ints(1, 10), ints(8, 40)) if iterations == 1 else ints(4, 40))):
        o = draw(objects.OBJECT)
        o.update({k: draw(st.sampled_from(v)) for k, v in few.items()})
        o['fcst_var'] = draw(pick('APCP', 'APCP', 'REFC'))
        rows.append(o)
    return {'rows': rows, 'size': size, 's1': {k: chosen(k) for k in keys}, 's2': {k: chosen(k) for k in keys} if two else {}, 'indy': indy,
            'ivals': [str(v) for v in draw(st.lists(st.sampled_from(few[indy] if draw(ints(0, 3)) else INDY[indy]), unique=True, min_size=1, max_size=3))],
            'stats1': draw(st.lists(st.sampled_from(names), unique=True, min_size=1, max_size=4)),
            'stats2': draw(st.lists(st.sampled_from(names), unique=True, min_size=1, max_size=2)) if two else [],
            'var2': draw(pick('APCP', 'REFC')), 'iterations': iterations, 'seed': draw(ints(1, 10 ** 6)), 'method': draw(pick('perc', 'perc', 'pivotal')),
            'no_var': draw(ints(0, 9)) == 0 and not two}


def params(c, **over):
    p = {'indy_var': c['indy'], 'indy_vals': list(c['ivals']), 'series_val_1': {k: list(v) for k, v in c['s1'].items()},
         'series_val_2': {k: list(v) for k, v in c['s2'].items()}, 'list_stat_1': c['stats1'], 'list_stat_2': c['stats2'],
         'fcst_var_val_1': {} if c['no_var'] else {'APCP': c['stats1']}, 'fcst_var_val_2': {c['var2']: c['stats2']} if c['s2'] else {},
         'num_iterations': c['iterations'], 'num_threads': 1, 'method': c['method'], 'random_seed': c['seed'], 'event_equal': 'False', 'alpha': 0.05}
    p.update(over)
    return p


def row(i, o, size):
    r = {k: o[k] for k in (*POOL, *INDY, 'fcst_var')}
    r.update(object_id=f"F{i:03d}", object_type=o['type'], fcst_flag=int(o['fcst']), simple_flag=int(o['simple']), matched_flag=int(o['matched']))
    if size:
        r[size] = o[size]
    r.update(stat_name='OBJ', stat_value=None)
    return r


def table(c, rows=None):
    return [row(i, o, c['size']) for i, o in enumerate(c['rows'] if rows is None else rows)]


def run(rows, p, prev=None, name='agg_stat_bootstrap.data', equalized=None):
    with scratch() as d, quiet():
        p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, name), os.path.join(d, 'out.data')
        os.makedirs(os.path.dirname(p['agg_stat_input']), exist_ok=True)
        agg.write(rows, p['agg_stat_input'])
        given = open(p['agg_stat_input']).read()
        if prev is not None:
            p['agg_stat_input_ee'] = os.path.join(d, 'ee.data')
            agg.write(prev, p['agg_stat_input_ee'])
        call(lambda: AggStatBootstrap(p).calculate_values())
        expect(open(p['agg_stat_input']).read() == given, "the input file was changed")
        if equalized is not None:
            # the equalized table is kept beside the input
            more = [f for f in os.listdir(os.path.dirname(p['agg_stat_input'])) if f not in (os.path.basename(name), 'out.data', 'ee.data', 'agg_stat_bootstrap')]
            expect(len(more) == 1, f"files written beside the input: {more}")
            with open(os.path.join(os.path.dirname(p['agg_stat_input']), more[0]), encoding='utf-8') as f:
                lines = [x.split('\t') for x in f.read().splitlines()]
            at = lines[0].index('object_id') if equalized else 0
            expect(sorted(x[at] for x in lines[1:]) == sorted(equalized), f"equalized objects {sorted(x[at] for x in lines[1:])}, expected {sorted(equalized)}")
        if not open(p['agg_stat_output']).read().strip():
            return []
        return pd.read_csv(p['agg_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records')


def points(c):
    for axis in '12':
        ser, stats = c['s' + axis], c['stats' + axis]
        if not ser:
            continue
        var = c['var2'] if axis == '2' else 'APCP'
        for combo in itertools.product(*ser.values(), c['ivals'], stats):
            point = dict(zip([*ser, c['indy'], 'stat_name'], combo))
            yield axis, var, point


def chosen_rows(c, var, point, rows):
    return [o for o in rows if (c['no_var'] or o['fcst_var'] == var)
            and all(str(o[k]) in (v.split(':') if k in POOL else [v]) for k, v in point.items() if k != 'stat_name')]


def check_values(c, out, rows=None):
    rows = c['rows'] if rows is None else rows
    left = list(out)
    some = []
    for axis, var, point in points(c):
        mine = [o for o in left if all(o[k] == v for k, v in point.items()) and (c['no_var'] or o['fcst_var'] == var)]
        expect(mine, f"no output row for axis {axis} {point}")
        o = mine[0]
        left.remove(o)
        objs = chosen_rows(c, var, point, rows)
        want, empty = objects.oracle(objs, 'calculate_' + point['stat_name'].lower(), c['size'])
        got = number(o['stat_value'])
        expect(number(o['nstats']) == len(objs), f"{point}: {o['nstats']} rows reported, {len(objs)} used")
        if not (empty and c['size'] and got is None):
            expect(near(got, want, 1e-6, 1e-6), f"{point}: {got} over {len(objs)} objects, expected {want}")
        some.append((o, objs, got))
    expect(not left, f"unexpected output {left[:2]}")
    return some


@facet("values", case(), quick=400, thorough=4000, rule="two or more points with a defined value from two or more objects")
def values(c):
    return sum(1 for o, objs, v in check_values(c, run(table(c), params(c))) if v is not None and len(objs) > 1) > 1


@facet("bounds", case(25), quick=120, thorough=1500, rule="an interval of some width")
def bounds(c):
    """Intervals are ordered, within what subsets of the cases can give, and missing for a single case."""
    some = False
    for o, objs, v in check_values(c, run(table(c), params(c))):
        lo, hi = number(o['stat_btcl']), number(o['stat_btcu'])
        expect((lo is None) == (hi is None), f"one bound only: {o}")
        if v is None:
            expect(lo is None, f"bounds without a value: {o}")
        if lo is None:
            continue
        expect(lo <= hi, f"bounds out of order: {o}")
        if o['stat_name'].upper().startswith(('RATIO_ASM_ASA', 'RATIO_FSA_ASA', 'OBJCSI')) and c['method'] == 'perc':
            expect(-1e-9 <= lo and hi <= 1 + 1e-9, f"bounds of a fraction: {o}")
        some = some or hi > lo
    return some


@facet("single_case", case(25), quick=60, thorough=600, rule="a point with a defined value from two or more objects")
def single_case(c):
    """When every object belongs to one case, every resample is the data itself."""
    one = [dict(o, fcst_valid=VALID[0]) for o in c['rows']]
    c = dict(c, rows=one, indy='fcst_lead', ivals=['30000', '120000'])
    some = False
    for o, objs, v in check_values(c, run(table(c), params(c))):
        lo, hi = number(o['stat_btcl']), number(o['stat_btcu'])
        same_key = len({(x['fcst_valid'], x['fcst_lead']) for x in objs}) <= 1
        if v is not None and same_key and lo is not None:
            expect(near(lo, v, 1e-6, 1e-6) and near(hi, v, 1e-6, 1e-6), f"one case, but the interval is {lo} to {hi} around {v}")
        some = some or (v is not None and len(objs) > 1)
    return some


@facet("independent", case(12), quick=60, thorough=600, rule="two or more points")
def independent(c):
    """A point's value and rows do not depend on the other points, statistics and axes of the run."""
    full = run(table(c), params(c))
    for axis, var, point in list(points(c))[:3]:
        one = dict(c, s1={k: [point[k]] for k in c['s1']}, ivals=[point[c['indy']]], stats1=[point['stat_name']], s2={}, stats2=[])
        p = params(one, fcst_var_val_1={} if c['no_var'] else {var: one['stats1']})
        o = run(table(c), p)
        mine = [f for f in full if all(f[k] == v for k, v in point.items()) and (c['no_var'] or f['fcst_var'] == var)]
        expect(len(o) == 1 and all(o[0][k] == mine[0][k] for k in ('stat_value', 'nstats')), f"alone {o}, with the others {mine}")
    return len(full) > 1


@facet("unrelated", case(25), quick=100, thorough=800, rule="objects of no point of the run, and an interval of some width")
def unrelated(c):
    """Objects of other variables, series values or levels change neither values nor resampled bounds."""
    mine = [i for i, o in enumerate(c['rows']) if any(chosen_rows(c, var, point, [o]) for _, var, point in points(c))]
    if not mine:
        return False
    rows = table(c)
    full, own = run(rows, params(c)), run([rows[i] for i in mine], params(c))
    expect(len(full) == len(own), f"{len(full)} rows with the others, {len(own)} without")
    wide = False
    for a, b in zip(full, own):
        for k in ('stat_value', 'stat_btcl', 'stat_btcu'):
            x, y = number(a[k]), number(b[k])
            expect((x is None and y is None) or (x is not None and y is not None and near(x, y, 1e-9, 1e-9)), f"{k} is {a[k]} with objects of no point, {b[k]} without: {a}")
        lo, hi = number(a['stat_btcl']), number(a['stat_btcu'])
        wide = wide or (lo is not None and hi is not None and hi > lo)
    return wide and len(mine) < len(rows)


NAMES = ['agg_stat_bootstrap.data', 'plot_1.agg_stat_bootstrap', 'objects.data', 'agg_stat_bootstrap/objects.txt']


@facet("equalized", st.tuples(case(), pick(*NAMES)).map(lambda t: dict(t[0], name=t[1])), quick=80, thorough=800, rule="equalization removes some objects and leaves a defined value")
def equalized(c):
    """Only objects of the listed valid times and leads of their axis count, and the input stays as it is."""
    c = dict(c, no_var=False)
    # series values of the equalization step are whole numbers or text
    for k in ('s1', 's2'):
        c[k] = ({f: v for f, v in c[k].items() if f != 'frac'} or {'model': ['A', 'B']}) if c[k] else {}
    prev = []
    some = c['rows'][:1 + c['seed'] % 4]
    for o in some:
        prev.append({**{k: o[k] for k in (*POOL, *INDY, 'fcst_var')}, 'equalize': f"{o['fcst_valid']} {o['fcst_lead']}"})
    axes = [(c['s1'], 'APCP')] + [(c['s2'], c['var2'])] * bool(c['s2'])
    kept, members = [], []
    for ser, var in axes:
        mine = [i for i, o in enumerate(c['rows']) if o['fcst_var'] == var and all(str(o[k]) in ':'.join(v).split(':') for k, v in ser.items())]
        listed = {f"{o['fcst_valid']} {o['fcst_lead']}" for i, o in enumerate(some) if i in mine}
        kept += [i for i in mine if i not in kept and f"{c['rows'][i]['fcst_valid']} {c['rows'][i]['fcst_lead']}" in listed]
        members += [i for i in mine if i not in members]
    out = run(table(c), params(c, event_equal='True'), prev, c['name'], [f"F{i:03d}" for i in kept])
    if not kept:
        expect(not out or all(number(o['stat_value']) is None for o in out), "values although no case is listed")
        return False
    some = check_values(c, out, [c['rows'][i] for i in kept])
    return any(v is not None for _, _, v in some) and len(kept) < len(members)
