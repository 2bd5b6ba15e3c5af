"""The summary appends to every row the statistic of that row alone."""
import itertools
import os

import pandas as pd

import agg
import lines
from aggcase import number
from ee import VALID
from vh import Violation, call, expect, facet, ints, is_missing, pick, quiet, scratch, st
from metcalcpy.sum_stat import SumStat

# line type name of the summary and of the row generator
TYPES = {'ctc': 'ctc', 'nbrctc': 'nbr_ctc', 'sl1l2': 'sl1l2', 'sal1l2': 'sal1l2', 'vl1l2': 'vl1l2', 'val1l2': 'val1l2', 'grad': 'grad',
         'nbrcnt': 'nbr_cnt', 'ecnt': 'ecnt', 'rps': 'rps'}
POOL = {'model': ['A', 'B', 'A_2'], 'vx_mask': ['EAST', 'NMT', 'W'], 'interp_pnts': [1, 9], 'frac': [0.25, 0.5], 'fcst_lead': [30000, 60000, 120000]}
ALSO = {'sal1l2': ['FBAR', 'OBAR', 'FSTDEV', 'OSTDEV', 'FOBAR', 'FFBAR', 'OOBAR', 'ME', 'RMSE', 'MSE', 'BCMSE', 'PR_CORR']}    # of the anomalies
TEXT = ['fcst_valid_beg', 'fcst_var', 'stat_name', *POOL]


@st.composite
def case(draw, groups=False):
    line = draw(st.sampled_from(sorted(TYPES)))
    few = {k: draw(st.lists(st.sampled_from(v), unique=True, min_size=1, max_size=2)) for k, v in POOL.items()}
    strat = lines.ROWS[TYPES[line]]()
    names = lines.STATS[TYPES[line]] + ALSO.get(line, [])
    if groups:
        names = draw(st.lists(st.sampled_from(names), unique=True, min_size=1, max_size=2))
    rows = []
    for i in range(draw(ints(1, 12))):
        r = {k: draw(st.sampled_from(v)) for k, v in few.items()}
        r.update(fcst_valid_beg=draw(st.sampled_from(VALID[:2])), fcst_var='TMP', stat_name=draw(st.sampled_from(names)), note=100 + i)
        r.update(draw(strat))
        rows.append(r)
    stats = sorted({r['stat_name'] for r in rows})
    indy = draw(pick('fcst_lead', 'fcst_lead', 'vx_mask', 'fcst_valid_beg'))
    keys = [k for k in draw(st.permutations(['model', 'vx_mask', 'interp_pnts', 'frac'])) if k != indy][:draw(pick(1, 2))]
    c = {'line': line, 'rows': rows, 'stats': stats, 'indy': indy}

    def chosen(k):
        vals = [str(v) for v in (VALID[:2] if k == 'fcst_valid_beg' else draw(st.permutations(POOL[k])))]
        return vals[:draw(ints(1, len(vals)))]
    c['series'] = [[k, chosen(k)] for k in keys]
    c['ivals'] = chosen(indy)
    if groups:
        # values that ask for aggregation are joined, and may have members in common
        def joined(k):
            label = st.lists(st.sampled_from(POOL[k]), unique=True, min_size=1, max_size=3).map(lambda v: ';'.join(str(x) for x in v))
            return draw(st.lists(label, min_size=1, max_size=3, unique_by=lambda v: tuple(sorted(v.split(';')))))
        where = draw(st.lists(pick(*keys, *(['indy'] if indy != 'fcst_valid_beg' else [])), unique=True, min_size=1, max_size=2))
        c['series'] = [[k, joined(k) if k in where else v] for k, v in c['series']]
        if 'indy' in where:
            c['ivals'] = joined(indy)
    return c


def parameters(c, **over):
    p = {'line_type': c['line'], 'indy_var': c['indy'], 'indy_vals': c['ivals'], 'series_val_1': dict(c['series']), 'series_val_2': {},
         'event_equal': 'False', 'fcst_var_val_1': {'TMP': c['stats']}, 'fcst_var_val_2': {}, 'list_stat_1': c['stats'], 'fixed_vars_vals_input': {}}
    p.update(over)
    return p


def run(rows, p):
    with scratch() as d, quiet():
        p['sum_stat_input'], p['sum_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(rows, p['sum_stat_input'])
        call(lambda: SumStat(p).calculate_stats())
        return pd.read_csv(p['sum_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records')


def check_value(c, o, rows, what):
    line = TYPES[c['line']]
    if o['stat_name'] in ALSO.get(line, []):
        line, rows = 'sl1l2', [{k.replace('abar', 'bar'): v for k, v in r.items()} for r in rows]
    want = lines.statistic(line, o['stat_name'], rows)
    got = number(o['stat_value'])
    what = f"{c['line']} {o['stat_name']} of {what}"
    if is_missing(want):
        expect(got is None, f"{what}: got {got}, expected missing")
        return False
    expect(got is not None, f"{what}: missing, expected {want}")
    expect(abs(got - want) <= lines.tolerance(TYPES[c['line']], o['stat_name'], want), f"{what}: got {got}, expected {want}")
    return True


def match(o, r, keys):
    return all(o[k] == str(r[k]) for k in keys)


@facet("rows", case(), quick=250, thorough=2500, rule="some row has a defined statistic")
def rows(c):
    """Each row keeps its place and its other columns, and gains the statistic it names."""
    out = run([dict(r, stat_value=None) for r in c['rows']], parameters(c))
    expect(len(out) == len(c['rows']), f"{len(out)} rows from {len(c['rows'])}")
    some = False
    for i, (o, r) in enumerate(zip(out, c['rows'])):
        for k in [*TEXT, 'note']:
            expect(o[k] == str(r[k]), f"row {i}: {k} is {o[k]}, was {r[k]}")
        some = check_value(c, o, [r], f"row {i}") or some
    return some


@st.composite
def paired(draw):
    """Two or three models with nearly all cases in common."""
    line = draw(st.sampled_from(sorted(TYPES)))
    stats = draw(st.lists(st.sampled_from(lines.STATS[TYPES[line]]), unique=True, min_size=1, max_size=2))
    models = draw(pick(['A', 'B'], ['A', 'B', 'A_2']))
    strat = lines.ROWS[TYPES[line]]()
    rows = []
    for s in stats:
        for lead in POOL['fcst_lead'][:draw(ints(1, 2))]:
            for d in VALID[:draw(ints(1, 3))]:
                for m in models:
                    if draw(ints(0, 5)):
                        rows.append({**{k: v[0] for k, v in POOL.items()}, 'model': m, 'fcst_lead': lead, 'fcst_valid_beg': d, 'fcst_var': 'TMP',
                                     'stat_name': s, 'note': 100 + len(rows), **draw(strat)})
    return {'line': line, 'rows': rows, 'stats': stats, 'indy': 'fcst_lead', 'ivals': [str(v) for v in POOL['fcst_lead'][:2]], 'series': [['model', models]]}


@facet("equalized", paired(), quick=120, thorough=1200, rule="some rows kept and some removed")
def equalized(c):
    """With equalization the rows whose case every series has remain, with the same values."""
    if not c['rows']:
        return False
    keep = []
    for r in c['rows']:
        have = {q['model'] for q in c['rows'] if all(q[k] == r[k] for k in ('stat_name', 'fcst_lead', 'fcst_valid_beg'))}
        if have == set(c['series'][0][1]):
            keep.append(r)
    out = run([dict(r, stat_value=None) for r in c['rows']], parameters(c, event_equal='True'))
    expect(len(out) == len(keep), f"{len(out)} rows, expected {len(keep)} of {len(c['rows'])}")
    some = False
    for r in keep:
        mine = [o for o in out if match(o, r, [*TEXT, 'note'])]
        expect(len(mine) == 1, f"{len(mine)} rows for {r}")
        some = check_value(c, mine[0], [r], 'a row') or some
    return some and len(out) < len(c['rows'])


@facet("combined", case(groups=True), quick=200, thorough=2000, rule="a defined statistic of two or more combined rows")
def combined(c):
    """Rows of the values in an aggregated field are combined per valid time, lead and statistic; other values are selected."""
    out = run([dict(r, stat_value=None) for r in c['rows']], parameters(c))
    fields = dict(c['series'], **{c['indy']: c['ivals']})
    if not any(';' in v for vals in fields.values() for v in vals):
        return False
    want = []
    for point in itertools.product(*fields.values()):
        label = dict(zip(fields, point))
        mine = [r for r in c['rows'] if all(str(r[k]) in v.split(';') for k, v in label.items())]
        if any(';' in v for v in point):
            by = {}
            for r in mine:
                by.setdefault((r['stat_name'], r['fcst_valid_beg'], ';' in label.get('fcst_lead', '') or r['fcst_lead']), []).append(r)
            for rows in by.values():
                shown = {'stat_name': rows[0]['stat_name'], 'fcst_valid_beg': rows[0]['fcst_valid_beg'], 'fcst_lead': rows[0]['fcst_lead'], **label}
                # the lead stays a number
                shown['fcst_lead'] = str(shown['fcst_lead']).split(';')
                want.append((shown, rows))
        else:
            want.extend(({k: r[k] for k in [*TEXT, 'note']}, [r]) for r in mine)
    expect(len(out) == len(want), f"{len(out)} rows, expected {len(want)}")
    some = False
    left = list(out)
    for shown, rows in want:
        mine = [o for o in left if all(o[k] in v if isinstance(v, list) else o[k] == str(v) for k, v in shown.items())]
        expect(mine, f"no row for {shown}")
        for o in mine:
            try:
                some = check_value(c, o, rows, f"{len(rows)} rows of {shown}") and len(rows) > 1 or some
            except Violation:
                # another row can be labelled the same
                if o is mine[-1]:
                    raise
            else:
                left.remove(o)
                break
    return some
