"""Aggregated values come from exactly the rows of each series point."""
import itertools

import agg
import ee
import lines
from aggcase import POOL, bin_parameters, bins, case, check_append, compare, number, parameters, rows_of, run, selected, split, table
from vh import expect, facet, ints, pick, st


@facet("points", case(named=True), quick=350, thorough=2500, rule="some point pools two or more rows into a defined value")
def points(c):
    p = parameters(c)
    out = run(table(c, sorted(set(c['stats1'] + c['stats2']))), p)
    return compare(c, p, out)


@facet("every_statistic", st.sampled_from(sorted(lines.ROWS)).flatmap(lambda l: st.fixed_dictionaries({'line': st.just(l), 'rows': rows_of(l, 5)})),
       quick=140, thorough=1200, rule="a group of two or more rows")
def every_statistic(c):
    """All statistics of a line type at once, over a group, one series and one lead."""
    c = dict(c, s1={'model': ['A:B', 'A_2']}, s2={}, indy='fcst_lead', ivals=['30000', '120000:1200000'], stats1=lines.STATS[c['line']], stats2=[], var2='')
    p = parameters(c)
    return compare(c, p, run(table(c, c['stats1']), p))


@facet("long", st.sampled_from(sorted(lines.ROWS)).flatmap(lambda l: st.fixed_dictionaries({
    'line': st.just(l), 'rows': rows_of(l, 4), 'n': st.one_of(ints(20, 80), ints(60, 400)), 'step': ints(1, 9)})),
       quick=15, thorough=150, rule="a point of fifty or more rows")
def long(c):
    """Tables of many cases: a few rows repeated over many days, in an order that mixes them."""
    n = c['n']
    day = [f"20{1 + i // 336:02d}-{1 + i // 28 % 12:02d}-{1 + i % 28:02d} 12:00:00" for i in range(n)]
    rows = [dict(c['rows'][i * c['step'] // 3 % 4], fcst_valid_beg=day[(i * 7) % n if n % 7 else i]) for i in range(n)]
    c = {'line': c['line'], 'rows': rows, 's1': {'model': ['A:B', 'A_2']}, 's2': {}, 'indy': 'fcst_lead', 'ivals': ['30000:120000', '1200000'],
         'stats1': lines.STATS[c['line']], 'stats2': [], 'var2': ''}
    p = parameters(c)
    some = compare(c, p, run(table(c, c['stats1']), p))
    return some and n >= 50 and any(len(selected(c, {'model': m, 'fcst_lead': '30000:120000'}, 'TMP')) >= 50 for m in ('A:B', 'A_2'))


@st.composite
def complete(draw):
    """A design with every series at every case, then some rows removed."""
    c = draw(case(('sl1l2', 'ctc', 'vl1l2', 'grad'), True))
    c['s2'], c['stats2'] = {}, []
    c['no_indy'] = False
    ser = {k: ee.ungroup(v) for k, v in c['s1'].items()}
    combos = list(itertools.product(*ser.values()))
    strat = lines.ROWS[c['line']]()
    cases = [(v, l) for v in POOL['fcst_valid_beg'] for l in POOL['fcst_lead'][:2]][:max(2, 14 // len(combos))]
    rows = []
    for v, l in cases:
        base = {k: draw(st.sampled_from(POOL[k])) for k in POOL}
        for combo in combos:
            if draw(ints(0, 9)) == 0:
                continue
            r = {**base, 'fcst_valid_beg': v, 'fcst_lead': l, 'fcst_var': 'TMP', **draw(strat)}
            for k, x in zip(ser, combo):
                r[k] = float(x) if k == 'frac' else int(x) if k == 'interp_pnts' else x
            rows.append(r)
    extra = draw(rows_of(c['line'], draw(ints(0 if rows else 1, 2)), ('TMP', 'DPT')))
    c['rows'] = rows + extra
    if 'frac' in c['s1']:
        c['s1'] = {k: v for k, v in c['s1'].items() if k != 'frac'} or {'model': ['A', 'B']}
    if c['indy'] in c['s1'] or c['indy'] == 'frac':
        c['indy'], c['ivals'] = 'fcst_lead', ['30000', '120000']
    return c


@facet("equalized", complete(), quick=250, thorough=1200, rule="equalization removed some rows and left a point with two or more")
def equalized(c):
    p = parameters(c, event_equal='True')
    wanted = {k: ee.ungroup(v) for k, v in c['s1'].items()}
    idx = [i for i, r in enumerate(c['rows']) if r['fcst_var'] == 'TMP' and all(str(r[k]) in wanted[k] for k in wanted)]

    def key(r):
        k = (r['fcst_valid_beg'], r['fcst_lead'])
        return k + (str(r[c['indy']]),) if c['indy'] not in ee.CASE_VARS else k
    common = None
    for combo in itertools.product(*wanted.values()):
        have = {key(c['rows'][i]) for i in idx if all(str(c['rows'][i][k]) == v for k, v in zip(wanted, combo))}
        common = have if common is None else common & have
    kept = [i for i in idx if key(c['rows'][i]) in common]
    out = run(table(c, c['stats1']), p)
    if not kept:
        expect(all(number(o['stat_value']) is None for o in out), "values although no case is common")
        return False
    some = compare(c, p, out, {(s, '1'): set(kept) for s in c['stats1']})
    return some and len(kept) < len(idx)


@facet("reliability", bins(), quick=120, thorough=1200, rule="two or more bins with forecasts")
def reliability(c):
    """A curve over probability bins: the bins are taken from the data, each point from the rows of its bin."""
    stats = ['PSTD_CALIBRATION', 'PSTD_NI', 'PSTD_BASER', 'PSTD_RESOLUTION']
    p = bin_parameters(c, stats)
    out = run(agg.per_stat([c['rows'][i] for i in c['order']], stats), p)
    expect(len(out) == len(c['models']) * max(len(c['masks']), 1) * len(c['mids']) * len(stats), f"{len(out)} points")
    some = 0
    for o in out:
        every = [r for r in c['rows'] if r['fcst_var'] == 'TMP' and all(r[k] in split(o[k]) for k in p['series_val_1'])]
        rows = [r for r in every if r['thresh_i'] == float(o['thresh_i'])]
        oy, n = sum(r['oy_i'] for r in rows), sum(r['oy_i'] + r['on_i'] for r in rows)
        want = n if o['stat_name'] == 'PSTD_NI' else oy / n if n else None
        if want is not None and o['stat_name'] == 'PSTD_RESOLUTION':      # distance from the base rate of the whole curve
            want = (want - sum(r['oy_i'] for r in every) / sum(r['oy_i'] + r['on_i'] for r in every)) ** 2
        got = number(o['stat_value'])
        if o['stat_name'] == 'PSTD_NI' and n == 0:
            expect(not got, f"{got} forecasts in an empty bin")
        elif want is None:
            expect(got is None, f"{o} expected missing")
        else:
            expect(got is not None and abs(got - want) < 1e-6, f"{o['stat_name']} of {o['model']} at {o['thresh_i']}: {got}, expected {want}")
            some += 1
        expect(o['nstats'] == str(len(rows)), f"{o['nstats']} rows reported, {len(rows)} used")
    return some > 4


@facet("appended", st.fixed_dictionaries({'case': case(), 'flag': pick('True', 'False', True, False)}), quick=30, thorough=200, rule="rows are written after others")
def appended(c):
    return check_append(table(c['case'], sorted(set(c['case']['stats1'] + c['case']['stats2']))), parameters(c['case']), c['flag'])
