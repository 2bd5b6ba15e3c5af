"""Equalizing against stored cases keeps exactly the listed cases."""
import os

import pandas as pd

from vh import call, expect, facet, ints, lists, quiet, scratch, st
from metcalcpy.agg_stat_eqz import AggStatEventEqz
from metcalcpy.event_equalize_against_values import event_equalize_against_values
from ee import LEADS, POOL, SEP, VALID, alike, matches, same_alike, same_rows, ungroup

FIELDS = {'fcst_valid': VALID, 'fcst_lead': LEADS, 'model': POOL['model'][:3], 'vx_mask': POOL['vx_mask'][:2], 'interp_pnts': POOL['interp_pnts'][:2],
          'obs_init_beg': POOL['obs_init_beg'], 'fcst_var': ['TMP', 'DPT'], 'fcst_lev': ['P500', None]}
ROW = st.fixed_dictionaries({k: st.sampled_from(v) for k, v in FIELDS.items()})


def frame(rows):
    return pd.DataFrame(rows, columns=list(rows[0]))


def numbered(rows):
    return [{**r, 'stat_value': i + 0.5} for i, r in enumerate(rows)]


def case_of(r):
    return f"{r['fcst_valid']} {r['fcst_lead']}"


@facet("direct", st.fixed_dictionaries({'rows': lists(ROW, 1, 12), 'cases': lists(ROW, 0, 5), 'junk': st.booleans()}), quick=300, thorough=3000,
       rule="some rows kept and some removed")
def direct(c):
    rows = numbered(c['rows'])
    listed = [case_of(r) for r in c['cases']] + (['2020-01-01 00:00:00', '2020-01-01 00:00:00 3'] if c['junk'] else [])
    want = [i for i, r in enumerate(rows) if case_of(r) in listed]
    with quiet():
        got = call(event_equalize_against_values, frame(rows), listed)
        equal = call(event_equalize_against_values, frame(alike(rows)), listed)
    if not want:
        expect(len(got) == 0, "rows kept although none is listed")
        return False
    same_rows(got, rows, want, "kept", list(rows[0]))
    same_alike(equal, alike(rows), want, "kept", list(rows[0]))
    expect('equalize' not in got.columns, "working column left in the result")
    return len(want) < len(rows)


@st.composite
def run_case(draw):
    two = draw(st.booleans())
    keys = draw(st.lists(st.sampled_from(['model', 'vx_mask', 'interp_pnts', 'obs_init_beg']), unique=True, min_size=1, max_size=2))

    def ser():
        out = {}
        for k in keys:
            vals = draw(st.lists(st.sampled_from([str(v) for v in FIELDS[k]]), unique=True, min_size=1, max_size=3))
            out[k] = [SEP.join(vals[:2])] + vals[2:] if len(vals) > 1 and draw(st.booleans()) else vals
        return out
    rows = draw(lists(ROW, 0 if draw(ints(0, 9)) == 0 else 1, 14))
    if rows and draw(st.booleans()):
        prev = [dict(rows[i]) for i in draw(st.lists(ints(0, len(rows) - 1), min_size=1, max_size=8))] + draw(lists(ROW, 0, 2))
    else:
        prev = draw(lists(ROW, 1, 10))
    return {'rows': rows, 'prev': prev, 's1': ser(), 's2': ser() if two else {},
            'var1': draw(st.sampled_from([{'TMP': ['ME']}, {'TMP': ['ME', 'RMSE']}] + ([] if two else [{'TMP': ['ME'], 'DPT': ['ME']}, {'WIND': ['ME'], 'DPT': ['ME']}]))),
            'var2': draw(st.sampled_from([{'DPT': ['ME']}, {'TMP': ['ME']}, {'TMP': ['ME'], 'DPT': ['ME']}])) if two else {}, 'on': draw(st.sampled_from([True, True, 'True', 'True', False, 'False']))}


@facet("program", run_case(), quick=250, thorough=2000, rule="some but not all rows kept")
def program(c):
    rows = numbered(c['rows'])
    on = c['on'] in (True, 'True') and rows
    if on:
        want = []
        for ser, var in ((c['s1'], c['var1']), (c['s2'], c['var2'])):
            for v in var:
                def mine(r):
                    return r['fcst_var'] == v and all(any(matches(r[k], x) for x in ungroup(ser[k])) for k in ser)
                listed = {case_of(r) for r in c['prev'] if mine(r)}
                # a row on both axes is written once
                want += [i for i, r in enumerate(rows) if mine(r) and case_of(r) in listed and i not in want]
    else:
        want = list(range(len(rows)))
    p = {'event_equal': c['on'], 'series_val_1': c['s1'], 'series_val_2': c['s2'], 'fcst_var_val_1': c['var1'], 'fcst_var_val_2': c['var2']}
    cols = list(FIELDS) + ['stat_value']
    with scratch() as d, quiet():
        for k in ('agg_stat_input', 'agg_stat_input_ee', 'agg_stat_output'):
            p[k] = os.path.join(d, k)
        prev = pd.DataFrame(c['prev'], columns=list(FIELDS))
        prev['equalize'] = [case_of(r) for r in c['prev']]
        prev.to_csv(p['agg_stat_input_ee'], sep='\t', index=False, na_rep='NA')

        def written(rows):
            pd.DataFrame(rows, columns=cols).to_csv(p['agg_stat_input'], sep='\t', index=False, na_rep='NA')
            call(lambda: AggStatEventEqz(p).calculate_values())
            text = open(p['agg_stat_output']).read().strip()
            return pd.read_csv(p['agg_stat_output'], sep='\t') if text else pd.DataFrame(columns=cols)
        got, equal = written(rows), written(alike(rows))
    same_rows(got, rows, want, "written", cols, ordered=False)
    same_alike(equal, alike(rows), want, "written", cols, ordered=False)
    return bool(on) and 0 < len(want) < len(rows)
