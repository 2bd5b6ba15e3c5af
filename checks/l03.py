"""Ensemble, ranked-probability and neighborhood scores aggregated over cases, weighted by matched pairs."""
import math

import numpy as np

from vh import call, decimals, expect, expect_near, facet, ints, is_missing, lists, st
import agg
from statfns import FUNCTIONS

BASE_COLS = ['model', 'fcst_init_beg', 'fcst_valid_beg', 'fcst_lead', 'fcst_var', 'stat_name', 'stat_value']


def case_columns(i, total):
    day, hour = divmod(i, 4)
    t = f"2020-01-{day + 1:02d} {hour * 6:02d}:00:00"
    return {'model': 'A', 'fcst_init_beg': t, 'fcst_valid_beg': t, 'fcst_lead': agg.LEAD, 'fcst_var': 'TMP', 'stat_value': None,
            'total': total}


def total():
    return st.one_of(ints(1, 5), ints(1, 300), ints(1, 60000))


def run(line_type, rows, stats, many):
    p = agg.params(line_type=line_type, series_val_1={'model': ['A']}, list_stat_1=stats, indy_vals=[str(agg.LEAD)],
                   fcst_var_val_1={'TMP': stats})
    base = [dict(case_columns(i, r['total']), **r) for i, r in enumerate(rows)]
    if many:
        base = base[::-1]
    out = agg.run_agg_stat(agg.per_stat(base, stats), p)
    return {s: agg.value_of(out, stat_name=s) for s in stats}


def wmean(rows, col, w='total'):
    n = sum(r[w] for r in rows)
    return math.fsum(r[col] * r[w] for r in rows) / n if n else None


MEANS = ['me', 'crps', 'ign', 'me_oerr', 'crpscl', 'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr']
ROOTS = ['rmse', 'spread', 'rmse_oerr', 'spread_oerr', 'spread_plus_oerr']


@st.composite
def ecnt_row(draw):
    pos, sgn = decimals(0, 60, 3), decimals(-40, 40, 3)
    r = {'total': draw(total())}
    for f in MEANS + ['crpss', 'crpss_emp']:
        r[f] = draw(sgn if f in ('me', 'me_oerr', 'ign', 'crpss', 'crpss_emp') else pos)
    for f in ROOTS:
        r[f] = draw(pos)
    r['n_ge_obs'] = draw(ints(0, r['total']))
    r['n_lt_obs'] = r['total'] - r['n_ge_obs'] if draw(st.booleans()) else draw(ints(0, r['total']))
    r['me_ge_obs'], r['me_lt_obs'] = draw(pos), draw(decimals(-60, 0, 3))
    return r


@facet("ensemble", st.fixed_dictionaries({'rows': lists(ecnt_row(), 1, 6), 'rev': st.booleans()}), quick=60, thorough=700,
       rule="two or more cases with different pair counts")
def ensemble(c):
    rows = c['rows']
    stats = ['ECNT_' + s.upper() for s in MEANS + ROOTS + ['crpss', 'crpss_emp', 'n_ge_obs', 'n_lt_obs', 'me_ge_obs', 'me_lt_obs',
                                                            'bias_ratio', 'total']]
    out = run('ecnt', rows, stats, c['rev'])
    got = {s[5:].lower(): out[s]['stat_value'] for s in stats}
    for f in MEANS:
        expect_near(got[f], wmean(rows, f), f"ensemble {f}", 1e-9, 2e-7)
    for f in ROOTS:
        ms = wmean([dict(r, x=r[f] ** 2) for r in rows], 'x')
        expect(not is_missing(got[f]), f"ensemble {f} is missing")
        expect_near(got[f] ** 2, ms, f"square of ensemble {f} over {[(r['total'], r[f]) for r in rows]}", 1e-8, 3e-7 + 2e-7 * got[f])
    for f, cl in (('crpss', 'crpscl'), ('crpss_emp', 'crpscl_emp')):
        ref = wmean(rows, cl)
        want = 1 - wmean(rows, f.replace('crpss', 'crps')) / ref if ref else None
        expect_near(got[f], want, f"ensemble {f}", 1e-8, 2e-7)
    for f in ('n_ge_obs', 'n_lt_obs', 'total'):
        expect_near(got[f], sum(r[f] for r in rows), f"ensemble {f}")
    ge, lt = wmean(rows, 'me_ge_obs', 'n_ge_obs'), wmean(rows, 'me_lt_obs', 'n_lt_obs')
    expect_near(got['me_ge_obs'], ge, "ensemble me_ge_obs", 1e-9, 2e-7)
    expect_near(got['me_lt_obs'], lt, "ensemble me_lt_obs", 1e-9, 2e-7)
    if ge is None or lt is None or lt == 0:
        expect(is_missing(got['bias_ratio']), f"bias ratio {got['bias_ratio']} with nothing to divide by")
    elif abs(lt) > 1e-3:
        expect_near(got['bias_ratio'], ge / abs(lt), "ensemble bias ratio", 1e-6 / abs(lt), 1e-6)
    return len({r['total'] for r in rows}) > 1


@st.composite
def rps_row(draw):
    return {'total': draw(total()), 'n_prob': 5, 'rps_rel': 0.1, 'rps_res': 0.1, 'rps_unc': 0.1, 'rps': draw(decimals(0, 3, 4)),
            'rpss': draw(decimals(-4, 0.999, 3)), 'rpss_smpl': 0.1, 'rps_comp': draw(decimals(0, 1, 4))}


@facet("ranked", st.fixed_dictionaries({'rows': lists(rps_row(), 1, 8), 'rev': st.booleans()}), quick=120, thorough=1200,
       rule="two or more cases with different pair counts")
def ranked(c):
    rows = c['rows']
    out = run('rps', rows, ['RPS', 'RPS_COMP', 'RPSS', 'RPS_TOTAL'], c['rev'])
    expect_near(out['RPS']['stat_value'], wmean(rows, 'rps'), "ranked probability score", 1e-9, 2e-7)
    expect_near(out['RPS_COMP']['stat_value'], wmean(rows, 'rps_comp'), "complement", 1e-9, 2e-7)
    expect_near(out['RPS_TOTAL']['stat_value'], sum(r['total'] for r in rows), "pairs")
    climo = wmean([dict(r, x=r['rps'] / (1 - r['rpss'])) for r in rows], 'x')
    want = 1 - wmean(rows, 'rps') / climo if climo else None
    expect_near(out['RPSS']['stat_value'], want, f"ranked probability skill score of {rows}", 1e-8, 2e-7)
    return len({r['total'] for r in rows}) > 1


@st.composite
def nbr_row(draw):
    return {'total': draw(total()), 'fbs': draw(decimals(0, 1, 4)), 'fss': draw(decimals(0, 0.999, 3)), 'afss': draw(decimals(0, 1, 3)),
            'ufss': draw(decimals(0.5, 1, 3)), 'f_rate': draw(decimals(0, 1, 3)), 'o_rate': draw(decimals(0, 1, 3))}


@facet("neighborhood", st.fixed_dictionaries({'rows': lists(nbr_row(), 1, 8), 'rev': st.booleans()}), quick=120, thorough=1200,
       rule="two or more cases with different pair counts")
def neighborhood(c):
    rows = c['rows']
    names = ['NBR_FBS', 'NBR_FSS', 'NBR_AFSS', 'NBR_UFSS', 'NBR_F_RATE', 'NBR_O_RATE', 'NBR_CNT_TOTAL']
    out = {k: v['stat_value'] for k, v in run('nbr_cnt', rows, names, c['rev']).items()}
    fbs, f, o = wmean(rows, 'fbs'), wmean(rows, 'f_rate'), wmean(rows, 'o_rate')
    den = wmean([dict(r, x=r['fbs'] / (1 - r['fss'])) for r in rows], 'x')
    expect_near(out['NBR_CNT_TOTAL'], sum(r['total'] for r in rows), "pairs")
    expect_near(out['NBR_FBS'], fbs, "fractions Brier score", 1e-9, 2e-7)
    expect_near(out['NBR_F_RATE'], f, "forecast rate", 1e-9, 2e-7)
    expect_near(out['NBR_O_RATE'], o, f"observed rate of {[(r['total'], r['o_rate']) for r in rows]}", 1e-9, 2e-7)
    expect_near(out['NBR_UFSS'], 0.5 + o / 2, "uniform skill score", 1e-9, 2e-7)
    expect_near(out['NBR_AFSS'], 2 * f * o / (f * f + o * o) if f or o else None, "asymptotic skill score", 1e-8, 2e-7)
    expect_near(out['NBR_FSS'], 1 - fbs / den if den else None, "fractions skill score", 1e-8, 2e-7)
    return len({r['total'] for r in rows}) > 1


@st.composite
def pooled_case(draw):
    line = draw(st.sampled_from(['ecnt', 'rps', 'nbr_cnt']))
    return {'line': line, 'row': draw({'ecnt': ecnt_row, 'rps': rps_row, 'nbr_cnt': nbr_row}[line]()), 'text': draw(st.booleans())}


@facet("pooled", pooled_case(), quick=200, thorough=2000, rule="a row standing for more than one matched pair")
def pooled(c):
    """A row that is already a mean over its pairs is used as it is when nothing says it was summed."""
    r = c['row']
    names = sorted(r)
    v = np.array([[r[k] for k in names] + (['A'] if c['text'] else [])], dtype=object if c['text'] else float)
    cols = np.array(names + (['model'] if c['text'] else []))

    def get(name):
        return call(FUNCTIONS[c['line']][name], v.copy(), cols)
    if c['line'] == 'ecnt':
        for f in MEANS:
            expect_near(get('ECNT_' + f.upper()), r[f], f"ensemble {f} of one mean row", 1e-9, 2e-7)
    elif c['line'] == 'rps':
        expect_near(get('RPS'), r['rps'], "ranked probability score of one mean row", 1e-9, 2e-7)
        expect_near(get('RPS_COMP'), r['rps_comp'], "complement of one mean row", 1e-9, 2e-7)
    else:
        expect_near(get('NBR_FBS'), r['fbs'], "fractions Brier score of one mean row", 1e-9, 2e-7)
        expect_near(get('NBR_F_RATE'), r['f_rate'], "forecast rate of one mean row", 1e-9, 2e-7)
        expect_near(get('NBR_O_RATE'), r['o_rate'], "observed rate of one mean row", 1e-9, 2e-7)
        expect_near(get('NBR_UFSS'), 0.5 + r['o_rate'] / 2, "uniform skill score of one mean row", 1e-9, 2e-7)
    return r['total'] > 1
