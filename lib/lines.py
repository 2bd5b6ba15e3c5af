"""Rows of every aggregated line type, and the statistic of a set of rows from their pooled single row.

A pooled row holds the sums of the counts and the pair-weighted means of the other columns. Most statistics are then the
public single-row function on that row (decided by the statistic properties); those whose single-row form needs working
columns are written out here.
"""
import importlib
import inspect
import math

import numpy as np

from vh import decimals, ints, st


def total():
    return st.one_of(ints(1, 5), ints(1, 300), ints(2, 40000))


def _moments(draw):
    """Means, squares and product of a pair sample with well separated spread."""
    fb, ob = draw(decimals(-20, 20, 1)) + 0.05, draw(decimals(1, 25, 1)) + 0.03
    sf, so, r = draw(decimals(0.5, 8, 1)), draw(decimals(0.5, 8, 1)), draw(decimals(-0.9, 0.9, 1))
    return fb, ob, sf, so, r


@st.composite
def sl1l2(draw):
    fb, ob, sf, so, r = _moments(draw)
    return {'total': draw(total()), 'fbar': fb, 'obar': ob, 'fobar': fb * ob + r * sf * so, 'ffbar': fb * fb + sf * sf, 'oobar': ob * ob + so * so,
            'mae': draw(decimals(0, 30, 2))}


@st.composite
def sal1l2(draw):
    r = draw(sl1l2())
    return {'total': r['total'], 'fabar': r['fbar'], 'oabar': r['obar'], 'foabar': r['fobar'], 'ffabar': r['ffbar'], 'ooabar': r['oobar']}


@st.composite
def ssvar(draw):
    r = draw(sl1l2())
    n = r.pop('total')
    r.pop('mae')
    return {'total': n + draw(ints(0, 500)), 'n_bin': 3, 'bin_i': draw(ints(1, 3)), 'bin_n': n, 'var_min': 0.0, 'var_max': 9.0,
            'var_mean': draw(decimals(0, 40, 2)), **r}


@st.composite
def grad(draw):
    g = decimals(0.5, 30, 2)
    return {'total': draw(total()), 'fgbar': draw(g), 'ogbar': draw(g), 'mgbar': draw(g), 'egbar': draw(g)}


def _wind(draw, sub):
    c = decimals(-9, 9, 1)
    uf, vf, uo, vo = draw(c) + 20.05, draw(c) + 15.03, draw(c) + 13.07, draw(c) - 18.01
    ff, oo = uf * uf + vf * vf + draw(decimals(20, 60, 1)), uo * uo + vo * vo + draw(decimals(20, 60, 1))
    fs = math.sqrt(ff) - draw(decimals(0.1, 0.4, 2))
    os_ = math.sqrt(oo) - draw(decimals(0.1, 0.4, 2))
    fo = uf * uo + vf * vo + draw(decimals(-15, 15, 1))
    return {f'uf{sub}bar': uf, f'vf{sub}bar': vf, f'uo{sub}bar': uo, f'vo{sub}bar': vo, f'uvfo{sub}bar': fo, f'uvff{sub}bar': ff, f'uvoo{sub}bar': oo,
            f'f{sub}_speed_bar': fs, f'o{sub}_speed_bar': os_}


@st.composite
def vl1l2(draw):
    return {'total': draw(total()), **_wind(draw, '')}


@st.composite
def val1l2(draw):
    return {'total': draw(total()), **_wind(draw, 'a')}


@st.composite
def vcnt(draw):
    r = {'total': draw(total()), **_wind(draw, ''), **_wind(draw, 'a')}
    # an anomaly product within the range of its spreads
    r['uvfoabar'] = r['fa_speed_bar'] * r['oa_speed_bar'] + draw(decimals(-1, 1, 1))
    return r


@st.composite
def ctc(draw):
    n = st.one_of(ints(0, 5), ints(1, 400), ints(1, 30000))
    r = {'fy_oy': draw(n), 'fy_on': draw(n), 'fn_oy': draw(n), 'fn_on': draw(n)}
    return {'total': sum(r.values()), **r, 'ec_value': 0.5}


@st.composite
def nbr_ctc(draw):
    r = draw(ctc())
    r.pop('ec_value')
    return r


E_MEANS = ['me', 'crps', 'ign', 'me_oerr', 'crpscl', 'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr']
E_ROOTS = ['rmse', 'spread', 'rmse_oerr', 'spread_oerr', 'spread_plus_oerr']


@st.composite
def ecnt(draw):
    pos = decimals(0.1, 60, 2)
    r = {'total': draw(total()), 'n_ens': 20}
    for f in E_MEANS + E_ROOTS:
        r[f] = draw(pos)
    r.update(crpss=0.5, crpss_emp=0.5, n_ge_obs=draw(ints(1, 50)), n_lt_obs=draw(ints(1, 50)), me_ge_obs=draw(pos), me_lt_obs=-draw(pos))
    return r


@st.composite
def rps(draw):
    return {'total': draw(total()), 'n_prob': 5, 'rps_rel': 0.1, 'rps_res': 0.1, 'rps_unc': 0.1, 'rps': draw(decimals(0, 3, 3)),
            'rpss': draw(decimals(-2, 0.9, 2)), 'rpss_smpl': 0.1, 'rps_comp': draw(decimals(0, 1, 3))}


@st.composite
def nbr_cnt(draw):
    return {'total': draw(total()), 'fbs': draw(decimals(0.01, 1, 3)), 'fss': draw(decimals(0, 0.9, 2)), 'afss': draw(decimals(0, 1, 3)),
            'ufss': draw(decimals(0.5, 1, 3)), 'f_rate': draw(decimals(0.01, 1, 3)), 'o_rate': draw(decimals(0.01, 1, 3))}


@st.composite
def mctc(draw):
    n = ints(0, 500)
    r = {'n_cat': 3, 'ec_value': 0.25}
    r.update({f'fi_oj_{i}': draw(n) for i in range(9)})
    r['total'] = sum(r[f'fi_oj_{i}'] for i in range(9))
    r.update({f'i_value_{i}': i // 3 + 1 for i in range(9)})
    r.update({f'j_value_{i}': i % 3 + 1 for i in range(9)})
    return r


BINS = [0.05, 0.25, 0.5, 0.85]


@st.composite
def pct(draw):
    n = st.one_of(ints(0, 4), ints(0, 300))
    r = {'n_thresh': len(BINS)}
    for i, b in enumerate(BINS):
        s = f'.{i}' if i else ''
        r.update({'thresh_i' + s: b, 'oy_i' + s: draw(n), 'on_i' + s: draw(n)})
    r['total'] = sum(v for k, v in r.items() if k[:4] in ('oy_i', 'on_i'))
    return r


MODULE = {'sl1l2': 'sl1l2', 'sal1l2': 'sal1l2', 'ssvar': 'ssvar', 'grad': 'grad', 'vl1l2': 'vl1l2', 'val1l2': 'val1l2', 'vcnt': 'vcnt', 'ctc': 'ctc',
          'nbr_ctc': 'nbrctc', 'mctc': 'mcts'}
ROWS = {'sl1l2': sl1l2, 'sal1l2': sal1l2, 'ssvar': ssvar, 'grad': grad, 'vl1l2': vl1l2, 'val1l2': val1l2, 'vcnt': vcnt, 'ctc': ctc, 'nbr_ctc': nbr_ctc,
        'ecnt': ecnt, 'rps': rps, 'nbr_cnt': nbr_cnt, 'mctc': mctc, 'pct': pct}
COUNTS = {'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'n_ge_obs', 'n_lt_obs'} | {f'fi_oj_{i}' for i in range(9)}
FIXED = {'ec_value', 'n_cat', 'n_thresh', 'n_ens', 'n_prob'} | {f'{a}_value_{i}' for a in 'ij' for i in range(9)}

STATS = {
    'sl1l2': 'FBAR OBAR FSTDEV OSTDEV FOBAR FFBAR OOBAR MAE MBIAS PR_CORR FE ME ME2 MSE MSESS RMSE SI ESTDEV BCMSE BCRMSE SL1L2_TOTAL',
    'sal1l2': 'ANOM_CORR ANOM_CORR_RAW RMSFA RMSOA SAL1L2_TOTAL',
    'ssvar': ' '.join('SSVAR_' + s for s in ('FBAR FSTDEV OBAR OSTDEV PR_CORR ME ESTDEV MSE BCMSE BCRMSE RMSE ANOM_CORR ME2 MSESS SPREAD').split()),
    'grad': 'FGBAR OGBAR MGBAR EGBAR S1 S1_OG FGOG_RATIO GRAD_TOTAL',
    'vl1l2': ' '.join('VL1L2_' + s for s in 'BIAS FVAR OVAR FSPD OSPD SPEED_ERR MSVE RMSVE TOTAL'.split()),
    'val1l2': 'VAL1L2_ANOM_CORR VAL1L2_TOTAL',
    'vcnt': ' '.join('VCNT_' + s for s in ('FBAR OBAR FS_RMS OS_RMS MSVE RMSVE FSTDEV OSTDEV FDIR ODIR FBAR_SPEED OBAR_SPEED VDIFF_SPEED VDIFF_DIR '
                                            'SPEED_ERR SPEED_ABSERR DIR_ERR DIR_ABSER ANOM_CORR ANOM_CORR_UNCNTR').split()),
    'ctc': 'BASER ACC FBIAS FMEAN PODY POFD PODN FAR CSI GSS HK HSS BAGSS LODDS ORSS SEDS CTC_TOTAL CTC_FY_OY CTC_FN_ON CTC_OY CTC_FY',
    'nbr_ctc': ' '.join('NBR_' + s for s in 'BASER ACC FBIAS FMEAN PODY POFD PODN FAR CSI GSS HK HSS CTC_TOTAL'.split()),
    'ecnt': ' '.join('ECNT_' + s.upper() for s in E_MEANS + E_ROOTS + ['crpss', 'crpss_emp', 'n_ge_obs', 'n_lt_obs', 'me_ge_obs', 'me_lt_obs', 'bias_ratio', 'total']),
    'rps': 'RPS RPS_COMP RPSS RPS_TOTAL',
    'nbr_cnt': 'NBR_FBS NBR_FSS NBR_AFSS NBR_UFSS NBR_F_RATE NBR_O_RATE NBR_CNT_TOTAL',
    'mctc': 'MCTS_HSS_EC',
    'pct': ' '.join('PSTD_' + s for s in 'BRIER BSS_SMPL BASER RELIABILITY RESOLUTION UNCERTAINTY ROC_AUC'.split()),
}
STATS = {k: v.split() for k, v in STATS.items()}


def wmean(rows, get, weight='total'):
    n = sum(r[weight] for r in rows)
    return math.fsum(get(r) * r[weight] for r in rows) / n if n else None


def pool(line, rows):
    """The single row the given rows amount to."""
    w = 'bin_n' if line == 'ssvar' else 'total'
    out = {}
    for k in ROWS_COLUMNS(line, rows):
        if k in FIXED or k.startswith('thresh_i'):
            out[k] = rows[0][k]
        elif k in COUNTS or k == 'bin_n' or k.startswith(('oy_i', 'on_i')):
            out[k] = sum(r[k] for r in rows)
        else:
            out[k] = wmean(rows, lambda r: r[k], w)
    return out


def ROWS_COLUMNS(line, rows):
    return [k for k in rows[0] if isinstance(rows[0][k], (int, float)) and k not in ('fcst_lead', 'interp_pnts', 'frac')]


def _pct(stat, p):
    bins = [(b, p['oy_i' + (f'.{i}' if i else '')], p['on_i' + (f'.{i}' if i else '')]) for i, b in enumerate(BINS)]
    t, oy = sum(a + b for _, a, b in bins), sum(a for _, a, _ in bins)
    if not t:
        return None
    ob = oy / t
    rel = sum((a + b) * (m - a / (a + b)) ** 2 for m, a, b in bins if a + b) / t
    res = sum((a + b) * (ob - a / (a + b)) ** 2 for m, a, b in bins if a + b) / t
    unc = ob * (1 - ob)
    if stat == 'roc_auc':
        if oy in (0, t):
            return None
        win = below = 0
        for _, a, b in bins:
            win += a * (below + b / 2)
            below += b
        return win / (oy * (t - oy))
    return {'brier': rel - res + unc, 'bss_smpl': (res - rel) / unc if unc else None, 'baser': ob, 'reliability': rel, 'resolution': res,
            'uncertainty': unc}[stat]


def statistic(line, stat, rows):
    """Expected value of one statistic over the rows; None when it is undefined."""
    if not rows:
        return None
    s = stat.lower()
    p = pool(line, rows)
    if line == 'pct':
        return _pct(s[5:], p)
    if line == 'ecnt':
        f = s[5:]
        if f in E_ROOTS:
            return math.sqrt(wmean(rows, lambda r: r[f] ** 2))
        if f in ('crpss', 'crpss_emp'):
            return 1 - p[f.replace('crpss', 'crps')] / p[f.replace('crpss', 'crpscl')]
        ge, lt = wmean(rows, lambda r: r['me_ge_obs'], 'n_ge_obs'), wmean(rows, lambda r: r['me_lt_obs'], 'n_lt_obs')
        return {'me_ge_obs': ge, 'me_lt_obs': lt, 'bias_ratio': ge / abs(lt)}.get(f, p.get(f))
    if line == 'rps':
        climo = wmean(rows, lambda r: r['rps'] / (1 - r['rpss']))
        return {'rps': p['rps'], 'rps_comp': p['rps_comp'], 'rps_total': p['total'], 'rpss': 1 - p['rps'] / climo if climo else None}[s]
    if line == 'nbr_cnt':
        den = wmean(rows, lambda r: r['fbs'] / (1 - r['fss']))
        f, o = p['f_rate'], p['o_rate']
        return {'nbr_fbs': p['fbs'], 'nbr_fss': 1 - p['fbs'] / den, 'nbr_afss': 2 * f * o / (f * f + o * o), 'nbr_ufss': 0.5 + o / 2,
                'nbr_f_rate': f, 'nbr_o_rate': o, 'nbr_cnt_total': p['total']}[s]
    if line == 'ssvar':
        p = dict(p, total=p['bin_n'])
    name = 'sl1l2' if s == 'sal1l2_total' else MODULE[line]
    fn = getattr(importlib.import_module(f'metcalcpy.util.{name}_statistics'), 'calculate_' + s)
    values = np.array([list(p.values())], dtype=object)
    columns = np.array(list(p))
    args = (values, columns) if len(inspect.signature(fn).parameters) == 2 else (values, columns, False)
    return fn(*args)


def tolerance(line, stat, want):
    """Both sides round intermediate sums; differences and ratios of them keep a little of that."""
    return 2e-6 + 2e-7 * abs(want)
