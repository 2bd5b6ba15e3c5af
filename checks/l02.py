"""Vector wind statistics against the statistics of the raw wind vectors."""
import math

import numpy as np

from vh import call, expect, facet, fail, ints, is_missing, st
from gens import array_of
import metcalcpy.util.vl1l2_statistics as vl
import metcalcpy.util.val1l2_statistics as val
import metcalcpy.util.vcnt_statistics as vcnt
import metcalcpy.util.met_stats as met_stats


@st.composite
def groups(draw, hi=5):
    """Rows of raw wind pairs (u,v forecast; u,v observed); every row stands for `mult` copies of its pairs."""
    scale = draw(st.sampled_from([1, 1, 10, 0.1]))
    bias = draw(st.tuples(*[st.sampled_from([0, 0, 5, -5, 20, -20])] * 4))
    comp = ints(-1000, 1000)
    n = draw(st.one_of(ints(1, hi), ints(1, hi), ints(1, 20)))
    same = draw(st.sampled_from([False, False, False, True]))
    out = []
    for _ in range(n):
        m = draw(ints(1, 5))
        pairs = []
        for _ in range(m):
            p = [round(scale * (draw(comp) / 100 + b), 6) for b in bias]
            if same:
                p[2:] = p[:2]
            pairs.append(p)
        out.append({'mult': draw(st.sampled_from([1, 1, 2, 7, 1000, 200000])), 'p': pairs})
    return out


def moments(p, w):
    uf, vf, uo, vo = np.array(p, dtype=float).T
    w = np.array(w, dtype=float)
    w = w / w.sum()
    a = lambda x: float((x * w).sum())
    return {'u_f': a(uf), 'v_f': a(vf), 'u_o': a(uo), 'v_o': a(vo), 'fo': a(uf * uo + vf * vo), 'ff': a(uf ** 2 + vf ** 2),
            'oo': a(uo ** 2 + vo ** 2), 'fs': a(np.hypot(uf, vf)), 'os': a(np.hypot(uo, vo))}


NAMES = {'u_f': 'ufbar', 'v_f': 'vfbar', 'u_o': 'uobar', 'v_o': 'vobar', 'fo': 'uvfobar', 'ff': 'uvffbar', 'oo': 'uvoobar', 'fs': 'f_speed_bar',
         'os': 'o_speed_bar'}
ANOM = {'u_f': 'ufabar', 'v_f': 'vfabar', 'u_o': 'uoabar', 'v_o': 'voabar', 'fo': 'uvfoabar', 'ff': 'uvffabar', 'oo': 'uvooabar',
        'fs': 'fa_speed_bar', 'os': 'oa_speed_bar'}


def build(gs, agg, names, c):
    rows = []
    for g in gs:
        n = len(g['p']) * g['mult']
        m = moments(g['p'], [1] * len(g['p']))
        rows.append(dict({names[k]: v * (n if agg else 1) for k, v in m.items()}, total=n))
    return array_of(rows, ['total'] + list(names.values()), c['order'], c['extra'])


def pooled(gs):
    p = [x for g in gs for x in g['p']]
    w = [g['mult'] for g in gs for _ in g['p']]
    m = moments(p, w)
    m['n'] = sum(w)
    arr = np.array(p, dtype=float)
    w = np.array(w, dtype=float) / m['n']
    d2 = (arr[:, 0] - arr[:, 2]) ** 2 + (arr[:, 1] - arr[:, 3]) ** 2
    m['msve'] = float((d2 * w).sum())
    m['vfs'] = float((w * (np.hypot(arr[:, 0], arr[:, 1]) - m['fs']) ** 2).sum())
    m['vos'] = float((w * (np.hypot(arr[:, 2], arr[:, 3]) - m['os']) ** 2).sum())
    m['big'] = float(np.abs(arr).max())
    return m


def value(label, got, want, tol):
    if is_missing(got):
        fail(f"{label}: missing, expected {want!r}")
    expect(abs(got - want) <= tol + 1e-11 * abs(want), f"{label}: got {got!r}, expected {want!r}")


def root(label, got, want_sq, tol):
    if is_missing(got):
        expect(want_sq <= 2 * tol, f"{label}: missing, expected {math.sqrt(max(want_sq, 0))!r}")
        return
    expect(got >= 0 and abs(got ** 2 - want_sq) <= tol + 4e-7 * math.sqrt(want_sq) + 1e-11 * want_sq,
           f"{label}: got {got!r}, expected {math.sqrt(want_sq)!r}")


def angle(label, got, u, v, also_abs=False):
    """Direction of (u, v) in degrees clockwise from north, compared on the circle."""
    size = math.hypot(u, v)
    if abs(u) < 5e-6 and abs(v) < 5e-6:
        expect(is_missing(got), f"{label}: {got!r} for a zero vector")
        return
    if size < 1e-3:
        return
    want = math.degrees(math.atan2(u, v))
    if is_missing(got):
        fail(f"{label}: missing, expected {want!r} degrees")
    expect(-1e-6 <= got <= 360 + 1e-6, f"{label}: {got!r} outside 0..360")
    tol = 1e-6 + 1e-8 / size
    ok = abs((got - want + 180) % 360 - 180) <= tol
    if also_abs:
        ok = ok or abs(got - abs(want)) <= tol
    expect(ok, f"{label}: got {got!r}, expected {want % 360!r} degrees (on the circle)")


CASE = st.fixed_dictionaries({'g': groups(), 'agg': st.booleans(), 'order': st.permutations([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), 'extra': st.booleans()})


def nontrivial(c):
    g = c['g']
    n = {x['mult'] * len(x['p']) for x in g}
    return (len(n) > 1) if c['agg'] else len(g[0]['p']) > 1


@facet("wind", CASE, quick=700, thorough=6000, rule="several rows of different size, or one row of several vectors")
def wind(c):
    g = c['g'] if c['agg'] else c['g'][:1]
    v, cols = build(g, c['agg'], NAMES, c)
    m = pooled(g)
    noise = 1e-12 * m['big'] ** 2 * (len(g) + 1)
    t = 3e-7 + noise

    def run(mod, name):
        fn = getattr(mod, 'calculate_' + name)
        return call(fn, v.copy(), cols, *([True] if c['agg'] and not name.endswith('total') else []))
    fspd, ospd = math.hypot(m['u_f'], m['v_f']), math.hypot(m['u_o'], m['v_o'])
    value('vl1l2_total', run(vl, 'vl1l2_total'), m['n'], 0)
    value('vl1l2_bias', run(vl, 'vl1l2_bias'), math.sqrt(m['ff']) - math.sqrt(m['oo']), t)
    value('vl1l2_fvar', run(vl, 'vl1l2_fvar'), m['vfs'], t)
    value('vl1l2_ovar', run(vl, 'vl1l2_ovar'), m['vos'], t)
    for mod, f, o, d in ((vl, 'vl1l2_fspd', 'vl1l2_ospd', 'vl1l2_speed_err'), (vcnt, 'vcnt_fbar_speed', 'vcnt_obar_speed', 'vcnt_speed_err')):
        value(f, run(mod, f), fspd, t)
        value(o, run(mod, o), ospd, t)
        value(d, run(mod, d), fspd - ospd, t)
    value('vcnt_speed_abserr', run(vcnt, 'vcnt_speed_abserr'), abs(fspd - ospd), t)
    for mod, a, b in ((vl, 'vl1l2_msve', 'vl1l2_rmsve'), (vcnt, 'vcnt_msve', 'vcnt_rmsve')):
        got = run(mod, a)
        if not (is_missing(got) and m['msve'] < t):
            value(a, got, m['msve'], t)
        root(b, run(mod, b), m['msve'], t)
    value('vcnt_fbar', run(vcnt, 'vcnt_fbar'), m['fs'], t)
    value('vcnt_obar', run(vcnt, 'vcnt_obar'), m['os'], t)
    root('vcnt_fs_rms', run(vcnt, 'vcnt_fs_rms'), m['ff'], t)
    root('vcnt_os_rms', run(vcnt, 'vcnt_os_rms'), m['oo'], t)
    root('vcnt_fstdev', run(vcnt, 'vcnt_fstdev'), m['vfs'], 2 * t)
    root('vcnt_ostdev', run(vcnt, 'vcnt_ostdev'), m['vos'], 2 * t)
    value('vcnt_vdiff_speed', run(vcnt, 'vcnt_vdiff_speed'), math.hypot(m['u_f'] - m['u_o'], m['v_f'] - m['v_o']), t)
    angle('vcnt_fdir', run(vcnt, 'vcnt_fdir'), -m['u_f'], -m['v_f'])
    angle('vcnt_odir', run(vcnt, 'vcnt_odir'), -m['u_o'], -m['v_o'])
    angle('vcnt_vdiff_dir', run(vcnt, 'vcnt_vdiff_dir'), m['u_o'] - m['u_f'], m['v_o'] - m['v_f'])
    if fspd > 1e-2 and ospd > 1e-2:
        a = (m['v_f'] * m['u_o'] - m['u_f'] * m['v_o']) / (fspd * ospd)
        b = (m['u_f'] * m['u_o'] + m['v_f'] * m['v_o']) / (fspd * ospd)
        angle('vcnt_dir_err', run(vcnt, 'vcnt_dir_err'), a, b)
        angle('vcnt_dir_abser', run(vcnt, 'vcnt_dir_abser'), a, b, also_abs=True)
    return nontrivial(c)


@facet("anomaly", CASE, quick=400, thorough=4000, rule="several rows of different size, or one row of several vectors")
def anomaly(c):
    g = c['g'] if c['agg'] else c['g'][:1]
    v, cols = build(g, c['agg'], ANOM, c)
    m = pooled(g)
    noise = 1e-12 * m['big'] ** 2 * (len(g) + 1)
    value('val1l2_total', call(val.calculate_val1l2_total, v.copy(), cols), m['n'], 0)
    cf = m['ff'] - m['u_f'] ** 2 - m['v_f'] ** 2
    co = m['oo'] - m['u_o'] ** 2 - m['v_o'] ** 2
    if min(cf, co) > 1e-6 + 1e5 * noise:
        r = (m['fo'] - m['u_f'] * m['u_o'] - m['v_f'] * m['v_o']) / math.sqrt(cf * co)
        value('val1l2_anom_corr', call(val.calculate_val1l2_anom_corr, v.copy(), cols, *([True] if c['agg'] else [])), r, 2e-7 + 10 * noise / min(cf, co))
    if min(m['vfs'], m['vos']) > 1e-6 + 1e5 * noise:
        r = (m['fo'] - m['fs'] * m['os']) / math.sqrt(m['vfs'] * m['vos'])
        r = max(-1.0, min(1.0, r))
        value('vcnt_anom_corr', call(vcnt.calculate_vcnt_anom_corr, v.copy(), cols, *([True] if c['agg'] else [])), r, 2e-7 + 10 * noise / min(m['vfs'], m['vos']))
    if min(m['ff'], m['oo']) > 1e-6:
        r = max(-1.0, min(1.0, m['fo'] / math.sqrt(m['ff'] * m['oo'])))
        value('vcnt_anom_corr_uncntr', call(vcnt.calculate_vcnt_anom_corr_uncntr, v.copy(), cols, *([True] if c['agg'] else [])), r, 2e-7)
    return nontrivial(c)


@facet("direction", st.fixed_dictionaries({'u': ints(-4000, 4000), 'v': ints(-4000, 4000), 's': st.sampled_from([1, 100, 0.001])}), quick=400, thorough=3000,
       rule="both components non-zero")
def direction(c):
    """The direction helper on single vectors, including the axes."""
    u, v = c['u'] * c['s'] / 100, c['v'] * c['s'] / 100
    if 5e-6 < max(abs(u), abs(v)) < 1e-3:
        u, v = u * 1000, v * 1000
    got = call(met_stats.calc_direction, np.float64(u), np.float64(v))
    angle('direction', got, u, v)
    value('speed', call(met_stats.calc_speed, np.float64(u), np.float64(v)), math.hypot(u, v), 1e-12)
    return c['u'] != 0 and c['v'] != 0


@facet("perfect", st.fixed_dictionaries({'rows': st.lists(st.lists(st.tuples(ints(-30, 30), ints(-30, 30)), min_size=4, max_size=4), min_size=1, max_size=2), 'agg': st.booleans()}),
       quick=150, thorough=1500, rule="the vectors vary")
def perfect(c):
    """A forecast equal to the observation has no error at all, with sums that carry no rounding."""
    rows = c['rows'] if c['agg'] else c['rows'][:1]
    g = [{'mult': 1, 'p': [[u, v, u, v] for u, v in r]} for r in rows]
    args = [True] if c['agg'] else []
    case = {'order': None, 'extra': False}
    v, cols = build(g, c['agg'], NAMES, case)
    for mod, names in ((vl, ['vl1l2_msve', 'vl1l2_rmsve', 'vl1l2_bias', 'vl1l2_speed_err']), (vcnt, ['vcnt_msve', 'vcnt_rmsve', 'vcnt_speed_err', 'vcnt_speed_abserr', 'vcnt_vdiff_speed'])):
        for s in names:
            value(s, call(getattr(mod, 'calculate_' + s), v.copy(), cols, *args), 0, 1e-9)
    if len({tuple(p) for r in rows for p in r}) == 1:
        return False
    v, cols = build(g, c['agg'], ANOM, case)
    value('val1l2_anom_corr', call(val.calculate_val1l2_anom_corr, v.copy(), cols, *args), 1, 1e-5)
    value('vcnt_anom_corr_uncntr', call(vcnt.calculate_vcnt_anom_corr_uncntr, v.copy(), cols, *args), 1, 1e-5)
    return True
