"""Scalar partial-sum statistics against the statistics of the raw pairs they were made from."""
import math

import numpy as np

from vh import call, decimals, expect, facet, fail, ints, is_missing, lists, st
from gens import array_of
import metcalcpy.util.sl1l2_statistics as sl
import metcalcpy.util.sal1l2_statistics as sal
import metcalcpy.util.ssvar_statistics as ssv
import metcalcpy.util.grad_statistics as grad
import metcalcpy.sum_stat as sum_stat


@st.composite
def groups(draw, lo=1, hi=6, positive=False):
    """Rows of raw pairs, each row standing for `mult` copies of its pairs. A common offset and scale gives fields such as temperature, height or anomalies."""
    off = 0 if positive else draw(st.sampled_from([0, 0, 0, 280, -40, 5500]))
    scale = draw(st.sampled_from([1, 1, 10, 0.1]))
    low = 0 if positive else -2000
    val = ints(low, 2000).map(lambda i: round(off + scale * i / 100, 6))
    near = ints(low, 2000)
    mode = draw(st.sampled_from(['free', 'free', 'close', 'const']))
    n = draw(st.one_of(ints(lo, hi), ints(lo, hi), ints(lo, 25)))
    out = []
    for _ in range(n):
        m = draw(st.one_of(ints(1, 8), ints(1, 3), ints(1, 30)))
        rows = []
        for _ in range(m):
            o = draw(val)
            if mode == 'const':
                f = o
            elif mode == 'close':
                f = round(o + draw(near) / 1000, 6)
            else:
                f = draw(val)
            rows.append([abs(f) if positive else f, abs(o) if positive else o])
        out.append({'mult': draw(st.sampled_from([1, 1, 1, 2, 9, 5000, 300000])), 'p': rows})
    return out


def pairs(gs):
    return np.array([x for g in gs for x in g['p']], dtype=float), np.array([g['mult'] for g in gs for _ in g['p']], dtype=float)


def sizes(gs):
    return [g['mult'] * len(g['p']) for g in gs]


def partial(gs, weight):
    rows = []
    for g in gs:
        f, o = np.array(g['p'], dtype=float).T
        n = len(f) * g['mult']
        r = {'total': n, 'fbar': f.mean(), 'obar': o.mean(), 'fobar': (f * o).mean(), 'ffbar': (f * f).mean(),
             'oobar': (o * o).mean(), 'mae': abs(f - o).mean()}
        if weight:
            r = {k: v if k == 'total' else v * n for k, v in r.items()}
        rows.append(r)
    return rows


class Raw:
    """Statistics straight from the pairs, with the tolerance each earns from seven-decimal rounding of its parts."""

    def __init__(self, gs):
        p, self.w = pairs(gs)
        self.f, self.o = p[:, 0], p[:, 1]
        self.n = float(self.w.sum())
        self.big = float(np.max(np.abs(p)))
        self.noise = 1e-13 * self.big ** 2 * max(1, len(gs)) + 1e-15

    def mean(self, x):
        return float((x * self.w).sum() / self.n)

    def stats(self):
        f, o, n = self.f, self.o, self.n
        fb, ob = self.mean(f), self.mean(o)
        me, mse = self.mean(f - o), self.mean((f - o) ** 2)
        vf, vo, ve = n * self.mean((f - fb) ** 2), n * self.mean((o - ob) ** 2), n * self.mean((f - o - me) ** 2)
        cov = n * self.mean((f - fb) * (o - ob))
        t = 2e-7 + self.noise
        tme = 2e-7 + 1e-13 * self.big
        tvar = (t + 2e-7 * abs(me) * 2) * (n / (n - 1) if n > 1 else 1) + 1e-13
        out = {'fbar': ('v', fb, tme), 'obar': ('v', ob, tme), 'fobar': ('v', self.mean(f * o), t), 'ffbar': ('v', self.mean(f * f), t),
               'oobar': ('v', self.mean(o * o), t), 'mae': ('v', self.mean(abs(f - o)), tme), 'me': ('v', me, tme),
               'me2': ('v', me ** 2, tme * (2 * abs(me) + 1)), 'mse': ('v', mse, t), 'rmse': ('s', mse, 2 * t),
               'bcmse': ('v', ve / n, t + 4e-7 * abs(me) + 1e-7), 'bcrmse': ('s', ve / n, 2 * t + 4e-7 * abs(me) + 1e-7),
               'sl1l2_total': ('v', n, 0), 'sal1l2_total': ('v', n, 0)}
        if abs(ob) > 1e-3:
            out['mbias'] = ('v', fb / ob, 2e-7 + tme * (abs(fb / ob) + 1) / abs(ob))
            rm = math.sqrt(mse)
            out['si'] = ('v', rm / ob, 2e-7 + (math.sqrt(t) if mse < 1e-3 else t / rm) / abs(ob) + tme * rm / ob ** 2)
        if abs(ob) < 1e-12 and self.big < 1e3:
            pass
        if abs(fb) > 1e-3:
            out['fe'] = ('v', me / fb, 2e-7 + 2 * tme * (abs(me / fb) + 1) / abs(fb))
        if n > 1:
            nt = self.noise * n / (n - 1)
            out['fstdev'] = ('s', vf / (n - 1), 1e-6 * math.sqrt(vf / n) + nt + 1e-13)
            out['ostdev'] = ('s', vo / (n - 1), 1e-6 * math.sqrt(vo / n) + nt + 1e-13)
            out['estdev'] = ('s', ve / (n - 1), tvar + 1e-6 * math.sqrt(ve / n))
            so2 = vo / (n - 1)
            if so2 > 1e-4 + 100 * nt:
                out['msess'] = ('v', 1 - mse / so2, 2e-7 + t / so2 + mse / so2 * (2e-7 / math.sqrt(so2) + nt / so2) * 2)
            if vf / n > 1e-6 + 1e4 * self.noise and vo / n > 1e-6 + 1e4 * self.noise:
                r = cov / math.sqrt(vf * vo)
                if abs(r) < 1 - 1e-7:
                    out['pr_corr'] = ('v', r, 2e-7 + 10 * self.noise * n / math.sqrt(vf * vo) + 4 * self.noise * n * (1 / vf + 1 / vo))
        else:
            for k in ('fstdev', 'ostdev', 'estdev'):
                out[k] = ('m', None, 0)
        return out


def compare(label, got, kind, want, tol):
    if kind == 'm':
        if not is_missing(got):
            fail(f"{label}: got {got!r} for a single pair, expected missing")
        return
    if kind == 's':
        # a root: compared as a square; a variance indistinguishable from zero may come out missing
        if is_missing(got):
            expect(want <= 2 * tol, f"{label}: missing, expected {math.sqrt(want)!r}")
            return
        expect(got >= 0, f"{label}: negative root {got}")
        expect(abs(got ** 2 - want) <= tol + 4e-7 * math.sqrt(want) + 1e-12 * want, f"{label}: got {got!r}, expected {math.sqrt(want)!r}")
        return
    if is_missing(got):
        fail(f"{label}: missing, expected {want!r}")
    expect(abs(got - want) <= tol + 1e-11 * abs(want), f"{label}: got {got!r}, expected {want!r} (tolerance {tol:.1e})")


ORDER = st.permutations([0, 1, 2, 3, 4, 5, 6, 7, 8])
SCALAR = ['total', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae']
PAIRS = st.fixed_dictionaries({'g': groups(), 'order': ORDER, 'extra': st.booleans()})


def eval_all(mod, names, prefix, values, cols, want, agg):
    for s in names:
        if s not in want:
            continue
        fn = getattr(mod, 'calculate_' + prefix + s)
        args = (True,) if agg and not s.endswith('total') else ()
        compare(f"{prefix}{s} ({'aggregated' if agg else 'single row'})", call(fn, values.copy(), cols, *args), *want[s])


SL = ['fbar', 'obar', 'fstdev', 'ostdev', 'fobar', 'ffbar', 'oobar', 'mae', 'mbias', 'pr_corr', 'fe', 'me', 'me2', 'mse', 'msess', 'rmse',
      'si', 'estdev', 'bcmse', 'bcrmse', 'sl1l2_total', 'sal1l2_total']


@facet("scalar_aggregated", PAIRS, quick=700, thorough=6000,
       rule="two or more rows of different size whose pairs vary")
def scalar_aggregated(c):
    raw = Raw(c['g'])
    v, cols = array_of(partial(c['g'], True), SCALAR, c['order'], c['extra'])
    eval_all(sl, SL, '', v, cols, raw.stats(), True)
    return len(set(sizes(c['g']))) > 1 and raw.f.std() > 0


@facet("scalar_single", st.fixed_dictionaries({'g': groups(1, 1).map(lambda g: g[:1]), 'order': ORDER, 'extra': st.booleans()}),
       quick=500, thorough=4000, rule="one row made of three or more pairs that vary")
def scalar_single(c):
    raw = Raw(c['g'])
    v, cols = array_of(partial(c['g'], False), SCALAR, c['order'], c['extra'])
    want = raw.stats()
    eval_all(sl, SL, '', v, cols, want, False)
    for s in ('rmse', 'me', 'fbar', 'bcmse', 'estdev'):
        if s in want:
            compare(f"{s} by name", call(sum_stat.calculate_statistic, v.copy(), cols, s), *want[s])
    return raw.n > 2 and raw.f.std() > 0


def to_anom(rows):
    m = {'fbar': 'fabar', 'obar': 'oabar', 'fobar': 'foabar', 'ffbar': 'ffabar', 'oobar': 'ooabar', 'total': 'total', 'mae': 'mae'}
    return [{m[k]: x for k, x in r.items()} for r in rows]


def anomaly_wants(raw):
    f, o, n = raw.f, raw.o, raw.n
    ff, oo, fo = raw.mean(f * f), raw.mean(o * o), raw.mean(f * o)
    t = 2e-7 + raw.noise
    out = {'rmsfa': ('s', ff, t), 'rmsoa': ('s', oo, t)}
    st_ = raw.stats()
    if 'pr_corr' in st_:
        out['anom_corr'] = st_['pr_corr']
    if ff > 1e-6 and oo > 1e-6:
        out['anom_corr_raw'] = ('v', fo / math.sqrt(ff * oo), 3e-7 + 1e-11)
    return out


@facet("anomaly", st.fixed_dictionaries({'g': groups(), 'order': ORDER, 'extra': st.booleans(), 'agg': st.booleans()}), quick=500, thorough=4000,
       rule="three or more pairs that vary, in one row or several")
def anomaly(c):
    g = c['g'] if c['agg'] else c['g'][:1]
    raw = Raw(g)
    cols = ['total', 'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar']
    v, names = array_of(to_anom(partial(g, c['agg'])), cols, c['order'], c['extra'])
    eval_all(sal, ['anom_corr', 'anom_corr_raw', 'rmsfa', 'rmsoa'], '', v, names, anomaly_wants(raw), c['agg'])
    return raw.n > 2 and raw.f.std() > 0


SS = ['fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me', 'estdev', 'mse', 'bcmse', 'bcrmse', 'rmse', 'me2', 'msess']


@facet("spread_skill", st.fixed_dictionaries({'g': groups(), 'var': st.lists(decimals(0, 40), min_size=25, max_size=25), 'agg': st.booleans(),
                                              'order': ORDER, 'extra': st.booleans()}), quick=500, thorough=4000,
       rule="two or more bins of different size, or one bin with varying pairs")
def spread_skill(c):
    g = c['g'] if c['agg'] else c['g'][:1]
    raw = Raw(g)
    rows = partial(g, c['agg'])
    for i, r in enumerate(rows):
        r['var_mean'] = c['var'][i % 25] * (r['total'] if c['agg'] else 1)
        r['total_orig'] = raw.n
    v, names = array_of(rows, SCALAR + ['var_mean', 'total_orig'], c['order'], c['extra'])
    want = raw.stats()
    eval_all(ssv, SS, 'ssvar_', v, names, want, c['agg'])
    if 'pr_corr' in want:
        compare('ssvar_anom_corr', call(ssv.calculate_ssvar_anom_corr, v.copy(), names, c['agg']), *want['pr_corr'])
    spread = sum(c['var'][i % 25] * x for i, x in enumerate(sizes(g))) / raw.n
    flags = [[True]] if c['agg'] else [[False], []]          # a row that was not summed needs no flag
    for flag in flags:
        compare('ssvar_spread', call(ssv.calculate_ssvar_spread, v.copy(), names, *flag), 's', spread, 2e-7)
    return raw.n > 2 and (not c['agg'] or len(set(sizes(g))) > 1)


@facet("gradient", st.fixed_dictionaries({'g': groups(positive=True), 'order': ORDER, 'extra': st.booleans(), 'agg': st.booleans()}), quick=500, thorough=4000,
       rule="three or more gradient pairs, not all zero")
def gradient(c):
    g = c['g'] if c['agg'] else c['g'][:1]
    rows, (allp, w) = [], pairs(g)
    for r in g:
        f, o = np.array(r['p'], dtype=float).T
        n = len(f) * r['mult']
        d = {'total': n, 'fgbar': f.mean(), 'ogbar': o.mean(), 'mgbar': np.maximum(f, o).mean(), 'egbar': abs(f - o).mean()}
        rows.append({k: x if k == 'total' or not c['agg'] else x * n for k, x in d.items()})
    v, names = array_of(rows, ['total', 'fgbar', 'ogbar', 'mgbar', 'egbar'], c['order'], c['extra'])
    f, o = allp.T
    fm, om, m, e = (float((x * w).sum() / w.sum()) for x in (f, o, np.maximum(f, o), abs(f - o)))
    want = {'fgbar': ('v', fm, 2e-7), 'ogbar': ('v', om, 2e-7), 'mgbar': ('v', m, 2e-7), 'egbar': ('v', e, 2e-7),
            'grad_total': ('v', w.sum(), 0)}
    if m > 0:
        want['s1'] = ('v', 100 * e / m, 2e-7 + 1e-9 * 100 * e / m)
    if om > 0:
        want['s1_og'] = ('v', 100 * e / om, 2e-7 + 1e-9 * 100 * e / om)
        want['fgog_ratio'] = ('v', 100 * fm / om, 2e-7 + 1e-9 * 100 * fm / om)
    eval_all(grad, list(want), '', v, names, want, c['agg'])
    return len(f) > 2 and m > 0


@facet("perfect", st.fixed_dictionaries({'rows': st.lists(st.lists(ints(-40, 40), min_size=4, max_size=4), min_size=1, max_size=4).filter(lambda r: len(r) != 3), 'sign': st.sampled_from([1, -1]), 'agg': st.booleans()}),
       quick=150, thorough=1500, rule="the values vary")
def perfect(c):
    """A forecast equal (or opposite) to the observation correlates exactly, with sums that carry no rounding."""
    rows = c['rows'] if c['agg'] else c['rows'][:1]
    g = [{'mult': 1, 'p': [[c['sign'] * x, x] for x in r]} for r in rows]
    x = [v for r in rows for v in r]
    want = c['sign'] if len(set(x)) > 1 else None
    args = (True,) if c['agg'] else ()

    def exact(label, got, want):
        if want is None:
            expect(is_missing(got), f"{label}: got {got!r} for constant values {x}")
        else:
            expect(not is_missing(got) and abs(got - want) < 1e-5, f"{label}: got {got!r}, expected {want} for forecasts {c['sign']} times {x}")
    v, cols = array_of(partial(g, c['agg']), SCALAR)
    exact("pr_corr", call(sl.calculate_pr_corr, v, cols, *args), want)
    part = [{k if k == 'total' or k == 'mae' else {'fbar': 'fabar', 'obar': 'oabar', 'fobar': 'foabar', 'ffbar': 'ffabar', 'oobar': 'ooabar'}[k]: val for k, val in r.items()} for r in partial(g, c['agg'])]
    v, cols = array_of(part, ['total', 'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar'])
    exact("anom_corr", call(sal.calculate_anom_corr, v, cols, *args), want)
    exact("anom_corr_raw", call(sal.calculate_anom_corr_raw, v, cols, *args), c['sign'] if any(x) else None)
    return want is not None
