"""Bootstrap intervals are quantiles of statistics of genuine resamples."""
import math

import numpy as np
import pandas as pd

import agg
from aggcase import number, run
from vh import call, decimals, expect, expect_near, facet, ints, is_missing, pick, quiet, st
from metcalcpy.bootstrap import bootstrap_and_value, bootstrap_and_value_mode


class Recorder:
    """A statistic that keeps every data set it is asked about."""

    def __init__(self, stat, gaps=0):
        self.stat, self.gaps = stat, gaps
        self.original, self.samples, self.values, self.batches = [], [], [], []

    def one(self, rows):
        rows = np.asarray(rows, dtype=float)
        if self.stat == 'mean':
            return float(rows[:, 1].mean())
        if self.stat == 'ratio':
            return float(rows[:, 1].sum() / (1 + abs(rows[:, 2]).sum()))
        if self.stat == 'max':
            return float(rows[:, 2].max())
        if self.stat == 'order':                      # depends on the order of the rows too
            return float((rows[:, 1] * np.arange(1, len(rows) + 1)).sum())
        return 4.25                                   # constant

    def __call__(self, values):
        values = np.asarray(values)
        if values.ndim == 2:
            self.original.append(values.copy())
            return [self.one(values)]
        out = []
        self.batches.append(len(values))
        for rows in values:
            v = self.one(rows)
            if self.gaps and len(self.values) % self.gaps == 0:
                v = None
            self.samples.append(rows.copy())
            self.values.append(v)
            out.append([v])
        return out


CASE = st.fixed_dictionaries({
    'x': st.one_of(*[st.lists(st.tuples(decimals(-50, 50, 2), decimals(-50, 50, 2)), min_size=a, max_size=b) for a, b in ((1, 14), (1, 14), (1, 14), (15, 70))]),
    'stat': pick('mean', 'ratio', 'max', 'order', 'constant'), 'gaps': pick(0, 0, 0, 3, 2), 'method': pick('perc', 'perc', 'pivotal'),
    'alpha': pick(0.01, 0.05, 0.1, 0.2, 0.5, 0.9), 'iterations': st.one_of(ints(2, 12), ints(20, 150)), 'batch': st.one_of(st.none(), ints(1, 40)),
    'block': pick(1, 1, 2, 3, 4, 5, 7, 14, 20, 33), 'seed': ints(0, 10 ** 6), 'save': st.booleans()})


def data_of(c):
    return np.array([[i, a, b] for i, (a, b) in enumerate(c['x'])], dtype=float)


def quantiles(values, alpha):
    """Linear interpolation between order statistics."""
    s = sorted(values)

    def at(q):
        h = (len(s) - 1) * q
        lo = int(math.floor(h))
        hi = min(lo + 1, len(s) - 1)
        return s[lo] + (h - lo) * (s[hi] - s[lo])
    return at(alpha / 2), at(1 - alpha / 2)


def genuine(samples, data, block):
    n = len(data)
    for k, rows in enumerate(samples):
        expect(rows.shape == data.shape, f"resample {k} has shape {rows.shape}, the data {data.shape}")
        ids = rows[:, 0].astype(int)
        expect(((ids >= 0) & (ids < n)).all() and np.array_equal(rows, data[ids]), f"resample {k} holds rows that are not rows of the data")
        for i in range(1, n):
            if block > 1 and i % block:
                expect(ids[i] == (ids[i - 1] + 1) % n, f"resample {k} with block length {block} has row numbers {ids.tolist()}")


def interval(c, rec, res, value):
    """The bounds follow from the recorded statistics."""
    got = [v for v in rec.values if v is not None]
    lo, hi = res.lower_bound, res.upper_bound
    expect_near(res.value, value, "reported value", rel=1e-12)
    scale = max([abs(v) for v in got] + [abs(value), 1e-9])
    if not got or len(set(got)) == 1:
        if is_missing(lo) or is_missing(hi):
            expect(is_missing(lo) and is_missing(hi), f"bounds {lo} and {hi} of identical statistics")
            return False
        expect(got, f"bounds {lo} and {hi} although every resample's statistic is missing")
    a, b = quantiles(got, c['alpha'])
    if c['method'] == 'pivotal':
        a, b = 2 * value - b, 2 * value - a
    expect(not is_missing(lo) and not is_missing(hi), f"bounds {lo} and {hi}, expected {a} and {b}")
    expect(lo <= hi, f"lower bound {lo} above upper bound {hi}")
    for g, w, what in ((lo, a, 'lower'), (hi, b, 'upper')):
        expect(abs(g - w) <= 1e-9 * scale, f"{what} bound {g}, the statistics of the resamples give {w} ({c['method']}, alpha {c['alpha']})")
    return len(set(got)) > 2


@facet("resamples", CASE, quick=1500, thorough=15000, rule="three or more different statistics among the resamples")
def resamples(c):
    data = data_of(c)
    keep = data.copy()
    rec = Recorder(c['stat'], c['gaps'])
    np.random.seed(c['seed'])
    with quiet():
        res = call(bootstrap_and_value, data, rec, alpha=c['alpha'], num_iterations=c['iterations'], iteration_batch_size=c['batch'],
                   num_threads=1, ci_method=c['method'], save_data=c['save'], save_distributions=c['save'], block_length=c['block'])
    expect(np.array_equal(data, keep), "the input data were changed")
    expect(rec.original and all(np.array_equal(o, keep) for o in rec.original), "the value is not taken from the original data")
    expect(len(rec.samples) == c['iterations'], f"{len(rec.samples)} resamples for {c['iterations']} iterations")
    if c['batch']:
        expect(max(rec.batches) <= c['batch'], f"batches of {rec.batches} for size {c['batch']}")
    genuine(rec.samples, keep, c['block'])
    some = interval(c, rec, res, rec.one(keep))
    if c['save']:
        d = np.asarray(res.distributions, dtype=object).ravel().tolist()
        expect(len(d) == len(rec.values) and all((is_missing(x) and y is None) or (y is not None and x == y) for x, y in zip(d, rec.values)),
               "saved distribution is not the list of resampled statistics")
        expect(np.array_equal(res.values, keep), "saved data differ from the data")
    return some


@facet("every_row_drawn", st.fixed_dictionaries({'n': ints(2, 8), 'block': ints(1, 9), 'seed': ints(0, 10 ** 6)}), quick=40, thorough=300,
       rule="two or more rows")
def every_row_drawn(c):
    """Each row is drawn about equally often at every place of a resample, and with replacement.
    The bound is ten standard deviations wide."""
    n, reps = c['n'], 600
    data = np.array([[i, i * i, -i] for i in range(n)], dtype=float)
    rec = Recorder('mean')
    np.random.seed(c['seed'])
    with quiet():
        call(bootstrap_and_value, data, rec, num_iterations=reps, block_length=c['block'])
    ids = np.array([r[:, 0] for r in rec.samples]).astype(int)
    genuine(rec.samples, data, c['block'])
    sd = math.sqrt(reps / n * (1 - 1 / n))
    for place in range(n):
        for row in range(n):
            k = int((ids[:, place] == row).sum())
            expect(abs(k - reps / n) <= 10 * sd, f"row {row} of {n} is drawn {k} times of {reps} at place {place} (block length {c['block']})")
    if c['block'] == 1:
        expect(any(len(set(r)) < n for r in ids.tolist()), "no resample repeats a row")
        if n > 2:
            same = int((ids[:, 0] == ids[:, 1]).sum())
            expect(abs(same - reps / n) <= 10 * sd, f"neighbouring places agree {same} times of {reps}")
    return True


@facet("levels", CASE, quick=500, thorough=5000, rule="a wider interval at the higher confidence")
def levels(c):
    """Higher confidence contains the lower one, for the same resamples."""
    data = data_of(c)
    got = []
    for alpha in (0.5, 0.2, 0.05, 0.01):
        np.random.seed(c['seed'])
        with quiet():
            r = call(bootstrap_and_value, data, Recorder(c['stat'], c['gaps']), alpha=alpha, num_iterations=c['iterations'],
                     ci_method=c['method'], block_length=c['block'])
        got.append((r.lower_bound, r.upper_bound))
    if any(is_missing(v) for g in got for v in g):
        expect(all(is_missing(v) for g in got for v in g), f"bounds missing at some levels only: {got}")
        return False
    tol = 1e-9 * max(1.0, max(abs(v) for g in got for v in g))
    for (lo, hi), (lo2, hi2) in zip(got, got[1:]):
        expect(lo <= hi and lo2 <= lo + tol and hi2 >= hi - tol, f"interval {lo2, hi2} at higher confidence does not contain {lo, hi}")
    return got[-1][1] - got[-1][0] > got[0][1] - got[0][0]


@st.composite
def objects(draw):
    cases = [f"c{i}" for i in range(draw(ints(1, 7)))]
    rows = [{'case': draw(st.sampled_from(cases + ['other'])), 'v': draw(decimals(-20, 20, 1))} for _ in range(draw(ints(1, 20)))]
    return {'cases': cases, 'rows': rows, 'method': draw(pick('perc', 'pivotal')), 'alpha': draw(pick(0.05, 0.2, 0.5)),
            'iterations': draw(ints(2, 60)), 'batch': draw(st.one_of(st.none(), ints(1, 20))), 'block': draw(pick(1, 1, 2, 3)),
            'seed': draw(ints(0, 10 ** 6))}


@facet("cases", objects(), quick=250, thorough=3000, rule="three or more different statistics among the resamples")
def cases_facet(c):
    """Object data: the cases are resampled, the value comes from the rows of the listed cases."""
    frame = pd.DataFrame(c['rows'])
    cases = np.array(c['cases'], dtype=object).reshape(-1, 1)
    seen, values, original = [], [], []

    class Rec:
        pass
    rec = Rec()

    def stat(v):
        v = np.asarray(v)
        if v.ndim == 2:
            original.append(v.copy())
            return [float(np.sum([float(x) for x in v[:, 1]])) if v.shape[1] == 2 else -1.0]
        out = []
        for row in v:
            seen.append(row.copy())
            values.append(float(sum(r['v'] for r in c['rows'] for x in row.ravel() if x == r['case'])))
            out.append([values[-1]])
        return out
    np.random.seed(c['seed'])
    with quiet():
        res = call(bootstrap_and_value_mode, frame, cases, stat, alpha=c['alpha'], num_iterations=c['iterations'],
                   iteration_batch_size=c['batch'], ci_method=c['method'], block_length=c['block'])
    want = [r for r in c['rows'] if r['case'] in c['cases']]
    expect(len(original) == 1 and [list(r) for r in original[0]] == [[r['case'], r['v']] for r in want],
           f"the value is taken from {original}, expected the rows {want}")
    expect(len(seen) == c['iterations'], f"{len(seen)} resamples for {c['iterations']} iterations")
    n = len(c['cases'])
    for k, s in enumerate(seen):
        flat = s.ravel().tolist()
        expect(len(flat) == n and set(flat) <= set(c['cases']), f"resample {k} holds {flat}")
        for i in range(1, n):
            if c['block'] > 1 and i % c['block']:
                expect(c['cases'].index(flat[i]) == (c['cases'].index(flat[i - 1]) + 1) % n, f"resample {k} with block length {c['block']}: {flat}")
    rec.values = values
    return interval(c, rec, res, float(np.sum([r['v'] for r in want])))


@st.composite
def curves(draw):
    k = draw(ints(1, 4))
    rows = [[draw(decimals(-20, 20, 1)) for _ in range(k)] for _ in range(draw(ints(1, 9)))]
    return {'rows': rows, 'k': k, 'method': draw(pick('perc', 'perc', 'pivotal')), 'alpha': draw(pick(0.05, 0.2, 0.5)), 'iterations': draw(ints(2, 50)),
            'block': draw(pick(1, 1, 2, 3)), 'seed': draw(ints(0, 10 ** 6)), 'gaps': draw(pick(0, 0, 3))}


@facet("curves", curves(), quick=250, thorough=3000, rule="an interval at some place of the curve")
def curves_facet(c):
    """Value curves: an interval at every cost/loss ratio, from that ratio's own values."""
    data = np.array(c['rows'], dtype=float)
    cl = np.arange(1, c['k'] + 1) / 10
    values = []

    def curve(rows):
        return {'cl': cl, 'V': np.asarray(rows, dtype=float).mean(axis=0)}

    def stat(v):
        if np.asarray(v).ndim == 2:
            return [curve(v)]
        out = []
        for i, r in enumerate(v):
            d = None if c['gaps'] and i % c['gaps'] == 1 else curve(r)
            values.append(d)
            out.append([d])
        return out
    np.random.seed(c['seed'])
    with quiet():
        res = call(bootstrap_and_value, data, stat, alpha=c['alpha'], num_iterations=c['iterations'], ci_method=c['method'],
                   block_length=c['block'], eclv=True)
    base = curve(data)['V']
    expect(np.array_equal(res.value['V'], base) and np.array_equal(res.value['cl'], cl), "value curve differs from the statistic of the data")
    expect(len(res.lower_bound) == c['k'] and len(res.upper_bound) == c['k'], "an interval per cost/loss ratio is expected")
    some = False
    for i in range(c['k']):
        col = [d['V'][i] for d in values if d is not None]
        lo, hi = res.lower_bound[i], res.upper_bound[i]
        if not col or len(set(col)) == 1:
            if is_missing(lo) and is_missing(hi):
                continue
        a, b = quantiles(col, c['alpha'])
        if c['method'] == 'pivotal':
            a, b = 2 * base[i] - b, 2 * base[i] - a
        expect(not is_missing(lo) and not is_missing(hi), f"bounds {lo} and {hi} at place {i}, expected {a} and {b}")
        expect(abs(lo - a) < 1e-7 and abs(hi - b) < 1e-7, f"bounds {lo} and {hi} at place {i}, the resamples give {a} and {b}")
        some = some or b > a
    return some


@st.composite
def series(draw):
    n = draw(ints(2, 10))
    rows = [{'model': draw(pick('A', 'B')), 'fcst_valid_beg': f"2020-01-{i + 1:02d} 00:00:00", 'fcst_lead': agg.LEAD, 'fcst_var': 'TMP',
             'total': draw(ints(1, 50)), 'fbar': draw(decimals(-20, 20, 2)), 'obar': draw(decimals(-20, 20, 2)), 'fobar': 1.0, 'ffbar': 1.0,
             'oobar': 1.0, 'mae': 1.0, 'stat_value': None} for i in range(n)]
    return {'rows': rows, 'iterations': draw(ints(20, 80)), 'seed': draw(ints(1, 10 ** 6)), 'cbb': draw(st.booleans()),
            'method': draw(pick('perc', 'perc', 'pivotal'))}


@facet("program", series(), quick=100, thorough=800, rule="a wider interval at the higher confidence")
def program(c):
    """The aggregation program's bounds: inside the range of the rows' values, wider at the higher confidence it was asked for."""
    got = {}
    for alpha in (0.5, 0.05, None):                  # the last is the default of 0.05
        p = agg.params(line_type='sl1l2', series_val_1={'model': ['A', 'B']}, indy_vals=[str(agg.LEAD)], list_stat_1=['FBAR'],
                       fcst_var_val_1={'TMP': ['FBAR']}, num_iterations=c['iterations'], random_seed=c['seed'], method=c['method'],
                       circular_block_bootstrap=c['cbb'], alpha=alpha)
        if alpha is None:
            del p['alpha']
        out = run(agg.per_stat(c['rows'], ['FBAR']), p)
        for o in out:
            rows = [r for r in c['rows'] if r['model'] == o['model']]
            lo, hi, v = (number(o[k]) for k in ('stat_btcl', 'stat_btcu', 'stat_value'))
            if not rows:
                expect(lo is None and hi is None, f"bounds {o} without data")
                continue
            want = sum(r['total'] * r['fbar'] for r in rows) / sum(r['total'] for r in rows)
            expect(v is not None and abs(v - want) < 1e-4, f"value {v}, expected {want}")
            expect((lo is None) == (hi is None), f"one bound only: {o}")
            if lo is None:
                expect(len({r['fbar'] for r in rows}) == 1 or len(rows) < 5, f"no bounds for {len(rows)} differing rows")
                continue
            a, b = min(r['fbar'] for r in rows), max(r['fbar'] for r in rows)
            if c['method'] == 'pivotal':
                a, b = 2 * want - b, 2 * want - a
            expect(lo <= hi and lo >= a - 1e-4 and hi <= b + 1e-4, f"bounds {lo} and {hi} of a mean over rows within {a} and {b}")
            got[o['model'], alpha] = (lo, hi)
    wider = False
    for m in ('A', 'B'):
        expect(got.get((m, None)) == got.get((m, 0.05)), f"without a level the interval is {got.get((m, None))}, at 95% {got.get((m, 0.05))}")
        if (m, 0.5) in got and (m, 0.05) in got:
            (l1, h1), (l2, h2) = got[m, 0.5], got[m, 0.05]
            expect(l2 <= l1 + 1e-6 and h2 >= h1 - 1e-6, f"95% interval {l2, h2} does not contain the 50% one {l1, h1}")
            many = len({r['fbar'] for r in c['rows'] if r['model'] == m}) >= 5
            expect(not many or h2 - l2 > h1 - l1, f"the 95% and 50% intervals are the same: {l1, h1}")
            wider = wider or h2 - l2 > h1 - l1
    return wider
