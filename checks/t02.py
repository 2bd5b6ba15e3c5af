"""Correlations, autocorrelations and runs tests against their definitions."""
import math

import numpy as np
from scipy import special, stats

from vh import Violation, call, expect, expect_near, facet, fail, ints, is_missing, near, st
from metcalcpy.util.correlation import acf, corr, remove_none
from metcalcpy.util.wald_wolfowitz_runs_test import runs_test


@st.composite
def values(draw, lo=2, hi=40, missing='nan'):
    """A series: few distinct values (ties), random, monotone, periodic or constant; optionally with missing entries."""
    n = draw(st.one_of(ints(lo, 12), ints(lo, hi)))
    kind = draw(st.sampled_from(['ties', 'free', 'free', 'walk', 'alt', 'const', 'two']))
    if kind == 'ties':
        v = [draw(ints(0, 4)) for _ in range(n)]
    elif kind == 'const':
        v = [draw(ints(-5, 5))] * n
    elif kind == 'two':
        v = [draw(ints(0, 1)) * 3 - 1 for _ in range(n)]
    elif kind == 'alt':
        a, b = draw(ints(-50, 50)), draw(ints(-50, 50))
        v = [(a if i % 2 else b) + draw(ints(0, 3)) for i in range(n)]
    elif kind == 'walk':
        v, x = [], 0
        for _ in range(n):
            x += draw(ints(-5, 5))
            v.append(x)
    else:
        v = [draw(ints(-1000, 1000)) / 10 for _ in range(n)]
    if missing and draw(ints(0, 2)) == 0:
        for i in range(n):
            if draw(ints(0, 4)) == 0:
                v[i] = None
    return v


@st.composite
def pair(draw):
    x = draw(values(4, 40, False))
    mode = draw(st.sampled_from(['free', 'free', 'linear', 'noisy']))
    if mode == 'free':
        y = [draw(ints(-60, 60)) / draw(st.sampled_from([1, 1, 4])) for _ in x]
    elif mode == 'linear':
        a, b = draw(st.sampled_from([-3, -1, 1, 2])), draw(ints(-9, 9))
        y = [a * v + b for v in x]
    else:
        a = draw(st.sampled_from([-2, 1, 3]))
        y = [a * v + draw(ints(-9, 9)) for v in x]
    hx = [i for i in range(len(x)) if draw(ints(0, 9)) == 0] if draw(st.booleans()) else []
    hy = [i for i in range(len(x)) if draw(ints(0, 9)) == 0] if draw(st.booleans()) else []
    return {'x': x, 'y': y, 'hx': hx, 'hy': hy, 'tail': draw(st.sampled_from(['two-sided', 'one-sided']))}


def ranks(v):
    s = sorted(v)
    return [sum(1 for w in s if w < a) + (sum(1 for w in s if w == a) + 1) / 2 for a in v]


def pearson(x, y):
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxx, syy = math.fsum((a - mx) ** 2 for a in x), math.fsum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return None
    return max(-1.0, min(1.0, math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / math.sqrt(sxx * syy)))


def kendall(x, y):
    p = tx = ty = 0
    n = len(x)
    for i in range(n):
        for j in range(i):
            p += (x[i] > x[j]) * (y[i] > y[j]) + (x[i] < x[j]) * (y[i] < y[j]) - (x[i] > x[j]) * (y[i] < y[j]) - (x[i] < x[j]) * (y[i] > y[j])
            tx += x[i] != x[j]
            ty += y[i] != y[j]
    return p / math.sqrt(tx * ty) if tx and ty else None


def median(v):
    s = sorted(v)
    m = len(s) // 2
    return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2


def bicor(x, y):
    def weights(v):
        m = median(v)
        mad = median([abs(a - m) for a in v])
        if mad == 0:
            return None
        u = [(a - m) / (9 * mad) for a in v]
        return [(a - m) * ((1 - b * b) ** 2 if abs(b) < 1 else 0) for a, b in zip(v, u)]
    a, b = weights(x), weights(y)
    if a is None or b is None:
        return None
    return math.fsum(p * q for p, q in zip(a, b)) / math.sqrt(math.fsum(p * p for p in a) * math.fsum(q * q for q in b))


def percbend(x, y, beta=0.2):
    def bend(v):
        m = median(v)
        omega = sorted(abs(a - m) for a in v)[int((1 - beta) * len(v)) - 1]
        if omega == 0:
            return None
        low, high = [a for a in v if (a - m) / omega < -1], [a for a in v if (a - m) / omega > 1]
        mid = [a for a in v if abs((a - m) / omega) <= 1]
        phi = (math.fsum(mid) + omega * (len(high) - len(low))) / len(mid)
        return [max(-1.0, min(1.0, (a - phi) / omega)) for a in v]
    a, b = bend(x), bend(y)
    if a is None or b is None:
        return None
    den = math.fsum(p * p for p in a) * math.fsum(q * q for q in b)
    return math.fsum(p * q for p, q in zip(a, b)) / math.sqrt(den) if den else None


def t_pvalue(r, n):
    if abs(r) >= 1:
        return 0.0
    t = abs(r) * math.sqrt((n - 2) / ((1 - r) * (1 + r)))
    return float(special.betainc((n - 2) / 2, 0.5, (n - 2) / (n - 2 + t * t)))


REF = {'pearson': pearson, 'spearman': lambda x, y: pearson(ranks(x), ranks(y)), 'kendall': kendall, 'bicor': bicor, 'percbend': percbend}


def holed(v, holes):
    a = np.array(v, dtype=float)
    a[list(holes)] = np.nan
    return a


@facet("correlation", pair(), quick=300, thorough=3000, rule="five or more complete pairs with both sides varying")
def correlation(c):
    keep = [i for i in range(len(c['x'])) if i not in c['hx'] and i not in c['hy']]
    x, y = [float(c['x'][i]) for i in keep], [float(c['y'][i]) for i in keep]
    n = len(keep)
    if n < 5 or pearson(x, y) is None:
        return False
    X, Y = holed(c['x'], c['hx']), holed(c['y'], c['hy'])
    for m, f in REF.items():
        want = f(x, y)
        if m in ('bicor', 'percbend') and want is None:
            if m == 'bicor':
                expect(is_missing(call(corr, X.copy(), Y.copy(), c['tail'], m)['r'].iloc[0]), "bicor of a series without spread")
            continue
        df = call(corr, X.copy(), Y.copy(), c['tail'], m)
        r = float(df['r'].iloc[0])
        expect(int(df['n'].iloc[0]) == n, f"{m}: n is {df['n'].iloc[0]}, {n} complete pairs")
        expect_near(r, want, f"{m} correlation of {x} and {y}", 1e-9, 1e-9)
        expect(abs(r) <= 1 + 1e-12, f"{m} correlation {r}")
        expect_near(float(df['r2'].iloc[0]), want ** 2, f"{m} r squared", 1e-8, 1e-9)
        expect_near(float(df['adj_r2'].iloc[0]), 1 - (1 - want ** 2) * (n - 1) / (n - 3), f"{m} adjusted r squared", 1e-7, 1e-8)
        p = float(df['p-val'].iloc[0]) * (2 if c['tail'] == 'one-sided' else 1)
        if m == 'kendall':
            wp = float(stats.kendalltau(np.array(x), np.array(y)).pvalue)
        else:
            wp = t_pvalue(want, n)
        if abs(want) < 1 - 1e-7:
            expect_near(p, wp, f"{m} probability", 1e-5, 1e-9)
            if abs(want) < 0.9999999:
                ci = df['CI95%'].iloc[0]
                z, h = math.atanh(want), 1.959963984540054 / math.sqrt(n - 3)
                for got, w in zip(ci, (math.tanh(z - h), math.tanh(z + h))):
                    expect(abs(float(got) - w) < 0.00501, f"{m} confidence limit {got}, expected {w}")
        # symmetry and positive rescaling
        s = float(call(corr, Y.copy(), X.copy(), c['tail'], m)['r'].iloc[0])
        expect_near(s, r, f"{m} is not symmetric", 1e-9, 1e-9)
        s = float(call(corr, 4 * X if m == 'percbend' else 3 * X + 7, Y / 4, c['tail'], m)['r'].iloc[0])
        expect_near(s, r, f"{m} changes under rescaling", 1e-7, 1e-7)
        s = float(call(corr, -X, Y, c['tail'], m)['r'].iloc[0])
        expect_near(s, -r, f"{m} under a sign change", 1e-7, 1e-7)
    return True


@st.composite
def cloud(draw):
    n = draw(ints(14, 40))
    x = [draw(ints(-500, 500)) / 10 for _ in range(n)]
    a = draw(st.sampled_from([0, 0, 1, -1, 0.3]))
    y = [a * v + draw(ints(-500, 500)) / 10 for v in x]
    if draw(st.booleans()):
        i = draw(ints(0, n - 1))
        x[i] += 2000
        y[i] -= 3000
    return {'x': x, 'y': y, 'hx': [i for i in range(n) if draw(ints(0, 19)) == 0], 'hy': [i for i in range(n) if draw(ints(0, 19)) == 0]}


@facet("shepherd", st.fixed_dictionaries({'p': cloud(), 'seed': ints(0, 9999)}), quick=40, thorough=300, rule="twelve or more complete pairs")
def shepherd(c):
    """The robust rank correlation after outlier removal: same draws, same answer under exchange and rescaling."""
    p = c['p']
    keep = [i for i in range(len(p['x'])) if i not in p['hx'] and i not in p['hy']]
    x, y = [float(p['x'][i]) for i in keep], [float(p['y'][i]) for i in keep]
    if len(keep) < 12 or len(set(x)) < 8 or len(set(y)) < 8 or abs(pearson(x, y)) > 0.98:
        return False
    X, Y = holed(p['x'], p['hx']), holed(p['y'], p['hy'])

    def run(a, b):
        np.random.seed(c['seed'])
        return float(call(corr, a, b, 'two-sided', 'shepherd')['r'].iloc[0])
    r = run(X, Y)
    if is_missing(r):
        return False
    expect(abs(r) <= 1 + 1e-12, f"shepherd correlation {r}")
    expect_near(run(Y, X), r, "shepherd is not symmetric", 1e-9, 1e-9)
    expect_near(run(4 * X, Y / 8), r, "shepherd under rescaling", 1e-9, 1e-9)
    # removing one far outlier leaves the rank correlation of the rest
    far = [i for i in range(len(x)) if abs(x[i]) > 1000]
    if far:
        z = np.column_stack((x, y))
        rest = [i for i in range(len(x)) if i not in far]
        zr = z[rest]
        d = zr - zr.mean(0)
        m = np.einsum('ij,jk,ik->i', d, np.linalg.inv(np.cov(zr.T)), d)
        if m.max() < 3:                                  # nobody else is near the cut-off
            expect_near(r, pearson(ranks([x[i] for i in rest]), ranks([y[i] for i in rest])), "rank correlation without the outlier", 1e-9, 1e-9)
    expect_near(run(X, Y), r, "shepherd does not repeat", 1e-12, 1e-12)
    expect_near(run(np.array(x), np.array(y)), r, "shepherd with missing pairs removed beforehand", 1e-9, 1e-9)
    return True


@facet("autocorrelation", st.fixed_dictionaries({'v': values(1, 60), 'lag': st.one_of(st.none(), ints(0, 70)), 'nan': st.booleans(),
                                                 'type': st.sampled_from(['correlation', 'covariance'])}),
       quick=500, thorough=5000, rule="three or more distinct valid values and two or more lags")
def autocorrelation(c):
    v = c['v']
    n = len(v)
    x = [math.nan if a is None and c['nan'] else a for a in v]
    valid = [a for a in v if a is not None]
    ints_only = all(isinstance(a, int) for a in v)
    got = call(acf, np.array(v) if ints_only and c['nan'] else list(x), c['type'], c['lag'])
    if not valid:
        expect(got is None or all(is_missing(g) for g in got), f"autocorrelation of nothing: {got}")
        return False
    lag = math.floor(10 * math.log10(n)) if c['lag'] is None else c['lag']
    lag = min(lag, n - 1)
    m = math.fsum(valid) / len(valid)

    def cov(k):
        pairs = [(v[i + k] - m) * (v[i] - m) for i in range(n - k) if v[i] is not None and v[i + k] is not None]
        return math.fsum(pairs) / (len(pairs) + k)
    c0 = cov(0)
    if len(set(valid)) == 1 and c['type'] == 'correlation':
        expect(got is None or all(is_missing(g) for g in got), f"autocorrelation of a constant series: {got}")
        return False
    expect(len(got) == lag + 1, f"{len(got)} values for lags 0..{lag}")
    for k, g in enumerate(got):
        expect_near(g, cov(k) / (c0 if c['type'] == 'correlation' else 1), f"{c['type']} at lag {k} of {v}", 1e-8, 1e-8)
    return len(set(valid)) > 2 and lag > 1


RUNS = st.fixed_dictionaries({'v': values(1, 60), 'nan': st.booleans(), 'alt': st.sampled_from(['two.sided', 'left.sided', 'right.sided']),
                              'thr': st.sampled_from(['median', 'mean'])})


def runs_data(c):
    """The series as passed, or as an integer array when it can be one."""
    if c['nan'] and all(isinstance(a, int) for a in c['v']):
        return np.array(c['v'])
    return [math.nan if a is None and c['nan'] else a for a in c['v']]


def runs_expected(c):
    """Sides, counts and test values; None where the test is undefined, False where membership depends on rounding."""
    valid = [a for a in c['v'] if a is not None]
    if not valid:
        return None
    mean = math.fsum(valid) / len(valid)
    t = median(valid) if c['thr'] == 'median' else mean
    if c['thr'] == 'mean' and any(abs(a - t) < 1e-9 for a in valid):
        return False
    side = [a > t for a in valid if a != t]
    up, down = side.count(True), side.count(False)
    n = up + down
    var = 2 * up * down * (2 * up * down - n) / (n * n * (n - 1)) if n > 1 else 0
    if var <= 0:
        return None
    r = 1 + sum(1 for i in range(1, n) if side[i] != side[i - 1])
    mu = 1 + 2 * up * down / n
    z = (r - mu) / math.sqrt(var)
    left = 0.5 * math.erfc(-z / math.sqrt(2))
    p = {'left.sided': left, 'right.sided': 1 - left, 'two.sided': 2 * min(left, 1 - left)}[c['alt']]
    return up, down, r, mu, var, z, p


def compare_runs(c, data):
    want = runs_expected(c)
    got = call(runs_test, data, c['alt'], c['thr'])
    up, down, r, mu, var, z, p = want
    expect(got['runs'] == r, f"{got['runs']} runs, expected {r}")
    expect_near(got['mean_value'], mu, "expected number of runs", 1e-9, 1e-9)
    expect_near(got['variance'], var, "variance of the number of runs", 1e-9, 1e-9)
    expect_near(got['statistic'], z, "runs statistic", 1e-9, 1e-9)
    expect_near(got['p_value'], p, "runs probability", 1e-8, 1e-9)
    return up > 2 and down > 2


@facet("runs", RUNS, quick=800, thorough=8000, rule="at least three values on each side of the threshold")
def runs(c):
    if not runs_expected(c):
        return False                                    # undefined, see below
    data = runs_data(c)
    if isinstance(data, np.ndarray) and c['thr'] == 'mean':
        data = data.astype(float)                       # integer means, see below
    return compare_runs(c, data)


@facet("runs_undefined", RUNS, quick=300, thorough=1500, rule="a series without values on both sides of the threshold")
def runs_undefined(c):
    if runs_expected(c) is not None:
        return False
    try:
        got = runs_test(runs_data(c), c['alt'], c['thr'])
    except Exception as e:  # pylint: disable=broad-except
        fail(f"undefined runs test: {type(e).__name__} instead of a missing result")
    expect(is_missing(got['p_value']) and is_missing(got['statistic']), f"undefined runs test gives {got}")
    return True


@facet("runs_integer_mean", st.fixed_dictionaries({'v': st.lists(ints(-6, 9), min_size=4, max_size=30), 'alt': st.sampled_from(['two.sided', 'left.sided'])}),
       quick=200, thorough=1000, rule="at least three values on each side of the mean")
def runs_integer_mean(c):
    c = dict(c, thr='mean', nan=False)
    if not runs_expected(c):
        return False
    try:
        return compare_runs(c, np.array(c['v']))
    except Violation as e:
        fail(f"integer array about its mean: {e}")
