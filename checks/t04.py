"""Intervals, power and Bayes factors that go with a correlation, against direct evaluation of their definitions."""
import math

import numpy as np
from scipy import integrate, special

from vh import call, decimals, expect, expect_near, facet, fail, ints, is_missing, lists, pick, raises, st
import metcalcpy.util.correlation as co


def quantile_t(p, dof):
    return float(special.stdtrit(dof, p))


def power(r, n, alpha, tail):
    """Probability that a correlation r of n pairs is found significant, by the normal approximation of its transform."""
    r, dof = abs(r), n - 2
    t = quantile_t(1 - (alpha / 2 if tail == 'two-sided' else alpha), dof)
    # the one-sided critical value is a size, as is that of the tested correlation
    critical = math.atanh(math.sqrt(t * t / (t * t + dof)))
    z = math.atanh(r) + r / (2 * (n - 1))
    up = float(special.ndtr((z - critical) * math.sqrt(n - 3)))
    return up + float(special.ndtr((-z - critical) * math.sqrt(n - 3))) if tail == 'two-sided' else up


TAIL = pick('two-sided', 'two-sided', 'one-sided')


@facet("power", st.fixed_dictionaries({'r': ints(-99, 99), 'n': st.one_of(ints(2, 12), ints(5, 400)), 'alpha': pick(0.05, 0.05, 0.01, 0.1, 0.2, 0.001), 'tail': TAIL}), quick=300, thorough=3000,
       rule="more than four pairs and a correlation that is not zero")
def achieved(c):
    r = c['r'] / 100
    got = call(co.power_corr, r=r, n=c['n'], alpha=c['alpha'], tail=c['tail'])
    if c['n'] <= 4:
        expect(is_missing(got), f"power {got} of {c['n']} pairs")
        return False
    expect_near(got, power(r, c['n'], c['alpha'], c['tail']), f"power of correlation {r} with {c['n']} pairs at {c['alpha']}, {c['tail']}", 1e-7, 1e-9)
    expect(0 <= got <= 1 + 1e-12, f"power {got}")
    return r != 0


@facet("solved", st.fixed_dictionaries({'what': pick('n', 'r', 'alpha'), 'r': ints(2, 97), 'n': ints(5, 300), 'alpha': pick(0.05, 0.01, 0.1, 0.3), 'power': ints(2, 99), 'tail': TAIL, 'neg': st.booleans()}),
       quick=300, thorough=3000, rule="a solution exists")
def solved(c):
    """The number of pairs, correlation or level found from the others gives back the wanted power; missing where none does."""
    r, n, alpha, want, tail = c['r'] / 100, c['n'], c['alpha'], c['power'] / 100, c['tail']
    if c['what'] == 'n':
        got = call(co.power_corr, r=-r if c['neg'] else r, power=want, alpha=alpha, tail=tail)
        at, lo, hi = (lambda x: power(r, x, alpha, tail)), 4 + 1e-6, 1e8
    elif c['what'] == 'r':
        got = call(co.power_corr, n=n, power=want, alpha=alpha, tail=tail)
        at, lo, hi = (lambda x: power(x, n, alpha, tail)), 1e-6, 1 - 1e-9
    else:
        got = call(co.power_corr, r=-r if c['neg'] else r, n=n, power=want, alpha=None, tail=tail)
        at, lo, hi = (lambda x: power(r, n, x, tail)), 1e-8, 1 - 1e-8
    a, b = at(lo) - want, at(hi) - want
    about = f"{c['what']} for power {want} with {c}"
    if is_missing(got):
        expect(not (a < -1e-6 and b > 1e-6), f"nothing found: {about}")
        return False
    expect(lo - 1e-5 <= got <= hi * 11, f"{about}: {got}")
    got = float(got)
    step = 1e-10 if c['what'] != 'n' else 1e-9 * got
    slack = abs(at(min(got + step, 1 - 1e-12) if c['what'] != 'n' else got + step) - at(max(got - step, 1e-12)))
    expect_near(at(got), want, f"power at the {about}: {got}", 1e-5, 1e-7 + slack)
    return True


@facet("arguments", st.fixed_dictionaries({'given': lists(st.booleans(), 4, 4), 'r': pick(0.5, -0.5, 1.5, -1.5), 'alpha': pick(0.05, 0.0, 1.5, -0.1), 'power': pick(0.8, 0.0, 1.2)}), quick=100, thorough=400,
       rule="exactly one of four is left open")
def arguments(c):
    """Exactly one of correlation, pairs, power and level may be open, and the others must be possible."""
    g = c['given']
    args = dict(r=c['r'] if g[0] else None, n=20 if g[1] else None, power=c['power'] if g[2] else None, alpha=c['alpha'] if g[3] else None)
    e = raises(co.power_corr, **args)
    bad = g.count(False) != 1 or (g[0] and abs(c['r']) > 1) or (g[2] and not 0 < c['power'] <= 1) or (g[3] and not 0 < c['alpha'] <= 1)
    expect((e is not None) == bad, f"{args} {'accepted' if e is None else 'rejected'}")
    return g.count(False) == 1


@facet("bayes", st.fixed_dictionaries({'r': ints(-98, 98), 'n': ints(3, 60), 'kappa': pick(1.0, 1.0, 0.5, 2.0, 1.5), 'method': pick('ly', 'ly', 'wetzels', 'LY')}), quick=150, thorough=1500,
       rule="a correlation that is not zero")
def bayes(c):
    r, n, k = c['r'] / 100, c['n'], c['kappa']
    got = call(co.bayesfactor_pearson, r, n, method=c['method'], kappa=k)
    if c['method'] == 'wetzels':
        # integrated over the logarithm of the auxiliary variable, which makes the integrand one smooth hump
        def f(u):
            g = math.exp(u)
            return math.exp((n - 2) / 2 * math.log1p(g) - (n - 1) / 2 * math.log1p((1 - r * r) * g) - 0.5 * u - n / (2 * g))
        top = math.log(n) + 45
        want = math.sqrt(n / 2 / math.pi) * sum(integrate.quad(f, a, a + 5, epsabs=0, epsrel=1e-10)[0] for a in np.arange(-3.0, top, 5.0))
    else:
        # likelihood of r relative to no correlation, averaged over a stretched beta prior
        def f(p):
            return (1 - p * p) ** ((n - 1) / 2 + 1 / k - 1) * special.hyp2f1((n - 1) / 2, (n - 1) / 2, 0.5, (r * p) ** 2)
        peak = min(abs(r), 0.97)
        cuts = sorted({0.0, max(0.0, peak - 0.2), peak, min(1.0, peak + 0.02), min(1.0, peak + 0.2), 1.0})
        want = 2 * 2 ** (1 - 2 / k) / special.beta(1 / k, 1 / k) * sum(integrate.quad(f, a, b, limit=200, epsabs=0, epsrel=1e-9)[0] for a, b in zip(cuts, cuts[1:]))
    expect_near(got, want, f"Bayes factor of {r} from {n} pairs, {c['method']}, scale {k}", 1e-4 if c['method'] == 'wetzels' else 1e-6, 0)
    expect_near(call(co.bayesfactor_pearson, -r, n, method=c['method'], kappa=k), got, "Bayes factor of the opposite correlation", 1e-9, 0)
    for x, m in ((float('nan'), n), (r, 1)):
        expect(is_missing(call(co.bayesfactor_pearson, x, m)), f"a Bayes factor for {x} from {m} pairs")
    return r != 0


@facet("interval", st.fixed_dictionaries({'stat': ints(-99, 99), 'large': ints(-400, 400), 'nx': ints(4, 80), 'ny': ints(1, 80), 'paired': st.booleans(), 'kind': pick('r', 'pearson', 'spearman', 'cohen', 'd', 'g', 'hedges', 'Cohen'),
                                          'confidence': pick(0.95, 0.95, 0.9, 0.99, 0.5), 'decimals': pick(None, 2, 4, 6)}), quick=300, thorough=3000, rule="always")
def interval(c):
    """Symmetric in the transformed correlation, or around the difference of means in units of spread."""
    given = {} if c['decimals'] is None else {'decimals': c['decimals']}
    tail = (1 - c['confidence']) / 2
    if c['kind'] in ('r', 'pearson', 'spearman'):
        s = c['stat'] / 100
        h = abs(float(special.ndtri(tail))) / math.sqrt(c['nx'] - 3)
        want = math.tanh(math.atanh(s) - h), math.tanh(math.atanh(s) + h)
    else:
        s, n, m = c['large'] / 100, c['nx'], c['ny']
        if m == 1 or c['paired']:
            se, dof = math.sqrt((1 + s * s / 2) / n), n - 1
        else:
            se, dof = math.sqrt(1 / n + 1 / m + s * s / (2 * (n + m))), n + m - 2
        h = abs(quantile_t(tail, dof)) * se
        want = s - h, s + h
    got = call(co.compute_esci, stat=s, nx=c['nx'], ny=c['ny'], paired=c['paired'], eftype=c['kind'], confidence=c['confidence'], **given)
    expect(len(got) == 2, f"limits {got}")
    half = 0.5 * 10.0 ** -(c['decimals'] or 2)
    for g, w in zip(got, want):
        expect(abs(g - w) <= half * (1 + 1e-6) + 1e-8, f"limit {g} instead of {w} for {c}")
        expect_near(g, round(float(g), c['decimals'] or 2), "decimals of a limit", 0, 1e-12)
    return True


@st.composite
def holes(draw):
    two = draw(st.booleans())
    rows, cols, cols2 = draw(ints(2, 6)), draw(ints(2, 4)), draw(ints(2, 4))
    v = st.one_of(ints(-9, 9), ints(-9, 9), ints(-9, 9), st.none())
    axis = draw(pick('rows', 'columns'))

    def table(r, k):
        return [[draw(v) for _ in range(k)] for _ in range(r)] if two else [draw(v) for _ in range(r)]
    paired = draw(st.booleans())
    other = draw(pick('none', 'single', 'same', 'same', 'longer'))
    x = table(rows, cols)
    y = None if other == 'none' else 3 if other == 'single' else table(rows, cols) if other == 'same' or paired else table(rows + 1, cols2)
    return {'x': x, 'y': y, 'two': two, 'paired': paired, 'axis': axis}


@facet("gaps", holes(), quick=300, thorough=2000, rule="something missing and something kept")
def gaps(c):
    """Rows or columns with a missing value are left out, in both tables together when they are paired."""
    def table(t):
        return np.array([[np.nan if a is None else a for a in r] for r in t] if c['two'] else [np.nan if a is None else a for a in t], dtype=float)

    def full(t):
        if not c['two']:
            return [a is not None for a in t]
        lines = t if c['axis'] == 'rows' else list(zip(*t))
        return [None not in r for r in lines]

    def kept(t, mask):
        a = table(t)
        if c['two'] and c['axis'] == 'columns':
            return a[:, mask]
        return a[mask]
    x, y = table(c['x']), c['y']
    if y is None:
        got, want = [call(co.remove_na, x, axis=c['axis'])], [kept(c['x'], full(c['x']))]
    elif y == 3:
        got, want = call(co.remove_na, x, 3, paired=c['paired'], axis=c['axis']), [kept(c['x'], full(c['x'])), np.array(3)]
    else:
        got = call(co.remove_na, x, table(y), paired=c['paired'], axis=c['axis'])
        a, b = full(c['x']), full(y)
        if c['paired']:
            a = b = [p and q for p, q in zip(a, b)]
        want = [kept(c['x'], a), kept(y, b)]
    for g, w in zip(got, want):
        expect(np.array_equal(np.asarray(g), w), f"{np.asarray(g).tolist()} instead of {w.tolist()}")
    return any(not all(full(t)) for t in (c['x'], y) if isinstance(t, list)) and want[0].size > 0


@facet("table", st.fixed_dictionaries({'x': lists(ints(-50, 50), 4, 30), 'noise': lists(ints(-40, 40), 30, 30), 'slope': pick(0, 1, -1, 3), 'tail': TAIL}), quick=200, thorough=1500,
       rule="five or more pairs that vary")
def accompanying(c):
    """The power and Bayes factor listed with a correlation are those of that correlation and number of pairs."""
    x = np.array(c['x'], float)
    y = c['slope'] * x + np.array(c['noise'][:len(x)], float)
    if x.std() == 0 or y.std() == 0 or abs(np.corrcoef(x, y)[0, 1]) > 0.999:
        return False
    for m in ('pearson', 'spearman', 'kendall'):
        row = call(co.corr, x, y, c['tail'], m).iloc[0]
        r, n = float(row['r']), len(x)
        expect('BF10' not in row or m == 'pearson', f"a Bayes factor with {m}")
        if n <= 4:
            expect(is_missing(row['power']), f"power {row['power']} of {n} pairs")
        elif abs(r) < 0.9999:
            expect_near(float(row['power']), power(r, n, 0.05, c['tail']), f"power of {m} correlation {r} with {n} pairs", 1e-6, 1e-8)
        if m == 'pearson' and c['tail'] == 'two-sided':
            bf = call(co.bayesfactor_pearson, r, n)
            expect_near(float(row['BF10']), bf, "listed Bayes factor", 1e-3, 6e-4 if 1e-4 < bf < 1e4 else 0)
    return len(x) >= 5
