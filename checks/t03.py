"""Standard errors of mean, median and sum with autocorrelation inflation."""
import math

import numpy as np

from vh import call, expect, expect_near, facet, ints, is_missing, near, st
from metcalcpy.util import utils as u


@st.composite
def series(draw):
    kind = draw(st.sampled_from(['free', 'free', 'walk', 'walk', 'ramp', 'const', 'spike', 'short', 'ar']))
    n = draw(ints(1, 4)) if kind == 'short' else draw(st.one_of(ints(3, 12), ints(3, 60)))
    scale = draw(st.sampled_from([0.001, 0.1, 1, 1, 1, 10, 1000]))
    if kind == 'const':
        v = [draw(ints(-50, 50))] * n
    elif kind == 'spike':
        v = [draw(ints(-50, 50))] * n
        v[draw(ints(0, n - 1))] += draw(ints(1, 30))
    elif kind == 'ramp':
        a, b = draw(ints(-50, 50)), draw(ints(1, 9))
        v = [a + b * i for i in range(n)]
    elif kind == 'walk':
        v, x = [], draw(ints(-50, 50))
        for _ in range(n):
            x += draw(ints(-4, 4))
            v.append(x)
    elif kind == 'ar':
        phi, x, v = draw(ints(-9, 9)) / 10, 0.0, []
        for _ in range(n):
            x = phi * x + draw(ints(-100, 100))
            v.append(round(x))
    else:
        v = [draw(ints(-200, 200)) for _ in range(n)]
    v = [round(x * scale, 6) for x in v]
    holes = draw(st.sampled_from(['none', 'none', 'none', 'None', 'nan', 'mixed']))
    if holes != 'none':
        for i in range(len(v)):
            if draw(ints(0, 3)) == 0:
                v[i] = None if holes == 'None' or (holes == 'mixed' and draw(st.booleans())) else math.nan
    return {'v': v, 'form': draw(st.sampled_from(['list', 'list', 'array']))}


def clean(v):
    return [x for x in v if x is not None and not math.isnan(x)]


def material(c, v=None):
    v = c['v'] if v is None else v
    if c['form'] == 'array' and None not in v:
        return np.array(v, dtype=float)
    return list(v)


def slope(v):
    """Least-squares lag-one regression coefficient; (None, _) when undefined. Second: conditioning."""
    x, y = np.array(v[:-1]), np.array(v[1:])
    if len(v) < 3 or len(set(v[:-1])) == 1:
        return None, 0
    dx, dy = x - x.mean(), y - y.mean()
    sxx = float((dx * dx).sum())
    scale = float((np.abs(np.array(v) - np.mean(v)).max()) ** 2) or 1.0
    return (None, 0) if sxx <= 1e-9 * scale else (float((dx * dy).sum()) / sxx, sxx / scale)


def vif(r):
    if r is None or r < 0.3 or r >= 0.99:
        return 1.0
    return math.sqrt((1 + r) / (1 - r))


def iqr(v):
    s = sorted(v)

    def q(p):
        h = (len(s) - 1) * p
        k = int(math.floor(h))
        return s[k] + (h - k) * (s[min(k + 1, len(s) - 1)] - s[k])
    return q(0.75) - q(0.25)


def want_mean(v, r):
    if len(v) < 3:
        return 0.0
    m = math.fsum(v) / len(v)
    var = math.fsum((x - m) ** 2 for x in v) / (len(v) - 1)
    return vif(r) * math.sqrt(var / len(v))


def edge(r):
    return r is not None and (abs(r - 0.3) < 1e-6 or abs(r - 0.99) < 1e-6)


FUNCS = {'mean': u.compute_std_err_from_mean, 'sum': u.compute_std_err_from_sum,
         'median': u.compute_std_err_from_median_no_variance_inflation_factor,
         'median_vif': u.compute_std_err_from_median_variance_inflation_factor}


@facet("formula", series(), quick=500, thorough=6000, rule="three or more distinct valid values")
def formula(c):
    v = clean(c['v'])
    if not v:
        return False
    r, cond = slope(v)
    if edge(r):
        return False
    got = {k: call(f, material(c)) for k, f in FUNCS.items()}
    n = len(v)
    scale = max(abs(x) for x in v) or 1
    want = {'mean': want_mean(v, r), 'sum': want_mean(v, r) * n}
    med = iqr(v) * math.sqrt(math.pi / 2) / (1.349 * math.sqrt(n)) if n > 2 else 0.0
    want['median'], want['median_vif'] = med, med * vif(r)
    for k in FUNCS:
        g = got[k][0]
        if is_missing(g) and n < 3:
            continue
        expect_near(g, want[k], f"standard error of the {k} of {c['v']}", 1e-6, 1e-9 * scale * n)
        expect(got[k][3] == n, f"number of values used for {k}: {got[k][3]} of {n} valid")
    return len(set(v)) > 2


@facet("autocorrelation", series(), quick=500, thorough=6000, rule="coefficient defined, four or more valid values")
def autocorrelation(c):
    v = clean(c['v'])
    got = call(u.autocor_coef, list(c['v']))
    r, cond = slope(v)
    if r is None:
        if len(v) < 2 or len(set(v)) == 1:
            expect(is_missing(got), f"autocorrelation {got} of {c['v']}")
        return False
    expect_near(got, r, f"lag-one coefficient of {c['v']}", 1e-6 / min(1, cond), 1e-8)
    return len(v) > 3


@facet("scaling", st.fixed_dictionaries({'s': series(), 'mul': st.sampled_from([2, 0.5, 10, 1000, -1, -3]), 'add': ints(-100, 100)}),
       quick=400, thorough=4000, rule="non-zero standard error")
def scaling(c):
    v = clean(c['s']['v'])
    if not v or edge(slope(v)[0]):
        return False
    hit = False
    mapped = [x if x is None else x * c['mul'] + c['add'] for x in c['s']['v']]
    sc = max(abs(x) for x in clean(mapped) + [1])
    for k, f in FUNCS.items():
        a, b = call(f, material(c['s']))[0], call(f, material(c['s'], mapped))[0]
        if is_missing(a) or is_missing(b):
            expect(is_missing(a) and is_missing(b), f"{k}: {a} became {b}")
            continue
        expect(near(b, abs(c['mul']) * a, 1e-5, 1e-8 * sc * len(v)), f"{k} error {a} became {b} under x*{c['mul']}+{c['add']} of {c['s']['v']}")
        hit = hit or a > 0
    return hit
