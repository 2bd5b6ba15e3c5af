"""Forecast difficulty against its formula evaluated point by point."""
import numpy as np

from vh import call, decimals, expect, expect_near, facet, fail, ints, is_missing, lists, pick, raises, st
import metcalcpy.calc_difficulty_index as di
from metcalcpy.piecewise_linear import PiecewiseLinear


@st.composite
def envelope(draw):
    xs = sorted(draw(st.lists(ints(0, 300), min_size=2, max_size=6, unique=True)))
    return {'x': [x / 10 for x in xs], 'y': [draw(decimals(0, 2, 2)) for _ in xs], 'left': draw(decimals(0, 1, 1)), 'right': draw(decimals(0, 1, 1))}


def at(e, x):
    if x < e['x'][0]:
        return e['left']
    if x > e['x'][-1]:
        return e['right']
    for (a, b), (p, q) in zip(zip(e['x'], e['x'][1:]), zip(e['y'], e['y'][1:])):
        if a <= x <= b:
            return p + (q - p) * (x - a) / (b - a)


@facet("envelope", st.fixed_dictionaries({'e': envelope(), 'at': lists(st.one_of(decimals(-5, 40, 1), ints(0, 35).map(float)), 1, 12), 'cols': ints(1, 3)}), quick=300,
       thorough=3000, rule="points inside, and below or above the nodes")
def evaluate(c):
    e = c['e']
    f = call(lambda: PiecewiseLinear(e['x'], e['y'], left=e['left'], right=e['right']))
    pts = (c['at'] * c['cols'])[:len(c['at']) // c['cols'] * c['cols']] or c['at']
    arr = np.array(pts).reshape(-1, c['cols']) if len(pts) % c['cols'] == 0 else np.array(pts)
    got = call(f.values, arr)
    expect(got.shape == arr.shape, f"shape {got.shape}")
    for x, g in zip(arr.ravel(), got.ravel()):
        expect_near(g, at(e, x), f"envelope at {x}", 1e-12, 1e-12)
    one = call(f.values, c['at'][0])
    expect_near(float(one), at(e, c['at'][0]), f"envelope at the single point {c['at'][0]}", 1e-12, 1e-12)
    expect_near(call(f.get_ymax), max(e['y']), "largest node", 0, 0)
    g = PiecewiseLinear(e['x'], e['y'])
    for x in (e['x'][0] - 1, e['x'][-1] + 1):
        expect(is_missing(float(call(g.values, x))), f"a value at {x} outside the nodes")
    inside = [x for x in c['at'] if e['x'][0] <= x <= e['x'][-1]]
    return bool(inside) and len(inside) < len(c['at'])


@facet("nodes", st.fixed_dictionaries({'x': lists(ints(-5, 9).map(float), 0, 5), 'extra': ints(-2, 2), 'array': st.booleans()}), quick=200, thorough=1000,
       rule="more than one node")
def nodes(c):
    """Too few, unsorted or unequally many nodes are rejected, others accepted."""
    n = max(0, len(c['x']) + c['extra'])
    y = [1.0] * n
    x = np.array(c['x']) if c['array'] else c['x']
    bad = len(c['x']) < 2 or n != len(c['x']) or any(a > b for a, b in zip(c['x'], c['x'][1:]))
    try:
        PiecewiseLinear(x, y)
        ok = True
    except Exception as ex:
        ok = False
        expect(type(ex).__name__ in ('IncompatibleLengths', 'UnsortedArray'), f"{type(ex).__name__} for nodes {c['x']} with {n} values")
    expect(ok != bad, f"nodes {c['x']} with {n} values {'accepted' if ok else 'rejected'}")
    return len(c['x']) > 1


@st.composite
def fields(draw):
    ny, nx, n = draw(ints(1, 3)), draw(ints(1, 4)), draw(ints(1, 8))
    pts = ny * nx
    mu = [draw(decimals(0.5, 30, 2)) for _ in range(pts)]
    sigma = [draw(decimals(0.1, 9, 2)) for _ in range(pts)]
    for i in range(pts):
        if pts > 1 and draw(ints(0, 11)) == 0:
            mu[i] = None
    gone = draw(ints(0, pts - 1)) if pts > 1 and draw(ints(0, 7)) == 0 else None
    thr = draw(pick(3, 9, 10.5, 12, 20.0))
    near = st.one_of(decimals(0, 30, 1), pick(float(thr)))
    return {'ny': ny, 'nx': nx, 'mu': mu, 'sigma': sigma, 'members': [[draw(near) for _ in range(n)] for _ in range(pts)], 'thr': thr,
            'env': draw(st.one_of(st.none(), envelope())), 'ref': draw(pick(None, 0.01, 0.5, 3.0, 40.0)), 'scalar': draw(ints(0, 5)) == 0, 'gone': gone}


DEFAULT = {'x': [3.0, 9.0, 12.0, 21.0], 'y': [0.0, 1.5, 1.5, 0.0], 'left': 0.0, 'right': 0.0}


@facet("index", fields(), quick=400, thorough=4000, rule="more than one point")
def index(c):
    shape = (c['ny'], c['nx'])
    mu = np.array([np.nan if m is None else m for m in c['mu']]).reshape(shape)
    if np.isnan(mu).all():
        return False
    sigma = np.array(c['sigma']).reshape(shape)
    if c['gone'] is not None:
        sigma.ravel()[c['gone']] = np.nan
        if np.isnan(sigma / mu).all():
            return False
    arg = mu
    if c['scalar'] and c['mu'][0] is not None:
        arg = c['mu'][0]
        mu = np.full(shape, arg)
    field = np.array(c['members']).reshape(shape + (-1,))
    e = c['env'] or DEFAULT
    env = None if c['env'] is None else PiecewiseLinear(e['x'], e['y'], left=e['left'], right=e['right'])
    copies = sigma.copy(), mu.copy(), field.copy()
    args = (sigma, arg, c['thr'], field, env) + (() if c['ref'] is None else (c['ref'],))
    got = call(di.forecast_difficulty, *args)
    expect(got.shape == shape, f"shape {got.shape}")
    expect(np.array_equal(sigma, copies[0], equal_nan=True) and (field == copies[2]).all(), "the fields were changed")
    ratios = [s / m for s, m in zip(sigma.ravel(), mu.ravel()) if not np.isnan(s / m)]
    ref = max([c['ref'] or 0] + ratios)
    for k, (s, m) in enumerate(zip(sigma.ravel(), mu.ravel())):
        g = got.ravel()[k]
        if np.isnan(s / m):
            expect(is_missing(g), f"a difficulty {g} without a mean or spread")
            continue
        under = sum(x < c['thr'] for x in c['members'][k]) / len(c['members'][k])
        want = 0.5 * at(e, m) * (s / m / ref + 1 - abs(0.5 - under))
        expect_near(g, want, f"difficulty at mean {m}, spread {s}, {under} under {c['thr']}", 1e-6, 1e-9)
    return len(c['mu']) > 1


@facet("rejected", st.fixed_dictionaries({'f': fields(), 'what': pick('zero', 'negative', 'tiny', 'mean shape', 'members', 'flat', 'threshold', 'reference'), 'at': ints(0, 11)}),
       quick=200, thorough=1500, rule="always")
def rejected(c):
    """Spread that is not positive, shapes that differ, a threshold that is no number and a reference that is not positive."""
    f, shape = c['f'], (c['f']['ny'], c['f']['nx'])
    sigma, mu = np.array(f['sigma']).reshape(shape), np.array([m or 1.0 for m in f['mu']]).reshape(shape)
    field = np.array(f['members']).reshape(shape + (-1,))
    call(di.forecast_difficulty, sigma, mu, f['thr'], field, None)
    thr, ref = f['thr'], 0.5
    if c['what'] in ('zero', 'negative', 'tiny'):
        sigma.ravel()[c['at'] % sigma.size] = {'zero': 0, 'negative': -1, 'tiny': 1e-9}[c['what']]
    elif c['what'] == 'mean shape':
        mu = np.vstack([mu, mu])
    elif c['what'] == 'members':
        field = np.concatenate([field, field], axis=1)
    elif c['what'] == 'flat':
        sigma = sigma.ravel()
    elif c['what'] == 'threshold':
        thr = '10'
    else:
        ref = (0, -1.0)[c['at'] % 2]
    try:
        di.forecast_difficulty(sigma, mu, thr, field, None, ref)
    except (AssertionError, ValueError, TypeError):
        return True
    fail(f"invalid input accepted: {c['what']}")
