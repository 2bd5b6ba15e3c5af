"""Space-time spectra, wave filters and dispersion curves against direct Fourier sums and the shallow-water relation."""
import math
import os

import netCDF4
import numpy as np
import xarray as xr

from vh import Violation, call, decimals, expect, expect_near, facet, fail, ints, is_missing, lists, pick, quiet, scratch, st
import metcalcpy.contributed.spacetime.matsuno_plot as mp
import metcalcpy.contributed.spacetime.spacetime as sp
import metcalcpy.contributed.spacetime.spacetime_utils as su
import metcalcpy.contributed.tropical_diagnostics.utils as tu

RADIUS, GRAVITY, OMEGA = 6371008.0, 9.80665, 7.292e-05


def amplitudes(a, freqs, waves):
    """Direct Fourier amplitudes of a time by longitude array, eastward waves positive."""
    nt, nl = a.shape
    t = np.exp(-2j * np.pi * np.outer(freqs, np.arange(nt)) / nt)
    x = np.exp(2j * np.pi * np.outer(np.arange(nl), waves) / nl)
    return t @ a @ x / (nt * nl)


def labels(n):
    return np.arange(-(n // 2), n // 2 + 1)


def cross(a, b, freqs, waves):
    one = [amplitudes(a[:, m, :], freqs, waves) for m in range(a.shape[1])]
    two = [amplitudes(b[:, m, :], freqs, waves) for m in range(a.shape[1])]
    pair = np.mean([np.conj(p) * q for p, q in zip(one, two)], axis=0)
    return np.array([np.mean([abs(p) ** 2 for p in one], axis=0), np.mean([abs(q) ** 2 for q in two], axis=0), pair.real, pair.imag])


def close(got, want, about, scale, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    expect(got.shape == want.shape, f"{about}: shape {got.shape} instead of {want.shape}")
    bad = ~(abs(got - want) <= tol * (scale + 1e-12)) & ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        fail(f"{about} at {i}: {got[i]} instead of {want[i]}")


@st.composite
def pair(draw):
    return {'nt': draw(ints(2, 14)), 'nm': draw(ints(1, 4)), 'nl': draw(ints(1, 9)), 'seed': draw(ints(0, 10 ** 6)), 'same': draw(ints(0, 4)) == 0}


def fields(c):
    r = np.random.default_rng(c['seed'])
    shape = (c['nt'], c['nm'], c['nl'])
    a = np.round(r.normal(0, 3, shape), 2) + np.round(r.normal(0, 5), 1)
    b = a.copy() if c['same'] else np.round(r.normal(0, 3, shape) + 0.5 * np.roll(a, 1, 0), 2)
    return a, b


@facet("segment", pair(), quick=400, thorough=3000, rule="several times, latitudes and longitudes")
def segment(c):
    a, b = fields(c)
    scale = max(abs(a).max(), abs(b).max()) ** 2
    waves = labels(c['nl'])
    got = call(sp.mjo_cross_segment, a.copy(), b.copy())
    want = cross(a, b, labels(c['nt']), waves)
    want[3] *= -1
    close(got[:4], want, "two-sided segment spectra", scale)
    got = call(sp.mjo_cross_segment_realfft, a.copy(), b.copy())
    close(got[:4], cross(a, b, np.arange(c['nt'] // 2 + 1), waves), "one-sided segment spectra", scale)
    return c['nt'] > 2 and c['nm'] > 1 and c['nl'] > 2


def check_coherence(got, want, about, same=False):
    px, py, cxy, qxy = want
    with np.errstate(all='ignore'):
        have = (px > 1e-12 * np.nanmax(px)) & (py > 1e-12 * np.nanmax(py))
        size = np.hypot(cxy, qxy)
        coh = size ** 2 / (px * py)
    n = 0
    for i in zip(*np.nonzero(have)):
        n += 1
        where = f"{about} at {tuple(map(int, i))}"
        expect(-1e-9 <= got[4][i] <= 1 + 1e-7, f"{where}: coherence {got[4][i]}")
        expect_near(got[4][i], coh[i], f"{where}: coherence", 1e-6, 1e-7)
        if same:
            expect_near(got[4][i], 1, f"{where}: coherence of a field with itself", 1e-7)
        if size[i] > 1e-6 * math.sqrt(px[i] * py[i]):
            expect_near(math.cos(got[5][i]), cxy[i] / size[i], f"{where}: phase", 1e-6, 1e-6)
            expect_near(math.sin(got[5][i]), qxy[i] / size[i], f"{where}: phase", 1e-6, 1e-6)
            expect_near(got[6][i], -qxy[i] / size[i], f"{where}: first phase component", 1e-6, 1e-6)
            expect_near(got[7][i], cxy[i] / size[i], f"{where}: second phase component", 1e-6, 1e-6)
    return n


@facet("coherence", pair(), quick=300, thorough=2000, rule="several latitudes and both fields vary")
def coherence(c):
    a, b = fields(c)
    want = cross(a, b, np.arange(c['nt'] // 2 + 1), labels(c['nl']))
    stc = np.zeros((8,) + want.shape[1:])
    stc[:4] = want
    with quiet():
        got = call(sp.mjo_cross_coh2pha, stc.copy())
    n = check_coherence(got, want, "coherence", c['same'])
    return n > 3 and c['nm'] > 1


@st.composite
def hemispheres(draw):
    half = draw(st.lists(decimals(0.5, 90, 1), min_size=1, max_size=4, unique=True))
    return {'half': sorted(half), 'equator': draw(st.booleans()), 'down': draw(st.booleans()), 'nt': draw(ints(1, 3)), 'nl': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6)),
            'opt': draw(pick('asymm', 'anti-symm')), 'xarray': draw(st.booleans())}


@facet("symmetry", hemispheres(), quick=300, thorough=2000, rule="at least two latitude pairs")
def symmetry(c):
    lats = np.array([-x for x in reversed(c['half'])] + ([0.0] if c['equator'] else []) + c['half'])
    if c['down']:
        lats = lats[::-1]
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(0, 5, (c['nt'], len(lats), c['nl'])), 2)
    arg, lat = a.copy(), lats
    if c['xarray']:
        arg = xr.DataArray(arg, dims=('time', 'lat', 'lon'), coords={'lat': lats, 'time': np.arange(c['nt']), 'lon': np.arange(c['nl']) * 1.0})
        lat = arg['lat']
    even, odd = np.asarray(call(sp.get_symmasymm, arg, lat, 'symm')), np.asarray(call(sp.get_symmasymm, arg, lat, c['opt']))
    expect(np.array_equal(np.asarray(arg), a), "the field itself was changed")
    north, poleward = [y for y in lats if y >= 0], [y for y in lats if y > 0]
    expect(even.shape == (c['nt'], len(north), c['nl']) and odd.shape == (c['nt'], len(poleward), c['nl']), f"parts of shapes {even.shape} and {odd.shape} on latitudes {list(lats)}")
    at = {y: a[:, i, :] for i, y in enumerate(lats)}
    for i, y in enumerate(north):
        close(even[:, i, :], (at[y] + at[-y] if y else 2 * at[y]) / 2, f"symmetric part at latitude {y} of {list(lats)}", 100)
    for i, y in enumerate(poleward):
        close(odd[:, i, :], (at[y] - at[-y]) / 2, f"antisymmetric part at latitude {y} of {list(lats)}", 100)
    return len(c['half']) > 1


@facet("taper", st.tuples(ints(1, 60), decimals(0, 1, 2)).map(list), quick=300, thorough=2000, rule="more than one value is tapered at each end")
def taper(c):
    n, pct = c
    m = max(int((pct * n + 0.5) / 2), 1)
    if m > n // 2 and m > 1:
        return False
    got = call(sp.window_cosbell, n, pct)
    expect(len(got) == n, f"{len(got)} weights for {n} values")
    for i in range(n):
        want = 1.0
        for d in (i, n - 1 - i):
            if d < m:
                want *= math.sin(math.pi * (d + 0.5) / (2 * m)) ** 2
        expect_near(got[i], want, f"weight {i} of {n} tapered by {pct}", 1e-9, 1e-12)
    return m > 1


@st.composite
def runs(draw):
    out = []
    for i in range(draw(ints(1, 4))):
        if i or draw(ints(0, 3)) == 0:
            out += [None] * draw(ints(1, 2))
        out += draw(lists(decimals(-20, 20, 1), 2, 7))
    if draw(ints(0, 3)) == 0:
        out.append(None)
    return out


def smooth(vals):
    """1-2-1 weights, the end of each run of values carrying three quarters of its own value."""
    vals = list(vals)
    have = lambda i: 0 <= i < len(vals) and not is_missing(vals[i])
    return [float('nan') if not have(i) else (2 * vals[i] + (vals[i - 1] if have(i - 1) else vals[i]) + (vals[i + 1] if have(i + 1) else vals[i])) / 4 for i in range(len(vals))]


@facet("smoother", runs(), quick=400, thorough=3000, rule="missing values between values")
def smoother(c):
    a = np.array([float('nan') if v is None else v for v in c])
    keep = a.copy()
    got = call(sp.smooth121_1D, a)
    expect(np.array_equal(a, keep, equal_nan=True), "the series itself was changed")
    close(got, smooth(c), f"smoothed {c}", 20)
    expect_near(np.nansum(got), np.nansum(a), f"total of smoothed {c}", 1e-9, 1e-8)
    return None in c[1:-1]


@st.composite
def spectra(draw):
    nf = draw(ints(2, 6))
    return {'nf': nf, 'nw': draw(ints(1, 4)), 'below': draw(ints(0, 3)), 'seed': draw(ints(0, 10 ** 6))}


@facet("spectra", spectra(), quick=200, thorough=1000, rule="negative frequencies present")
def smooth_spectra(c):
    r = np.random.default_rng(c['seed'])
    stc = np.round(r.normal(0, 5, (8, c['below'] + 1 + c['nf'], c['nw'])), 2)
    freq = np.arange(-c['below'], c['nf'] + 1) / 10
    want = stc.copy()
    for v in range(4):
        for w in range(c['nw']):
            want[v, c['below'] + 1:, w] = smooth(stc[v, c['below'] + 1:, w])
    with quiet():
        got = call(sp.smooth121, stc.copy(), freq)
    close(got, want, "smoothed spectra", 20)
    return c['below'] > 0


@st.composite
def series(draw):
    seg = draw(ints(4, 14))
    over = draw(ints(-min(seg - 1, 6), 3))
    n = draw(ints(1, 4))
    return {'seg': seg, 'over': over, 'nt': seg + (n - 1) * (seg + over) + draw(pick(0, 0, 1, 2)), 'nm': draw(ints(1, 3)), 'nl': draw(ints(1, 8)), 'seed': draw(ints(0, 10 ** 6)),
            'same': draw(ints(0, 4)) == 0, 'trend': draw(pick(0, 0, 1, -2))}


def detrended(a):
    t = np.arange(a.shape[0]) - (a.shape[0] - 1) / 2
    slope = np.tensordot(t, a, (0, 0)) / (t @ t)
    return a - a.mean(0) - t[:, None, None] * slope


@facet("averaged", series(), quick=250, thorough=2000, rule="several segments and longitudes")
def averaged(c):
    a, b = fields(c)
    a = a + c['trend'] * np.arange(c['nt'])[:, None, None]
    if c['same']:
        b = a.copy()
    with quiet():
        res = call(sp.mjo_cross, a.copy(), b.copy(), c['seg'], c['over'])
    x, y, seg = detrended(a), detrended(b), c['seg']
    m = max(int((0.1 * seg + 0.5) / 2), 1)
    window = np.ones(seg)
    for i in range(m):
        w = math.sin(math.pi * (i + 0.5) / (2 * m)) ** 2
        window[i] *= w
        window[-1 - i] *= w
    freqs, waves, parts, start = np.arange(seg // 2 + 1), labels(c['nl']), [], 0
    while start + seg <= c['nt']:
        part = cross(x[start:start + seg] * window[:, None, None], y[start:start + seg] * window[:, None, None], freqs, waves)
        for v in range(4):
            for w in range(len(waves)):
                part[v, 0, w] = np.nan
                part[v, 1:, w] = smooth(part[v, 1:, w])
        parts.append(part)
        start += seg + c['over']
    want = np.mean(parts, axis=0)
    scale = max(abs(x).max(), abs(y).max()) ** 2
    expect(res['nseg'] == len(parts), f"{res['nseg']} segments of {seg} with step {seg + c['over']} in {c['nt']} times, not {len(parts)}")
    expect_near(res['dof'], 2.667 * len(parts), "degrees of freedom", 1e-9)
    close(res['freq'], freqs / seg, "frequencies", 1)
    close(res['wave'], waves, "wavenumbers", 1)
    close(res['STC'][:4], want, "averaged spectra", scale)
    check_coherence(res['STC'], want, "averaged coherence", c['same'])
    return len(parts) > 1 and c['nl'] > 2


@facet("mismatch", st.tuples(ints(0, 2), ints(5, 8)).map(list), quick=20, thorough=60, rule="fields of different sizes")
def mismatch(c):
    axis, n = c
    shape = [n, 3, 4]
    other = list(shape)
    other[axis] += 1
    with quiet():
        got = call(sp.mjo_cross, np.ones(shape), np.ones(other), 4, 0)
    expect(got is None, "spectra of fields of different sizes")
    return True


# ------------------------------------------------------------------ wave filter
NAMES = ['Kelvin', 'kelvin', 'KELVIN', 'ER', 'er', 'MRG', 'mrg', 'IG0', 'ig0', 'IG1', 'ig1', 'IG2', 'ig2', 'none']


@st.composite
def filters(draw):
    nk, half = draw(ints(4, 14)), draw(ints(3, 16))
    top = (nk - 1) // 2
    lo, hi = sorted([draw(ints(-top, top)), draw(ints(-top, top))])
    obs = draw(pick(1, 2, 4))
    t0 = draw(decimals(1.0, 12, 1))
    if draw(st.booleans()):
        h0, h1 = -9999, -9999
    else:
        h0 = draw(pick(8, 12, 25, 90, -9999))
        h1 = draw(pick(90, 50, 200, -9999)) if h0 == -9999 else draw(pick(h0, h0 * 2, h0 * 6, -9999))
    return {'nk': nk, 'nt': 2 * half, 'obs': obs, 'tmin': t0, 'tmax': t0 + draw(decimals(0.5, 60, 1)), 'kmin': lo, 'kmax': hi, 'hmin': h0, 'hmax': h1, 'name': draw(pick(*NAMES)),
            'seed': draw(ints(0, 10 ** 6))}


def curve(name, s, h):
    """Angular frequency of a wave of eastward wavenumber s at equivalent depth h."""
    c, k, b, name = math.sqrt(GRAVITY * h), s / RADIUS, 2 * OMEGA / RADIUS, name.lower()
    if name == 'kelvin':
        return c * k
    if name == 'er':
        return -b * k / (k * k + 3 * b / c)
    if name in ('mrg', 'ig0'):
        return (c * k + math.sqrt(c * c * k * k + 4 * b * c)) / 2
    return math.sqrt((3 if name == 'ig1' else 5) * b * c + c * c * k * k)


def kept(c, s, j):
    """True or False as the mode lies inside or outside the limits, None where rounding decides."""
    if 2 * abs(s) == c['nk']:
        return None
    day = c['nt'] / c['obs']
    sure = True
    for d in (j - day / c['tmax'] + 0.5, day / c['tmin'] + 0.5 - j):
        if abs(d) < 1e-9:
            sure = None
        elif d < 0:
            return False
    if not c['kmin'] <= s <= c['kmax']:
        return False
    if c['name'] == 'none':
        return sure
    cycles = 86400 * day / (2 * math.pi)
    if c['hmin'] != -9999:
        f = curve(c['name'], s, c['hmin']) * cycles
        if j < math.floor(f) - (abs(f - round(f)) < 1e-9):
            return False
        if abs(f - round(f)) < 1e-9 and j < round(f):
            sure = None
    if c['hmax'] != -9999:
        f = curve(c['name'], s, c['hmax']) * cycles
        if j > max(math.ceil(f), 0) + (abs(f - round(f)) < 1e-9):
            return False
        if abs(f - round(f)) < 1e-9 and j > round(f):
            sure = None
        if f <= 0 and j == 0:
            return None
    return sure


def args(c):
    return c['obs'], c['tmin'], c['tmax'], c['kmin'], c['kmax'], c['hmin'], c['hmax'], c['name']


def about(c):
    return f"filter for {c['name']} periods {c['tmin']}-{c['tmax']} d wavenumbers {c['kmin']}..{c['kmax']} depths {c['hmin']}-{c['hmax']} on {c['nt']} times {c['nk']} longitudes"


def compare(c, src, got, rows):
    n = [0, 0]
    for s in range(-(c['nk'] // 2), (c['nk'] - 1) // 2 + 1):
        for j in rows:
            want = kept(c, s, j)
            if want is None:
                continue
            a, b = got[j, s], src[j, s] if want else 0
            n[bool(want)] += 1
            if abs(a - b) > 1e-9:
                fail(f"{about(c)}: the mode of eastward wavenumber {s} and {j} cycles was {'lost' if want else 'kept'} ({a} from {src[j, s]})")
    return n


@facet("mask", filters(), quick=500, thorough=4000, rule="some modes kept and some removed")
def mask(c):
    r = np.random.default_rng(c['seed'])
    nk, nf = c['nk'], c['nt'] // 2 + 1
    a = r.uniform(1, 2, (nk, nf)) + 1j * r.uniform(1, 2, (nk, nf))
    keep = a.copy()
    with quiet():
        got = call(sp.kf_filter_mask, a, *args(c))
    expect(np.array_equal(a, keep), "the coefficients passed in were changed")
    expect(got.shape == a.shape, f"{about(c)}: shape {got.shape}")
    src, out = {}, {}
    for s in range(-(nk // 2), (nk - 1) // 2 + 1):
        for j in range(nf):
            src[j, s], out[j, s] = a[-s % nk, j], got[-s % nk, j]
    n = compare(c, src, out, range(nf))
    return n[0] > 0 and n[1] > 0


@facet("filter", filters(), quick=300, thorough=2500, rule="some modes kept and some removed")
def wave_filter(c):
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(0, 5, (c['nt'], c['nk'])), 2)
    with quiet():
        got = call(sp.kf_filter, a.copy(), *args(c))
        again = call(sp.kf_filter, 3 * a + got, *args(c))
    expect(got.shape == a.shape, f"{about(c)}: shape {got.shape} from {a.shape}")
    rows, cols = np.arange(c['nt'] // 2 + 1), np.arange(-(c['nk'] // 2), (c['nk'] - 1) // 2 + 1)
    x, y = amplitudes(a, rows, cols), amplitudes(got, rows, cols)
    # at zero and at half the sampling frequency east and west cannot be told apart
    inner = range(1, c['nt'] // 2)
    n = compare(c, {(j, s): x[j, i] for j in rows for i, s in enumerate(cols)}, {(j, s): y[j, i] for j in rows for i, s in enumerate(cols)}, inner)
    z = amplitudes(again, rows, cols)
    for j in inner:
        close(abs(z[j] - 4 * y[j]), np.zeros(len(cols)), f"{about(c)}: linear and idempotent at {j} cycles", 20)
    return n[0] > 0 and n[1] > 0


@facet("lengths", st.tuples(ints(3, 15), ints(3, 9), ints(0, 10 ** 6)).map(list), quick=60, thorough=400, rule="an odd number of times")
def lengths(c):
    nt, nk, seed = c
    a = np.round(np.random.default_rng(seed).normal(0, 5, (nt, nk)), 2)
    with quiet():
        got = call(sp.kf_filter, a.copy(), 1, 1e-3, 1e6, -(nk // 2), nk // 2, -9999, -9999, 'none')
    close(got, a, f"filter keeping everything on {nt} times and {nk} longitudes", 20)
    return nt % 2 == 1


# ------------------------------------------------------------------ dispersion curves
@st.composite
def depths(draw):
    return {'he': draw(st.one_of(pick(8, 12, 25, 50, 90), decimals(1, 200, 1))), 'n': draw(ints(1, 4)), 'lat': draw(st.one_of(st.just(0.0), decimals(-60, 60, 1))), 'max': draw(ints(2, 50)),
            'count': draw(ints(2, 60)), 'many': draw(ints(0, 2))}


def exact(kind, n, s, he, lat):
    c, b, k = math.sqrt(GRAVITY * he), 2 * OMEGA * math.cos(math.radians(lat)) / RADIUS, s / (RADIUS * math.cos(math.radians(lat)))
    if kind == 'Kelvin':
        return c * k if k > 0 else None
    if kind == 'MRG':
        return (c * k + math.sqrt(c * c * k * k + 4 * b * c)) / 2 if k < 0 else None
    if kind == 'EIG0':
        return (c * k + math.sqrt(c * c * k * k + 4 * b * c)) / 2 if k > 0 else None
    if (k <= 0) if kind == 'EIG' else (k >= 0):
        return None
    p = c * c * (k * k + b * (2 * n + 1) / c)
    # trigonometric roots of w^3 - p w - k b c^2 = 0
    q = k * b * c * c
    m = 2 * math.sqrt(p / 3)
    roots = sorted(m * math.cos((math.acos(max(-1, min(1, 3 * q / (p * m)))) - 2 * math.pi * i) / 3) for i in range(3))
    return roots[1] if kind == 'ER' else roots[2]


def check_curve(df, col, kind, n, c, he):
    wave = np.linspace(-c['max'], c['max'], c['count'])
    expect(len(df) == len(wave), f"{len(df)} points instead of {len(wave)}")
    close(df.index.values, wave, "wavenumbers", c['max'])
    hit = 0
    for s, f in zip(wave, df[col].values):
        if abs(s) < 1e-9:
            continue
        want = exact(kind, n, s, he, c['lat'])
        if want is None:
            expect(is_missing(f), f"{col} at wavenumber {s}: {f}")
        else:
            hit += 1
            expect_near(f, want * 86400 / (2 * math.pi), f"{col} at wavenumber {s}, latitude {c['lat']}", 1e-5)
    return hit


SINGLE = [('kelvin_mode', 'Kelvin'), ('mrg_mode', 'MRG'), ('eig_n_0', 'EIG0'), ('er_n', 'ER'), ('eig_n', 'EIG'), ('wig_n', 'WIG')]


@facet("dispersion", depths(), quick=80, thorough=500, rule="points on both sides")
def dispersion(c):
    with quiet():
        hit = 0
        for name, kind in SINGLE:
            lead = (c['he'],) if kind in ('Kelvin', 'MRG', 'EIG0') else (c['he'], c['n'])
            df = call(getattr(mp, name), *lead, latitude=c['lat'], max_wn=c['max'], n_wn=c['count'])
            expect(df.shape[1] == 1, f"{name} has columns {list(df.columns)}")
            hit += check_curve(df, df.columns[0], kind, c['n'], c, c['he'])
        ns = list(range(1, c['many'] + 2))
        tables = [(c['he'], call(mp.matsuno_dataframe, c['he'], n=ns, latitude=c['lat'], max_wn=c['max'], n_wn=c['count']))]
        hes = [c['he'], c['he'] + 10]
        modes = call(mp.matsuno_modes_wk, he=hes, n=ns, latitude=c['lat'], max_wn=c['max'], n_wn=c['count'])
        expect(set(modes) == set(hes), f"curves for depths {list(modes)}")
        for he, df in tables + list(modes.items()):
            names = [f'Kelvin(he={he}m)', f'MRG(he={he}m)', f'EIG(n=0,he={he}m)'] + [f'{k}(n={n},he={he}m)' for n in ns for k in ('ER', 'EIG', 'WIG')]
            expect(list(df.columns) == names, f"curves {list(df.columns)} for modes {ns}")
            for col in names:
                kind = col.split('(')[0]
                n = int(col.split('n=')[1].split(',')[0]) if 'n=' in col else 0
                check_curve(df, col, 'EIG0' if kind == 'EIG' and n == 0 else kind, n, c, he)
    return hit > 3


# ------------------------------------------------------------------ files and longitudes
@st.composite
def saved(draw):
    return {'nf': draw(ints(1, 6)), 'nw': draw(ints(1, 7)), 'seed': draw(ints(0, 10 ** 6)), 'slash': draw(st.booleans()), 'name': draw(pick('spectra', 'a.b', 'x_1')), 'which': draw(pick('spacetime', 'tropical'))}


@facet("saved", saved(), quick=60, thorough=300, rule="several frequencies and waves")
def save(c):
    r = np.random.default_rng(c['seed'])
    stc = r.normal(0, 5, (8, c['nf'], c['nw']))
    stc[:, 0, :] = np.nan
    freq, wave = np.round(np.linspace(0, 1, c['nf']), 4), np.arange(c['nw']) - c['nw'] // 2
    with scratch() as d, quiet():
        call((su if c['which'] == 'spacetime' else tu).save_Spectra, stc, freq, wave, c['name'], d + ('/' if c['slash'] else ''))
        path = os.path.join(d, c['name'] + '.nc')
        expect(os.path.exists(path), f"spectra were not saved in the folder given {'with' if c['slash'] else 'without'} a final separator")
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            close(nc['STC'][:], stc, "saved spectra", 1)
            close(nc['freq'][:], freq, "saved frequencies", 1)
            close(nc['wnum'][:], wave, "saved wavenumbers", 1)
            expect(list(nc['STC'].varnames) == ['PX', 'PY', 'CXY', 'QXY', 'COH2', 'PHA', 'V1', 'V2'], "names of the saved spectra")
    return c['nf'] > 1 and c['nw'] > 1


@st.composite
def longitudes(draw):
    step = draw(pick(30, 45, 60, 90, 22.5))
    n = int(360 / step)
    start = draw(pick(-180.0, 0.0, -180 + step / 2, step / 2))
    lons = [start + i * step for i in range(n)]
    if draw(st.booleans()):
        a = draw(ints(0, n - 2))
        lons = lons[a:draw(ints(a + 1, n))]
    return {'lons': lons, 'nt': draw(ints(1, 2)), 'nm': draw(ints(1, 2)), 'which': draw(pick('spacetime', 'tropical'))}


@facet("longitudes", longitudes(), quick=150, thorough=800, rule="longitudes on both sides")
def flip(c):
    lons = np.array(c['lons'], float)
    a = np.arange(c['nt'] * c['nm'] * len(lons), dtype=float).reshape(c['nt'], c['nm'], len(lons))
    da = xr.DataArray(a, dims=('time', 'lat', 'lon'), coords={'time': np.arange(c['nt']), 'lat': np.arange(c['nm']) * 2.0, 'lon': lons})
    got = call((su if c['which'] == 'spacetime' else tu).lonFlip, da, da['lon'])
    out = got['lon'].values
    lo = 0 if lons.min() < 0 else -180
    expect(len(out) == len(lons) and all(lo <= x < lo + 360 for x in out) and all(np.diff(out) > 0), f"longitudes {list(out)} from {list(lons)}")
    for i, x in enumerate(lons):
        j = [k for k, y in enumerate(out) if abs((x - y) % 360) < 1e-9]
        expect(len(j) == 1, f"longitude {x} appears {len(j)} times in {list(out)}")
        expect(np.array_equal(got.values[:, :, j[0]], a[:, :, i]), f"values of longitude {x} moved, {list(lons)} to {list(out)}")
    expect(np.array_equal(da['lon'].values, lons) and np.array_equal(da.values, a), "the field itself was changed")
    return (lons < 0).any() and (lons >= 0).any() or (lons >= 180).any() and (lons < 180).any()
