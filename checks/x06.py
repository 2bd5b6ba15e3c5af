"""MJO, equatorial-wave and ENSO indices against direct projections and Fourier sums."""
import importlib
import math
import os
import sys
import types

import numpy as np
import pandas as pd
import xarray as xr

from vh import call, decimals, expect, expect_near, facet, fail, ints, lists, pick, quiet, raises, scratch, st
import metcalcpy.contributed.mjo_enso.compute_mjo_enso as me
import metcalcpy.contributed.rmm_omi.compute_mjo_indices as mi

# the activity module also draws; stand-ins take the place of drawing packages that are not installed
for _name in ('plotly', 'plotly.graph_objects', 'kaleido', 'kaleido.scopes', 'kaleido.scopes.plotly'):
    try:
        importlib.import_module(_name)
    except ImportError:
        sys.modules[_name] = types.ModuleType(_name)
        sys.modules[_name].PlotlyScope = object
import metcalcpy.contributed.tropical_diagnostics.ccew_activity as ccew


def close(got, want, about, scale=1.0, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    expect(got.shape == want.shape, f"{about}: shape {got.shape} instead of {want.shape}")
    bad = ~(abs(got - want) <= tol * (scale + abs(want))) & ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        fail(f"{about} at {i}: {got[i]} instead of {want[i]}")


def solve(vec, e1, e2):
    """Least-squares coefficients from the normal equations."""
    a, b, d = e1 @ e1, e1 @ e2, e2 @ e2
    p, q = e1 @ vec, e2 @ vec
    det = a * d - b * b
    return (p * d - q * b) / det, (q * a - p * b) / det


def distinct(e1, e2):
    a, b, d = e1 @ e1, e1 @ e2, e2 @ e2
    return a * d - b * b > 1e-3 * a * d and a > 0 and d > 0


@st.composite
def vectors(draw):
    return {'n': draw(ints(2, 12)), 'seed': draw(ints(0, 10 ** 6)), 'a': draw(decimals(-9, 9, 1)), 'b': draw(decimals(-9, 9, 1)), 'noise': draw(st.booleans())}


@facet("projection", vectors(), quick=300, thorough=2000, rule="the field is not a combination of the patterns")
def projection(c):
    r = np.random.default_rng(c['seed'])
    e1, e2, rest = np.round(r.normal(0, 1, (3, c['n'])), 2)
    if not distinct(e1, e2):
        return False
    vec = c['a'] * e1 + c['b'] * e2
    if c['noise']:
        vec = vec + rest
    got = call(mi.regress_vector_onto_eofs, vec, e1, e2)
    close(got, solve(vec, e1, e2), "coefficients of a vector", 10, 1e-8)
    if not c['noise']:
        close(got, (c['a'], c['b']), "known coefficients", 10, 1e-8)
    return c['noise'] and c['n'] > 2


# ------------------------------------------------------------------ running mean and multivariate index
@st.composite
def strips(draw):
    step = draw(pick(24, 12, 72, 240, 720, 960))
    return {'step': step, 'nt': draw(ints(2, 14 if step > 200 else 60) if step != 24 else ints(100, 140)), 'nlon': draw(ints(2, 5)), 'seed': draw(ints(0, 10 ** 6)), 'start': draw(ints(0, 3000)),
            'norm': draw(lists(decimals(0.5, 20, 1), 3, 3)), 'pcs': draw(lists(decimals(0.5, 9, 1), 2, 2)), 'wrong': draw(pick(None, None, None, 'olr', 'u850', 'u200')),
            'how': draw(pick('shift', 'fewer', 'last'))}


def times(c):
    return (np.datetime64('2001-01-01', 'ns') + np.timedelta64(c['start'], 'D') + np.arange(c['nt']) * np.timedelta64(c['step'], 'h')).astype('datetime64[ns]')


def less_running_mean(a, days):
    n = int(120 / days)
    return np.array([a[i] - a[max(0, i - n):i + 1].mean(0) for i in range(len(a))])


@facet("running", strips(), quick=200, thorough=1000, rule="more times than the running mean takes")
def running(c):
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(3, 5, (c['nt'], c['nlon'])), 2)
    t = times(c)
    da = xr.DataArray(a.copy(), dims=('time', 'lon'), coords={'time': t, 'lon': np.arange(c['nlon']) * 2.5})
    got = call(mi.rem_120day_mean, da, t)
    close(got.values, less_running_mean(a, c['step'] / 24), f"anomalies of {c['nt']} times {c['step']} h apart", 10)
    expect(np.array_equal(da.values, a), "the field itself was changed")
    holes = a.copy()
    holes[r.integers(0, c['nt']), r.integers(0, c['nlon'])] = np.nan
    close(call(mi.zon_avg_variance, holes), np.nanmean([np.nanmean((col - np.nanmean(col)) ** 2) if not np.isnan(col).all() else np.nan for col in holes.T]), "zonal mean variance", 10)
    return c['nt'] > int(2880 / c['step']) + 1


@facet("rmm", strips(), quick=150, thorough=800, rule="grids match and more times than the running mean takes")
def rmm(c):
    r = np.random.default_rng(c['seed'])
    nl, t = c['nlon'], times(c)
    lons = np.arange(nl) * 2.5
    raw = [np.round(r.normal(3, 5, (c['nt'], nl)), 2) for _ in range(3)]
    args = [xr.DataArray(a.copy(), dims=('time', 'lon'), coords={'time': t, 'lon': lons}) for a in raw]
    eofs = [np.round(r.normal(0, 1, (3, nl)), 2) for _ in range(2)]
    e = [xr.DataArray(x, dims=('var', 'lon'), coords={'lon': lons}) for x in eofs]
    if c['wrong']:
        i = ['olr', 'u850', 'u200'].index(c['wrong'])
        if c['how'] == 'fewer':
            args[i] = args[i].isel(lon=slice(1, None))
        else:
            new = lons + 1.25 if c['how'] == 'shift' else np.append(lons[:-1], lons[-1] + 1)
            args[i] = args[i].assign_coords(lon=new)
        err = raises(mi.rmm, *args, t, 1, *e, c['norm'], c['pcs'])
        expect(isinstance(err, ValueError), f"longitudes {list(args[i].lon.values)} of {c['wrong']} were used with patterns on {list(lons)} ({err!r})")
        return False
    flat = [x.reshape(-1) for x in eofs]
    if not distinct(*flat):
        return False
    with quiet():
        got = call(mi.rmm, *args, t, 1, *e, c['norm'], c['pcs'])
    anom = np.hstack([less_running_mean(a, c['step'] / 24) / n for a, n in zip(raw, c['norm'])])
    want = np.array([solve(v, *flat) for v in anom])
    for k in range(2):
        close(got[k].values, want[:, k] / c['pcs'][k], f"multivariate index {k + 1}", 5, 1e-8)
        expect(np.array_equal(got[k].time.values, t), "times of the index")
    expect(all(np.array_equal(x.values, a) for x, a in zip(args, raw)), "the fields themselves were changed")
    return c['nt'] > int(2880 / c['step']) + 1


# ------------------------------------------------------------------ daily patterns and filters
@st.composite
def maps(draw):
    step = draw(pick(24, 24, 12, 48, 6))
    lo = draw(decimals(6, 40, 1))
    return {'step': step, 'nt': draw(ints(3, 60)), 'nlat': draw(ints(1, 2)), 'nlon': draw(ints(2, 5)), 'seed': draw(ints(0, 10 ** 6)), 'start': draw(ints(0, 3000)),
            'lo': lo, 'hi': lo + draw(decimals(5, 100, 1)), 'wn': sorted(w + 0.5 for w in draw(st.lists(ints(-4, 3), min_size=2, max_size=2, unique=True))) if draw(st.booleans()) else [-720, 720],
            'trend': draw(pick(0, 0, 1)), 'wrong': draw(pick(None, None, None, 'lat', 'lon')), 'how': draw(pick('shift', 'last'))}


def cube(c, period=None):
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(0, 5, (c['nt'], c['nlat'], c['nlon'])), 2) + c['trend'] * np.arange(c['nt'])[:, None, None]
    t = times(c)
    coords = {'time': t, 'lat': np.arange(c['nlat']) * 2.5, 'lon': np.arange(c['nlon']) * 360.0 / c['nlon']}
    return a, t, xr.DataArray(a.copy(), dims=('time', 'lat', 'lon'), coords=coords)


def patterns(c, da):
    r = np.random.default_rng(c['seed'] + 1)
    shape = (366, c['nlat'], c['nlon'])
    return [xr.DataArray(np.round(r.normal(0, 1, shape), 3), dims=('doy', 'lat', 'lon'), coords={'lat': da.lat.values, 'lon': da.lon.values}) for _ in range(2)]


def wrong_grid(da, name, how):
    x = da[name].values.astype(float)
    return da.assign_coords({name: x + 1.25 if how == 'shift' else np.append(x[:-1], x[-1] + 1)})


def yearday(v):
    d = pd.Timestamp(v)
    return (pd.Timestamp(d.year, d.month, d.day) - pd.Timestamp(d.year, 1, 1)).days


@facet("daily", maps(), quick=150, thorough=800, rule="grids match")
def daily(c):
    a, t, da = cube(c)
    eofs = patterns(c, da)
    if c['wrong']:
        err = raises(mi.regress_3dim_data_onto_eofs, wrong_grid(da, c['wrong'], c['how']), t, *eofs)
        expect(isinstance(err, ValueError), f"{c['wrong']} of another grid accepted ({err!r})")
        return False
    pick_ = [[e.values[yearday(v)].reshape(-1) for e in eofs] for v in t]
    if c['nlat'] * c['nlon'] < 3 or not all(distinct(*p) for p in pick_):
        return False
    got = call(mi.regress_3dim_data_onto_eofs, da, t, *eofs)
    want = np.array([solve(a[i].reshape(-1), *p) for i, p in enumerate(pick_)])
    for k in range(2):
        close(got[k], want[:, k], f"coefficients of pattern {k + 1}", 5, 1e-7)
    return True


def tapered(a, days):
    """Linear trend removed and the first ten days raised from zero by half a cosine."""
    s = np.arange(len(a)) - (len(a) - 1) / 2
    a = a - a.mean(0) - s[:, None, None] * (np.tensordot(s, a, (0, 0)) / (s @ s))
    n = int(10 / days)
    for i in range(min(n, len(a))):
        a[i] *= 0.5 * (1 - math.cos(math.pi * i / n))
    return a


def spectral(a, days, lo, hi, wn, pad):
    """Keeps the periods and eastward wavenumbers inside the limits, or None where rounding decides."""
    nt = len(a) + 1000 if pad is None else pad
    full = np.zeros((nt,) + a.shape[1:])
    full[:len(a)] = tapered(a, days)
    f = np.fft.fftfreq(nt, days)
    if (np.abs(np.abs(f)[:, None] - [1 / lo, 1 / hi]) < 1e-12).any():
        return None
    inside = (abs(f) > 1 / hi) & (abs(f) < 1 / lo)
    if wn is None:
        spec = np.fft.fft(full, axis=0)
        spec[~inside] = 0
        return np.fft.ifft(spec, axis=0).real[:len(a)]
    nl = a.shape[2]
    spec = np.fft.fft2(full, axes=(0, 2))
    for j, fj in enumerate(f):
        for m in range(nl):
            east = -m if m <= nl / 2 else nl - m
            if fj < 0:
                mm = -m % nl
                east = -mm if mm <= nl / 2 else nl - mm
            if not (inside[j] and wn[0] <= east <= wn[1]):
                spec[j, :, m] = 0
    return np.fft.ifft2(spec, axes=(0, 2)).real[:len(a)]


@facet("spectral", maps(), quick=60, thorough=400, rule="the band keeps something")
def space_time(c):
    a, t, da = cube(c)
    days = c['step'] / 24
    want = spectral(a, days, c['lo'], c['hi'], c['wn'], None)
    if want is None:
        return False
    with quiet():
        got = call(mi.perform_3dim_spectral_filtering, da, days, c['lo'], c['hi'], *c['wn'])
    close(got.values, want, f"{c['nt']} times and {c['nlon']} longitudes filtered to periods {c['lo']}-{c['hi']} d, wavenumbers {c['wn']}", 5, 1e-9)
    expect(np.array_equal(da.values, a), "filtering changed the field passed in")
    return abs(want).max() > 1e-3


@facet("bandpass", maps(), quick=30, thorough=150, rule="the band keeps something")
def bandpass(c):
    c = dict(c, nlat=1, nlon=2)
    a, t, da = cube(c)
    want = spectral(a, c['step'] / 24, c['lo'], c['hi'], None, 2 ** 17)
    if want is None:
        return False
    with quiet():
        got = call(mi.bandpass_filter_3D, da, t, c['lo'], c['hi'])
    close(got.values, want, f"{c['nt']} times {c['step']} h apart filtered to periods {c['lo']}-{c['hi']} d", 5, 1e-8)
    expect(np.array_equal(da.values, a), "filtering changed the field passed in")
    return abs(want).max() > 1e-3


@facet("omi", maps(), quick=40, thorough=250, rule="grids match")
def omi(c):
    a, t, da = cube(c)
    eofs = patterns(c, da)
    if c['wrong']:
        with quiet():
            err = raises(mi.omi, wrong_grid(da, c['wrong'], c['how']), t, 1, *eofs)
        expect(isinstance(err, ValueError), f"{c['wrong']} of another grid accepted ({err!r})")
        return False
    pick_ = [[e.values[yearday(v)].reshape(-1) for e in eofs] for v in t]
    filtered = spectral(a, c['step'] / 24, 20, 96, [-720, 720], None)
    if c['nlat'] * c['nlon'] < 3 or filtered is None or not all(distinct(*p) for p in pick_):
        return False
    want = np.array([solve(filtered[i].reshape(-1), *p) for i, p in enumerate(pick_)])
    size = want[:, 0].std()
    if size < 1e-6:
        return False
    with quiet():
        got = call(mi.omi, da, t, 1, *eofs)
    for k in range(2):
        close(got[k].values, want[:, k] / size, f"radiation index {k + 1}", 5, 1e-6)
        expect(np.array_equal(got[k].time.values, t), "times of the index")
    expect(np.array_equal(da.values, a), "the field itself was changed")
    return True


@facet("taper", st.tuples(ints(2, 40), ints(0, 20), ints(0, 10 ** 6)).map(list), quick=200, thorough=1000, rule="both ends tapered without meeting")
def taper(c):
    n, w, seed = c
    w = min(w, n)
    a = np.round(np.random.default_rng(seed).normal(0, 5, n), 2)
    with quiet():
        got = call(mi.taper_vector_to_zero, a.copy(), w)
    ramp = [0.5 * (1 - math.cos(math.pi * i / w)) if i < w else 1 for i in range(n)]
    close(got, [a[i] * ramp[i] * ramp[n - 1 - i] for i in range(n)], f"{n} values tapered over {w}", 5)
    return 0 < w <= n // 2


# ------------------------------------------------------------------ wave activity
@st.composite
def activity(draw):
    days = sorted(draw(st.lists(ints(0, 400), min_size=2, max_size=14, unique=True)))
    if draw(st.booleans()):
        days = sorted(set(days) | {d + 365 for d in days})
    return {'days': days, 'start': draw(ints(0, 1200)), 'twice': draw(st.booleans()), 'nlat': draw(ints(1, 3)), 'nlon': draw(ints(1, 3)), 'extra': draw(ints(0, 2)), 'seed': draw(ints(0, 10 ** 6)),
            'wave': draw(pick('Kelvin', 'kelvin', 'ER', 'er', 'MJO', 'mjo', 'MRG', 'mrg')), 'tres': draw(pick('annual', 'monthly')), 'units': draw(st.booleans())}


def precipitation(c):
    t = []
    for d in c['days']:
        base = np.datetime64('2002-01-01T00:00', 'ns') + np.timedelta64(c['start'] + d, 'D')
        t += [base, base + np.timedelta64(12, 'h')] if c['twice'] else [base]
    t = np.array(t, dtype='datetime64[ns]')
    r = np.random.default_rng(c['seed'])
    shape = (len(t), c['nlat'] + c['extra'], c['nlon'] + c['extra'])
    a = np.round(r.normal(4, 3, shape), 2)
    return t, a, xr.DataArray(a.copy(), dims=('time', 'lat', 'lon'), coords={'time': t, 'lat': np.arange(shape[1]) * 1.0 - 2, 'lon': np.arange(shape[2]) * 1.0 + 150})


def less_calendar_mean(t, a):
    keys = [str(v)[5:10] for v in t]
    return np.array([a[i] - np.mean([a[j] for j in range(len(t)) if keys[j] == keys[i]], axis=0) for i in range(len(t))])


@facet("anomalies", activity(), quick=120, thorough=600, rule="calendar days seen more than once")
def anomalies(c):
    t, a, da = precipitation(c)
    got = call(ccew.rem_seas_cyc, da)
    expect(np.array_equal(got['time'].values, t), f"times {got['time'].values} instead of {t}")
    close(got.transpose('time', 'lat', 'lon').values, less_calendar_mean(t, a), "anomalies from the calendar-day mean", 5)
    close(call(ccew.rem_seas_mean, da).values, a - a.mean(0), "anomalies from the mean", 5)
    expect(np.array_equal(da.values, a), "the field itself was changed")
    keys = [str(v)[5:10] for v in t]
    return len(set(keys)) < len(keys)


FILES = {'kelvin': 'EOF_1-4_130-270E_-15S-15N_persiann_cdr_1p0_nlat180_fillmiss8314_1983-2016_Kelvinband_', 'er': 'EOF_1-4_60-220E_-21S-21N_persiann_cdr_1p0_nlat180_fillmiss8314_1983-2016_ERband_',
         'mjo': 'EOF_1-4_30-240E_-21S-21N_persiann_cdr_1p0_nlat180_fillmiss8314_1983-2016_MJOband_', 'mrg': 'EOF_1-2_150-210E_-21S-21N_precip.trmm.8x.1deg.lats180.v7a.fillmiss.comp.1998-201806_MRGband_'}


@facet("activity", activity(), quick=60, thorough=300, rule="monthly patterns over several months")
def wave_activity(c):
    t, a, da = precipitation(c)
    if c['units']:
        da.attrs['units'] = 'mm/d'
    n = 2 if c['wave'].lower() == 'mrg' else 4
    r = np.random.default_rng(c['seed'] + 1)
    # the patterns cover a part of the field
    lat, lon = da.lat.values[c['extra']:c['extra'] + c['nlat']], da.lon.values[:c['nlon']]
    months = range(1, 13) if c['tres'] == 'monthly' else [0]
    eof = {m: np.round(r.normal(0, 1, (n, c['nlat'], c['nlon'])), 2) for m in months}
    with scratch() as d, quiet():
        for m in months:
            name = FILES[c['wave'].lower()] + (f'{m:02d}' if m else 'annual') + '.nc'
            xr.Dataset({'eof': (('eofnum', 'lat', 'lon'), eof[m])}, coords={'eofnum': np.arange(n) + 1, 'lat': lat, 'lon': lon}).to_netcdf(os.path.join(d, name))
        got = call(ccew.waveact, da, c['wave'], d + '/', 2 if c['twice'] else 1, '1p0', 180, c['tres'])
    days = [(pd.Timestamp(v) - pd.Timestamp(pd.Timestamp(v).year, 1, 1)).days for v in (t[::2] if c['twice'] else t)]
    anom = less_calendar_mean(t, a) if len(set(days)) < len(days) else a - a.mean(0)
    anom = anom[:, c['extra']:c['extra'] + c['nlat'], :c['nlon']]
    want = [math.sqrt(sum((eof[pd.Timestamp(v).month if c['tres'] == 'monthly' else 0][k] * anom[i]).sum() ** 2 for k in range(n))) for i, v in enumerate(t)]
    close(got.values, want, f"{c['wave']} activity from {c['tres']} patterns", 5, 1e-8)
    expect(np.array_equal(got.time.values, t), "times of the activity")
    expect(got.attrs.get('units') == ('mm/d' if c['units'] else None), f"units {got.attrs.get('units')}")
    return c['tres'] == 'monthly' and len({str(v)[:7] for v in t}) > 1


@st.composite
def skills(draw):
    return {'nf': draw(ints(1, 4)), 'nl': draw(ints(2, 4)), 'nt': draw(ints(3, 10)), 'seed': draw(ints(0, 10 ** 6)), 'xarray': draw(st.booleans())}


@facet("skill", skills(), quick=100, thorough=500, rule="several leads and forecasts")
def skill(c):
    a = np.round(np.random.default_rng(c['seed']).normal(5, 2, (c['nf'], c['nl'], c['nt'])), 2)
    arg = xr.DataArray(a.copy(), dims=('fchrs', 'exps', 'time')) if c['xarray'] else a.copy()
    got = call(ccew.wave_skill, arg)
    want = np.zeros((c['nf'], c['nl'] - 1))
    for f in range(c['nf']):
        for k in range(1, c['nl']):
            x, y = a[f, 0] - a[f, 0].mean(), a[f, k] - a[f, k].mean()
            want[f, k - 1] = (x * y).sum() / math.sqrt((x * x).sum() * (y * y).sum())
    close(got, want, "skill", 1, 1e-8)
    expect(np.array_equal(np.asarray(arg), a), "the activities themselves were changed")
    return c['nf'] > 1 and c['nl'] > 2


@st.composite
def modes(draw):
    nd = draw(ints(2, 3))
    shape = [draw(ints(2, 6)) for _ in range(nd)]
    dim = draw(ints(0, nd - 1))
    small = min(shape[dim], int(np.prod(shape)) // shape[dim])
    return {'shape': shape, 'dim': dim, 'n': draw(ints(1, small)), 'cov': draw(st.booleans()), 'seed': draw(ints(0, 10 ** 6))}


@facet("modes", modes(), quick=150, thorough=800, rule="several modes and the time axis is not first")
def eof_modes(c):
    a = np.round(np.random.default_rng(c['seed']).normal(1, 3, c['shape']), 2)
    da = xr.DataArray(a, dims=['x', 'y', 'z'][:a.ndim])
    if not c['cov'] and (a.std(c['dim']) < 1e-9).any():
        return False
    with quiet():
        series, part, eof = call(ccew.eof_comp, da, c['n'], ccew.opt_eof(c['cov']), c['dim'])
    m = np.moveaxis(a, c['dim'], 0)
    m2 = m.reshape(m.shape[0], -1)
    if not c['cov']:
        m2 = (m2 - m2.mean(0)) / m2.std(0)
    total = (m2 ** 2).sum()
    size = np.sort(np.linalg.eigvalsh(m2 @ m2.T))[::-1][:c['n']]
    close(part, size / total, "explained variance", 1, 1e-7)
    expect(eof.shape == (c['n'],) + m.shape[1:], f"patterns of shape {eof.shape}")
    flat = eof.reshape(c['n'], -1)
    close(flat @ flat.T, np.eye(c['n']), "patterns of unit length at right angles", 1, 1e-7)
    close(series.T @ series, np.eye(c['n']), "series of unit length at right angles", 1, 1e-7)
    for k in range(c['n']):
        if size[k] > 1e-6 * total:
            close(m2 @ flat[k], math.sqrt(size[k]) * series[:, k], f"series of pattern {k + 1}", math.sqrt(total), 1e-6)
    return c['n'] > 1 and c['dim'] > 0


# ------------------------------------------------------------------ MJO forcing of ENSO
@st.composite
def stress(draw):
    nlat, nlon = draw(ints(1, 3)), draw(ints(2, 3))
    land = draw(st.lists(ints(0, nlat * nlon - 1), max_size=nlat * nlon - 2, unique=True))
    return {'nt': draw(ints(11, 25)), 'nlat': nlat, 'nlon': nlon, 'land': land, 'k1': draw(ints(1, 7)), 'k2': draw(ints(1, 7)), 'seed': draw(ints(0, 10 ** 6))}


def convolved(x, w):
    """Centred weighted sums, taking nothing beyond the ends."""
    off = (len(w) - 1) // 2
    return np.array([sum(w[k] * x[n + off - k] for k in range(len(w)) if 0 <= n + off - k < len(x)) for n in range(len(x))])


@facet("stress", stress(), quick=80, thorough=400, rule="some points are missing")
def wind_stress(c):
    r = np.random.default_rng(c['seed'])
    nt, nlat, nlon = c['nt'], c['nlat'], c['nlon']
    a = np.round(r.normal(0, 2, (nt, nlat, nlon)), 2).reshape(nt, -1)
    e = np.round(r.normal(0, 1, (4, nlat * nlon)), 2)
    sea = [i for i in range(nlat * nlon) if i not in c['land']]
    a[:, c['land']] = np.nan
    e[:, c['land']] = np.nan
    f1, f2 = np.round(r.uniform(-1, 1, (c['k1'], len(sea))), 2), np.round(r.uniform(-1, 1, (c['k2'], len(sea))), 2)
    coords = {'lat': np.arange(nlat) * 2.0, 'lon': np.arange(nlon) * 2.0}
    da = xr.DataArray(a.reshape(nt, nlat, nlon).copy(), dims=('time', 'lat', 'lon'), coords=dict(coords, time=np.arange(nt)))
    de = xr.DataArray(e.reshape(4, nlat, nlon).copy(), dims=('time', 'lat', 'lon'), coords=dict(coords, time=np.arange(4)))
    with quiet():
        got = call(me.calc_tau_MJO, da, de, f1, f2)
    band = np.array([convolved(a[:, p] - convolved(a[:, p], f1[:, i]), f2[:, i]) for i, p in enumerate(sea)])
    pcs = e[:, sea] @ band / len(sea)
    sd = pcs.std(axis=1, ddof=1)
    if (sd < 1e-2 * abs(band).max()).any():
        return False
    want = np.full((nt, nlat * nlon), np.nan)
    want[:, sea] = sum(np.outer(band @ pcs[j] / sd[j], pcs[j]) for j in range(4)).T
    out = got.transpose('time', 'lat', 'lon').values.reshape(nt, -1)
    close(out, want, "intraseasonal stress", np.nanmax(abs(want)), 1e-3)
    expect(np.array_equal(da.values.reshape(nt, -1), a, equal_nan=True), "the field itself was changed")
    return len(c['land']) > 0


@st.composite
def power(draw):
    half = draw(ints(1, 6))
    return {'half': half, 'step': draw(pick(0.5, 1.0, 2.0)), 'equator': draw(st.booleans()), 'nlon': draw(ints(1, 3)), 'nt': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6))}


@facet("power", power(), quick=100, thorough=500, rule="at least four latitudes")
def wind_power(c):
    lat = np.arange(-c['half'], c['half'] + 1) * c['step'] if c['equator'] else (np.arange(-c['half'], c['half']) + 0.5) * c['step']
    r = np.random.default_rng(c['seed'])
    n = len(lat)
    u, v, fu, fv = [np.round(r.normal(0, 2, (c['nt'], n, c['nlon'])), 2) for _ in range(4)]
    make = lambda x: xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': np.arange(c['nt']), 'lat': lat, 'lon': np.arange(c['nlon']) * 1.0})
    with quiet():
        got = call(me.calc_wpower_MJO, make(u), make(v), make(fu), make(fv))
    # structure of the Kelvin wave: d(phi)/dy = -y phi stepped from the row nearest the equator, of unit norm
    radius = math.sqrt(math.sqrt(9.81e-2 * 90) / 2.28e-11) / 111000
    south, north = lat[0] / radius, lat[-1] / radius
    dy = (north - south) / n
    y = south + (np.arange(n) + 0.5) * dy
    first = int(np.argmin(abs(y)))
    if abs(sorted(abs(y))[0] - sorted(abs(y))[1]) < 1e-9:
        first = n // 2 - 1
    phi = np.zeros(n)
    phi[first] = (math.sqrt(math.pi) * (math.erf(north) - math.erf(south))) ** -0.5 * math.exp(-0.5 * y[first] ** 2)
    for j in range(first + 1, n):
        phi[j] = phi[j - 1] * (2 / dy - y[j - 1]) / (2 / dy + y[j])
    for j in range(first - 1, -1, -1):
        phi[j] = phi[j + 1] * (2 / dy + y[j + 1]) / (2 / dy - y[j])
    close(got.transpose('time', 'lat', 'lon').values, (u * fu + v * fv) * phi[None, :, None], f"wind power on latitudes {list(lat)}", 5, 1e-8)
    return n >= 4


@st.composite
def enso(draw):
    return {'year': draw(ints(1990, 2010)), 'month': draw(ints(1, 12)), 'lead': draw(pick(90, 90, 91, 92, 100)), 'nt': draw(ints(150, 420)), 'nlon': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6))}


@facet("enso", enso(), quick=40, thorough=200, rule="at least three months")
def enso_index(c):
    first = pd.Timestamp(c['year'], c['month'], 1) - pd.Timedelta(days=c['lead'])
    t = pd.date_range(first, periods=c['nt'], freq='D')
    r = np.random.default_rng(c['seed'])
    n = c['nlon']
    s, w = np.round(r.normal(0, 2, (c['nt'], n)), 2), np.round(r.normal(0, 3, (c['nt'], n)), 2)
    eof = np.round(r.normal(0, 1, (2, 2 * n)), 2)
    make = lambda x: xr.DataArray(x, dims=('time', 'lon'), coords={'time': t, 'lon': np.arange(n) * 1.0})
    months = [m for m in pd.date_range(t[90], t[-1], freq='D') if m.day == 1]
    p = -(eof @ np.hstack([w / w.std(0), s / s.std(0)]).T)
    if (p.std(axis=1) < 1e-3).any() or len(months) < 2:
        return False
    with quiet():
        got = call(me.make_maki, make(s), make(w), xr.DataArray(eof, dims=('eof', 'lonn')))
    p = p / p.std(axis=1)[:, None]
    for name, x, g in (('MaKE', p[0] + abs(p[1]), got[0]), ('MaKI', p[0] + p[1], got[1])):
        low = np.array([min(v for d, v in zip(t, x) if m - pd.Timedelta(days=90) <= d <= m) for m in months])
        if low.std() < 1e-6:
            return False
        close(g.values, low / low.std(), f"{name} index from {t[0].date()} to {t[-1].date()}", 1, 1e-7)
        expect([pd.Timestamp(v) for v in g.time.values] == months, f"{name} months {g.time.values} instead of {months}")
    return len(months) > 2
