"""Zonal and meridional means and zonal wave decomposition against direct sums."""
import cmath
import math

import numpy as np
import xarray as xr

from vh import call, decimals, expect, expect_near, facet, ints, is_missing, lists, pick, quiet, raises, st
import metcalcpy.pre_processing.directional_means as dm
import metcalcpy.pre_processing.waves as wv


@st.composite
def grid(draw):
    nlat, nlon, other = draw(ints(1, 8)), draw(ints(1, 6)), draw(ints(0, 2))
    lats = sorted(draw(st.lists(st.one_of(ints(-90, 90), ints(-8, 8).map(lambda k: k * 10)), min_size=nlat, max_size=nlat, unique=True)))
    if draw(st.booleans()):
        lats.reverse()
    return {'lats': [float(x) for x in lats], 'nlon': nlon, 'other': other, 'order': draw(st.permutations(['t', 'lat', 'lon'])), 'seed': draw(ints(0, 10 ** 6)),
            'first': draw(decimals(-50, 50, 1)), 'missing': draw(pick(0, 0, 0, 1, 3)), 'lat_name': draw(pick('latitude', 'lat')), 'lon_name': draw(pick('longitude', 'lon')),
            'dataset': draw(st.booleans())}


def field(c):
    r = np.random.default_rng(c['seed'])
    sizes = {'t': c['other'] or 1, 'lat': len(c['lats']), 'lon': c['nlon']}
    a = np.round(r.normal(0, 10, [sizes[d] for d in c['order']]), 2)
    a.flat[0] = c['first']
    for i in r.integers(0, a.size, c['missing']):
        a.flat[i] = np.nan
    name = {'t': 't', 'lat': c['lat_name'], 'lon': c['lon_name']}
    coords = {c['lat_name']: c['lats'], c['lon_name']: np.arange(c['nlon']) * 360.0 / c['nlon'], 't': np.arange(sizes['t'])}
    da = xr.DataArray(a, dims=[name[d] for d in c['order']], coords=coords)
    if not c['other']:
        da = da.isel(t=0, drop=True)
    return da


def mean(vals, weights):
    have = [(v, w) for v, w in zip(vals, weights) if not is_missing(v)]
    total = sum(w for _, w in have)
    return sum(v * w for v, w in have) / total if have and total > 0 else None


def over(da, dim, weight, about, got):
    rest = [d for d in da.dims if d != dim]
    expect(set(got.dims) == set(rest), f"{about} over {got.dims}")
    a, g = da.transpose(*rest, dim).values.reshape(-1, da.sizes[dim]), got.transpose(*rest).values.reshape(-1)
    for row, x in zip(a, g):
        want = mean(row, weight)
        if want is None:
            expect(is_missing(x), f"{about}: {x} from {row}")
        else:
            expect_near(x, want, f"{about} of {row}", 1e-9, 1e-9)


@facet("zonal", grid(), quick=300, thorough=1500, rule="several longitudes and latitudes")
def zonal(c):
    da = field(c)
    arg = xr.Dataset({'z': da}) if c['dataset'] else da
    got = call(dm.zonal_mean, arg) if c['lon_name'] == 'longitude' else call(dm.zonal_mean, arg, c['lon_name'])
    over(da, c['lon_name'], [1] * c['nlon'], "zonal mean", got['z'] if c['dataset'] else got)
    return c['nlon'] > 1 and len(c['lats']) > 1


@st.composite
def band(draw):
    g = draw(grid())
    edge = st.one_of(pick(*g['lats']), ints(-95, 95).map(float), decimals(-90, 90, 1))
    a, b = draw(edge), draw(edge)
    return {'g': g, 'a': a, 'b': b} if draw(ints(0, 7)) == 0 else {'g': g, 'a': min(a, b), 'b': max(a, b)}


@facet("meridional", band(), quick=800, thorough=6000, rule="the band holds some but not all latitudes")
def meridional(c):
    g, a, b = c['g'], c['a'], c['b']
    da = field(g)
    arg = xr.Dataset({'z': da}) if g['dataset'] else da
    names = () if g['lat_name'] == 'latitude' else (g['lat_name'],)
    if a >= b:
        expect(isinstance(raises(dm.meridional_mean, arg, a, b, *names), ValueError), f"the band from {a} to {b} was accepted")
        return False
    inside = [x for x in g['lats'] if a <= x <= b]
    if not inside or all(abs(x) == 90 for x in inside):
        return False
    got = call(dm.meridional_mean, arg, a, b, *names)
    over(da, g['lat_name'], [math.cos(math.radians(x)) if a <= x <= b else 0 for x in g['lats']], f"mean over {a} to {b} of latitudes {g['lats']}",
         got['z'] if g['dataset'] else got)
    return len(inside) < len(g['lats'])


@st.composite
def ring(draw, extra=0):
    n = draw(ints(2, 13))
    other = draw(ints(1, 3))
    top = n // 2
    waves = draw(st.one_of(st.none(), st.lists(ints(0, top), min_size=1, max_size=top + 1, unique=True)))
    tone = draw(ints(0, top))
    return {'n': n, 'other': other, 'first': draw(st.booleans()), 'seed': draw(ints(0, 10 ** 6)), 'tone': tone, 'pure': draw(ints(0, 3)) == 0, 'amp': draw(decimals(0.5, 20, 1)),
            'shift': draw(decimals(-3, 3, 2)), 'waves': waves, 'pkg': draw(pick('scipy', 'xrft')), 'lon': draw(pick('longitude', 'longitude', 'lon')),
            'start': draw(pick(0.0, -180.0, 2.5)), 'dtype': draw(pick('float64', 'float64', 'float32')), 'array': draw(st.booleans())}


def around(c, which=0):
    r = np.random.default_rng(c['seed'] + which)
    if c['pure'] and not which:
        x = 2 * np.pi * np.arange(c['n']) / c['n']
        a = np.array([c['amp'] * np.cos(c['tone'] * x + c['shift']) + k for k in range(c['other'])])
    else:
        a = np.round(r.normal(0, 10, (c['other'], c['n'])), 2)
    da = xr.DataArray(a.astype(c['dtype']), dims=('y', c['lon']), coords={'y': np.arange(c['other']) * 5.0, c['lon']: c['start'] + 360.0 * np.arange(c['n']) / c['n']})
    return da.transpose() if c['first'] else da


def options(c):
    k = {'fftpkg': c['pkg']}
    if c['waves'] is not None:
        k['waves'] = np.array(c['waves']) if c['array'] else list(c['waves'])
    if c['lon'] != 'longitude':
        k['dimvar'] = c['lon']
    return k


def dft(row, k):
    n = len(row)
    return sum(float(x) * cmath.exp(-2j * math.pi * k * j / n) for j, x in enumerate(row))


def once(k, n):
    return k == 0 or 2 * k == n


def rows(da, c):
    return da.transpose('y', c['lon']).values


def table(got, c):
    """Rows by y, columns by wave."""
    if isinstance(got, xr.DataArray):
        waves = [int(k) for k in np.atleast_1d(got['lon_wavenum'].values)]
        return waves, got.transpose('y', 'lon_wavenum').values
    return None, (np.asarray(got).T if c['first'] else np.asarray(got))


def chosen(c):
    return list(range(c['n'] // 2 + 1)) if c['waves'] is None else c['waves']


def tol(c):
    return 2e-4 if c['dtype'] == 'float32' else 1e-8


@facet("coefficients", ring(), quick=400, thorough=2000, rule="several waves")
def coefficients(c):
    da = around(c)
    before = da.copy(deep=True)
    waves, got = table(call(wv.zonal_wave_coeffs, da, **options(c)), c)
    expect(da.identical(before), "the field passed in was changed")
    expect(waves == chosen(c), f"waves {waves}, asked for {chosen(c)}")
    for row, g in zip(rows(da, c), got):
        for k, z in zip(waves, g):
            want = dft(row, k)
            expect(abs(z - want) <= tol(c) * (1 + 100 * c['n']), f"coefficient {k} of {row} is {z}, expected {want}")
    return len(waves) > 1


@facet("amplitudes", st.fixed_dictionaries({'r': ring(), 'deg': st.booleans()}), quick=400, thorough=2000, rule="several waves")
def amplitudes(c):
    r = c['r']
    da = around(r)
    amp, pha = call(wv.zonal_wave_ampl_phase, da, phase_deg=c['deg'], **options(r))
    waves, a = table(amp, r)
    p = table(pha, r)[1]
    expect(waves == chosen(r) and a.shape == p.shape, f"waves {waves}, asked for {chosen(r)}")
    expect(a.dtype == da.dtype and p.dtype == da.dtype, f"amplitudes and phases of {da.dtype} data as {a.dtype} and {p.dtype}")
    for row, ga, gp in zip(rows(da, r), a, p):
        for k, x, y in zip(waves, ga, gp):
            z = dft(row, k)
            want = abs(z) / r['n'] * (1 if once(k, r['n']) else 2)
            expect_near(float(x), want, f"amplitude of wave {k} of {r['n']} in {row}", tol(r), tol(r) * 100)
            if abs(z) > 0.1:
                turn = 360 if c['deg'] else 2 * math.pi
                off = (float(y) - cmath.phase(z) * turn / (2 * math.pi) + turn / 2) % turn - turn / 2
                expect(abs(off) < 1e-3 * turn, f"phase of wave {k} in {row} is {y}")
    return len(waves) > 1


@facet("contributions", ring(), quick=400, thorough=2000, rule="several waves")
def contributions(c):
    """Each wave's part of the field; all of them together give the field back."""
    da = around(c)
    got = call(wv.zonal_wave_contributions, da, **options(c))
    expect(set(got.dims) == {'y', c['lon'], 'lon_wavenum'}, f"dimensions {got.dims}")
    waves = [int(k) for k in got['lon_wavenum'].values]
    expect(waves == chosen(c), f"waves {waves}, asked for {chosen(c)}")
    expect(np.allclose(got[c['lon']].values, da[c['lon']].values), f"longitudes {got[c['lon']].values}")
    a = got.transpose('y', c['lon'], 'lon_wavenum').values
    expect(a.shape[1] == c['n'], f"{a.shape[1]} longitudes from {c['n']}")
    for row, g in zip(rows(da, c), a):
        for i, k in enumerate(waves):
            z = dft(row, k) / c['n'] * (1 if once(k, c['n']) else 2)
            for j in range(c['n']):
                want = (z * cmath.exp(2j * math.pi * k * j / c['n'])).real
                expect_near(float(g[j, i]), want, f"part of wave {k} at point {j} of {row}", tol(c) * 10, tol(c) * 1000)
        if c['waves'] is None:
            expect(np.allclose(g.sum(axis=1), row, rtol=1e-3 if c['dtype'] == 'float32' else 1e-8, atol=tol(c) * 100), f"parts add up to {g.sum(axis=1)}, not {row}")
    return len(waves) > 1


@facet("covariances", ring(), quick=400, thorough=2000, rule="several waves")
def covariances(c):
    """Wave by wave, adding up to the mean product of the two fields around the circle."""
    d1, d2 = around(c), around(c, 1)
    k = options(c)
    k.pop('dimvar', None)
    if c['lon'] != 'longitude':
        k['dimvar1'] = c['lon']
        if c['pure']:
            d2 = d2.rename({c['lon']: 'longitude'})
        else:
            k['dimvar2'] = c['lon']
    waves, got = table(call(wv.zonal_wave_covariance, d1, d2, **k), c)
    expect(waves == chosen(c), f"waves {waves}, asked for {chosen(c)}")
    two = rows(d2.rename({'longitude': c['lon']}) if c['lon'] not in d2.dims else d2, c)
    for r1, r2, g in zip(rows(d1, c), two, got):
        for i, w in enumerate(waves):
            want = (dft(r1, w) * dft(r2, w).conjugate()).real / c['n'] ** 2 * (1 if once(w, c['n']) else 2)
            expect_near(float(g[i]), want, f"covariance of wave {w} of {r1} and {r2}", tol(c) * 10, tol(c) * 1000)
        if c['waves'] is None:
            expect_near(float(g.sum()), float(np.mean(r1.astype(float) * r2.astype(float))), f"sum of the covariances of {r1} and {r2}", tol(c) * 10, tol(c) * 2000)
    return len(waves) > 1


@facet("package", st.fixed_dictionaries({'r': ring(), 'name': pick('numpy', 'xarray', 'fft', '')}), quick=20, thorough=60, rule="always")
def package(c):
    for fn in (wv.zonal_wave_coeffs, wv.zonal_wave_ampl_phase, wv.zonal_wave_contributions):
        expect(isinstance(raises(lambda: fn(around(c['r']), fftpkg=c['name'], dimvar=c['r']['lon'])), ValueError), f"the transform package {c['name']!r} was accepted")
    return True
