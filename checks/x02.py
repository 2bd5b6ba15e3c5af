"""Vertical interpolation and heights from pressure against column-by-column evaluation."""
import math
import os
import subprocess
import sys

import netCDF4 as nc
import numpy as np
import xarray as xr
import metpy.calc
import yaml
from metpy.units import units

from vh import REPO, call, clock, decimals, expect, expect_near, facet, fail, ints, is_missing, lists, pick, quiet, scratch, st
import metcalcpy.vertical_interp as vi

SCALE = {'meter': 1.0, 'm': 1.0, 'kilometer': 1000.0, 'km': 1000.0, 'foot': 0.3048, 'decameter': 10.0, 'cm': 0.01}


@st.composite
def block(draw):
    """Surfaces rising through the levels, with lower ones possibly missing, and a field on them."""
    n = draw(ints(1, 6))
    other = draw(st.lists(pick('x', 'time', 'member'), min_size=1, max_size=2, unique=True))
    sizes = [draw(ints(1, 3)) for _ in other]
    cols = int(np.prod(sizes))
    surfaces, field = [], []
    for _ in range(cols):
        z, step = draw(ints(-200, 1500)), []
        for _ in range(n):
            step.append(float(z))
            z += draw(ints(1, 2500))
        hidden = draw(pick(0, 0, 0, 1, 2)) if n > 2 else 0
        surfaces.append([None] * hidden + step[hidden:])
        field.append([draw(st.one_of(decimals(-50, 50, 2), st.just(None)) if draw(ints(0, 9)) == 0 else decimals(-50, 50, 2)) for _ in range(n)])
    have = [s for col in surfaces for s in col if s is not None]
    levels = draw(st.lists(st.one_of(pick(*have), ints(-300, 9000).map(float), pick(*have).map(lambda s: s + 0.5)), min_size=1, max_size=5, unique=True))
    return {'other': other, 'sizes': sizes, 'surfaces': surfaces, 'field': field, 'levels': levels,
            'turned': draw(st.booleans()), 'lev': draw(pick('lev', 'pressure', 'isobaricInhPa')), 'at': draw(ints(0, len(other))), 'zat': draw(ints(0, len(other))),
            'units': draw(pick('meter', 'meter', 'm')), 'zunits': draw(pick('meter', 'm', 'gpm')), 'dtype': draw(pick('float64', 'float64', 'float32'))}


def stack(c, columns, at, dtype='float64'):
    n = len(columns[0])
    a = np.array([[np.nan if v is None else v for v in col] for col in columns], dtype=dtype).reshape(c['sizes'] + [n])
    a = np.moveaxis(a, -1, at)
    dims = list(c['other'])
    dims.insert(at, c['lev'])
    coords = {d: np.arange(s) * 10.0 for d, s in zip(c['other'], c['sizes'])}
    coords[c['lev']] = 1000.0 - 50 * np.arange(n)
    return xr.DataArray(a, dims=dims, coords=coords)


def along(z, f, eta):
    """The field at a level of one column; None when the level cannot be placed."""
    nan = float('nan')
    f = [nan if v is None else v for v in f]
    if z[0] is not None and eta < z[0]:
        return f[0]
    if eta >= z[-1]:
        return f[-1]
    for k in range(1, len(z)):
        if z[k - 1] is not None and z[k - 1] <= eta < z[k]:
            w = (eta - z[k - 1]) / (z[k] - z[k - 1])
            return f[k - 1] if w == 0 else (1 - w) * f[k - 1] + w * f[k]
    return None


def compare(c, got, surfaces, levels, tol):
    expect(list(got.dims) == ['lev' if d == c['lev'] else d for d in stack(c, c['field'], c['at']).dims], f"dimensions {got.dims}")
    expect_near(len(got['lev']), len(levels), "number of levels")
    for want, have in zip(levels, got['lev'].values):
        expect_near(have, want, "level", 1e-6, 0)
    arr = got.transpose(*c['other'], 'lev').values.reshape(-1, len(levels))
    inside = 0
    for i, col in enumerate(surfaces):
        for j, eta in enumerate(levels):
            want = along(col, c['field'][i], eta)
            if want is None or is_missing(want):
                expect(is_missing(arr[i, j]), f"{arr[i, j]} at level {eta} where surfaces are {col} and the field {c['field'][i]}")
            else:
                expect_near(arr[i, j], want, f"level {eta} with surfaces {col} and the field {c['field'][i]}", tol, tol)
                inside += col[0] is not None and col[0] <= eta <= col[-1]
    for d, s in zip(c['other'], c['sizes']):
        expect(list(got[d].values) == [10.0 * k for k in range(s)], f"coordinate {d} is {got[d].values}")
    return inside


@facet("levels", block(), quick=120, thorough=1500, rule="several levels and some target inside a column")
def levels(c):
    f = stack(c, c['field'], c['at'], c['dtype'])
    f.attrs['units'] = 'K'
    z = stack(c, c['surfaces'], c['zat'])
    z.attrs['units'] = c['zunits']
    if c['turned']:
        z = z.transpose(*reversed(z.dims))
    before = f.copy(deep=True), z.copy(deep=True)
    with quiet():
        got, _ = call(vi.vertical_interp, 'TMP', {'vertical_dim_name': c['lev'], 'vertical_levels': list(c['levels']), 'vertical_level_units': c['units']}, z, f)
    expect(f.identical(before[0]) and z.identical(before[1]), "the input was changed")
    expect(got.attrs.get('units') == 'K', f"attributes {got.attrs}")
    return compare(c, got, c['surfaces'], c['levels'], 1e-5 if c['dtype'] == 'float32' else 1e-9) > 0 and len(c['field'][0]) > 1


@facet("units", st.fixed_dictionaries({'b': block(), 'level_units': pick(*SCALE), 'surface_units': pick(*SCALE), 'heights': lists(st.tuples(ints(0, 50), ints(0, 900)), 1, 4)}), quick=80,
       thorough=800, rule="different units and some target inside a column")
def converted(c):
    """Surfaces and levels in different units of length describe the same heights."""
    b = c['b']
    f = stack(b, b['field'], b['at'])
    to = SCALE[c['surface_units']]
    z = stack(b, b['surfaces'], b['zat']) / to
    z.attrs['units'] = c['surface_units']
    have = [s for col in b['surfaces'] for s in col if s is not None]
    heights = sorted({have[i % len(have)] + up + 0.37 for i, up in c['heights']})
    lev = [h / SCALE[c['level_units']] for h in heights]
    with quiet():
        got, _ = call(vi.vertical_interp, 'TMP', {'vertical_dim_name': b['lev'], 'vertical_levels': lev, 'vertical_level_units': c['level_units']}, z, f)
    scale = SCALE[c['level_units']]
    here = [[None if s is None else s / scale for s in col] for col in b['surfaces']]
    return compare(b, got, here, lev, 1e-6) > 0 and to != scale


@st.composite
def atmosphere(draw, least=1, exact=True):
    n = draw(ints(least, 6))
    p = sorted(draw(st.lists(ints(50, 1040), min_size=n, max_size=n, unique=True)), reverse=True)
    cols = draw(ints(1, 4))
    ps = [draw(st.one_of(ints(p[-1] - 20, 1080), pick(*p), decimals(900, 1050, 1))) for _ in range(cols)]
    if not exact:
        ps = [x + 0.25 for x in ps]
    return {'p': p, 'ps': [max(10, x) for x in ps], 'z0': [draw(pick(0, 0, 500, 1500, 300)) for _ in range(cols)],
            't': [[draw(decimals(200, 310, 1)) for _ in p] for _ in range(cols)], 'rh': [[draw(st.one_of(ints(0, 100), st.just(0), st.just(100))) for _ in p] for _ in range(cols)],
            'punits': draw(pick('hPa', 'hPa', 'millibar', 'Pa')), 'psunits': draw(pick('Pa', 'hPa', 'Pa')), 'levfirst': draw(st.booleans()),
            'percent': draw(st.booleans()), 'lev': draw(pick('pressure', 'lev'))}


R_OVER_G = 8.314462618 / 28.96546e-3 / 9.80665


def column(p, ps, z0, t, rh):
    """Heights of the pressure levels: upward from the surface, each layer with the virtual temperature at its top."""
    r = metpy.calc.mixing_ratio_from_relative_humidity(np.array(p, float) * units.hPa, np.array(t, float) * units.K, np.array(rh, float) * units.percent)
    tv = metpy.calc.virtual_temperature(np.array(t, float) * units.K, r).to('K').magnitude
    out, base, z = [], ps, z0
    for k, pk in enumerate(p):
        if pk >= ps:
            out.append(None)
            continue
        z += R_OVER_G * tv[k] * math.log(base / pk)
        base = pk
        out.append(z)
    return out


def fields(c):
    pf = 100 if c['punits'] == 'Pa' else 1
    lev = xr.DataArray([x * pf for x in map(float, c['p'])], dims=c['lev'], attrs={'units': c['punits']})
    cols = len(c['ps'])
    coords = {'x': np.arange(cols) * 2.0, c['lev']: lev}

    def full(v, u):
        a = xr.DataArray(np.array(v, dtype=float), dims=('x', c['lev']), coords=coords, attrs={'units': u})
        return a.transpose(c['lev'], 'x') if c['levfirst'] else a
    psf = 100 if c['psunits'] == 'Pa' else 1
    ps = xr.DataArray(np.array(c['ps'], float) * psf, dims='x', coords={'x': coords['x']}, attrs={'units': c['psunits']})
    g = xr.DataArray(np.array(c['z0'], float) * 9.80665, dims='x', coords={'x': coords['x']}, attrs={'units': 'm2 s-2'})
    rh = full(c['rh'], '%') if c['percent'] else full(np.array(c['rh']) / 100, '')
    return g, ps, full(c['t'], 'K'), rh


@facet("heights", atmosphere(), quick=40, thorough=400, rule="two or more levels above the ground and a column with a level below it")
def heights(c):
    """Levels under the ground are missing, the others follow the hypsometric relation from the surface upward."""
    g, ps, t, rh = fields(c)
    with quiet():
        got = call(vi.height_from_pressure, {'vertical_dim_name': c['lev']}, g, ps, t, rh)
    expect(got.dims == t.dims, f"dimensions {got.dims}")
    arr = got.transpose('x', c['lev']).values
    rich = False
    for i in range(len(c['ps'])):
        want = column(c['p'], c['ps'][i], c['z0'][i], c['t'][i], c['rh'][i])
        for k, w in enumerate(want):
            about = f"height of {c['p'][k]} hPa over ground at {c['ps'][i]} hPa, levels {c['p']}"
            if w is None:
                expect(is_missing(arr[i, k]) or c['p'][k] == c['ps'][i], f"{about}: {arr[i, k]} under the ground")
            else:
                expect_near(arr[i, k], w, about, 1e-4, 0.05)
        rich = rich or (want[0] is None and sum(w is not None for w in want) > 1)
    return rich


@facet("fields", st.fixed_dictionaries({'zero': st.booleans(), 'names': st.permutations(['SP', 'PHIS', 'T', 'RH', 'U']), 'v': lists(ints(1, 1000), 5, 5)}), quick=30,
       thorough=100, rule="always")
def read_fields(c):
    """The fields named in the configuration, with the ground at zero height when so configured."""
    n = c['names']
    ds = xr.Dataset({k: ('x', [float(v), v + 0.5]) for k, v in zip(n, c['v'])})
    cfg = {'surface_pressure_name': n[0], 'surface_geopotential_name': n[1], 'temperature_name': n[2], 'relative_humidity_name': n[3], 'zero_surface_geopotential': c['zero']}
    with quiet():
        g, ps, t, rh = call(vi.read_required_fields, cfg, ds)
    expect(list(g.values) == ([0, 0] if c['zero'] else list(ds[n[1]].values)), f"surface geopotential {g.values}")
    for a, k in ((ps, n[0]), (t, n[2]), (rh, n[3])):
        expect(list(a.values) == list(ds[k].values), f"{k} read as {a.values}")
    return True


@facet("file", st.fixed_dictionaries({'b': block(), 'times': st.lists(ints(0, 400), min_size=1, max_size=4, unique=True), 'ref': st.one_of(st.none(), ints(0, 8000)),
                                      'valid': st.one_of(st.none(), st.none(), st.tuples(ints(0, 20000), ints(0, 384 * 60))), 'zone': pick('', '', 'XXX-11', 'XXX+9')}),
       quick=40, thorough=300, rule="fields of at least two dimensions")
def written(c):
    """The file holds every field with its values, coordinates and attributes, over the valid time too when it is asked for."""
    b = c['b']
    ds = xr.Dataset({'TMP': stack(b, b['field'], b['at'], b['dtype'])})
    ds['TMP'].attrs.update(units='K', long_name='temperature')
    ds['Z'] = stack(b, b['surfaces'], b['zat'])
    ds.attrs['model'] = 'abc'
    if 'time' in ds.dims:
        ds = ds.drop_vars('time').isel(time=[0] * len(c['times']))
        ds = ds.assign_coords(time=np.array(['2020-01-01'], dtype='datetime64[ns]') + np.array(sorted(c['times'])) * np.timedelta64(6, 'h'))
    ref, dated = None, c['valid'] is not None
    if c['ref'] is not None:
        stamp = np.datetime64('2019-01-01T00') + np.timedelta64(c['ref'], 'h')
        ref = str(stamp).replace('-', '').replace('T', '')
    if dated:
        init = np.datetime64('2019-01-01T00', 'ns') + np.timedelta64(c['valid'][0], 'h')
        valid = init + np.timedelta64(c['valid'][1], 'm')
        ds['valid_time'], ds['init_time'] = valid, init
    with scratch() as d, quiet(), clock(c['zone']):
        path = os.path.join(d, 'out.nc')
        out = nc.Dataset(path, 'w')
        call(vi.write_dataset, ds, out, forecast_reference_time=ref, create_time_dim=dated)
        out.close()
        with nc.Dataset(path) as f:
            f.set_auto_mask(False)
            for name in ('TMP', 'Z'):
                v = f.variables[name]
                expect(v.dimensions == ('valid_time',) * dated + ds[name].dims, f"{name} written over {v.dimensions}")
                expect(np.array_equal(v[0] if dated else v[:], ds[name].values, equal_nan=True), f"{name} written as {v[:]}, not {ds[name].values}")
                for a in ds[name].attrs:
                    expect(getattr(v, a, None) == ds[name].attrs[a], f"attribute {a} of {name}")
            for dim in ds.dims:
                x = ds[dim].values
                x = (x - x[0]) / np.timedelta64(1, 's') if x.dtype.kind == 'M' else x
                expect(np.array_equal(f.variables[dim][:], x), f"coordinate {dim} written as {f.variables[dim][:]}")
            expect(f.model == 'abc', "attribute of the dataset")
            times = [('forecast_reference_time', stamp)] if ref else []
            for name, when in times + ([('valid_time', valid)] if dated else []):
                v = f.variables[name]
                got = nc.num2date(v[:], v.units)
                expect(len(got) == 1 and np.datetime64(got[0].isoformat()) == when, f"{name} written as {v[:]} {v.units}, not {when}")
    return ds['TMP'].size > 1


@facet("program", st.fixed_dictionaries({'a': atmosphere(2, False), 'derive': st.booleans(), 'zero': st.booleans(), 'levels': lists(ints(1, 90).map(lambda k: 100 * k), 2, 6),
                                         'init': ints(0, 20000), 'lead': ints(0, 240), 'dim': st.booleans(), 'ref': st.booleans(), 'dir': pick('', 'v1.0')}), quick=4, thorough=16,
       rule="some height inside a column")
def program(c):
    """The program writes each configured field interpolated to the configured heights."""
    a = dict(c['a'], percent=True)
    cols = len(a['ps'])
    g, ps, t, rh = fields(a)
    ds = xr.Dataset({'PS': ps, 'PHIS': g, 'TMP': t, 'RH': rh}).rename(x='lon').expand_dims(lat=[10.0, 20.0])
    wind = np.random.default_rng(cols).normal(0, 10, t.shape).round(2)
    ds['UGRD'] = ds['TMP'] * 0 + xr.DataArray(wind, dims=t.dims).rename(x='lon')
    ground = [0] * cols if c['derive'] and c['zero'] else a['z0']
    z = [column(a['p'], p, h, tt, r) for p, h, tt, r in zip(a['ps'], ground, a['t'], a['rh'])]
    if not c['derive']:
        ds['H'] = (('lon', a['lev']), np.array([[np.nan if v is None else v for v in col] for col in z]), {'units': 'meter'})
    levels = sorted(set(c['levels']))
    cfg = {'height_from_pressure': c['derive'], 'zero_surface_geopotential': c['zero'], 'surface_pressure_name': 'PS', 'surface_geopotential_name': 'PHIS', 'temperature_name': 'TMP',
           'relative_humidity_name': 'RH', 'geopotential_height_name': 'H', 'fields': ['UGRD', 'TMP'], 'vertical_coord_type_in': 'pressure', 'vertical_coord_type_out': 'height',
           'vertical_dim_name': a['lev'], 'vertical_levels': levels, 'vertical_level_units': 'meter'}
    init = np.datetime64('2019-01-01T00', 'ns') + np.timedelta64(c['init'], 'h')
    valid = init + np.timedelta64(c['lead'], 'h')
    if c['dim']:
        ds['time'], ds['valid_time'] = init, valid
    with scratch() as top:
        d = os.path.join(top, c['dir'])
        os.makedirs(d, exist_ok=True)
        ds.to_netcdf(os.path.join(d, 'in.nc'))
        name_out = f"out.{str(init)[:13].replace('-', '').replace('T', '')}.nc"
        with open(os.path.join(d, 'c.yaml'), 'w', encoding='utf-8') as f:
            yaml.safe_dump(cfg, f)
        p = subprocess.run([sys.executable, os.path.join(REPO, 'metcalcpy', 'vertical_interp.py'), '--datadir', d, '--input', 'in.nc', '--config', os.path.join(d, 'c.yaml'),
                            '--output', name_out] + ['--create_time_dim'] * c['dim'] + ['--ref_time_from_filename'] * c['ref'], env=dict(os.environ, PYTHONPATH=str(REPO)), capture_output=True, text=True, cwd=d)
        if p.returncode or not os.path.exists(os.path.join(d, name_out)):
            fail(f"the program ended with {p.returncode}: {p.stderr[-300:]}")
        with xr.open_dataset(os.path.join(d, name_out)) as out:
            out.load()
    if c['ref']:
        expect(list(out['forecast_reference_time'].values) == [init], f"reference time {out['forecast_reference_time'].values}, not {init}")
    if c['dim']:
        expect(list(out['valid_time'].values) == [valid] and out['TMP'].dims[0] == 'valid_time', f"valid time {out['valid_time'].values}, not {valid}; fields over {out['TMP'].dims}")
        out = out.isel(valid_time=0)
    inside = False
    for name in ('UGRD', 'TMP'):
        got = out[name].transpose('lat', 'lon', 'lev').values
        src = ds[name].transpose('lat', 'lon', a['lev']).values
        for i in range(2):
            for j in range(cols):
                for k, eta in enumerate(levels):
                    if any(v is not None and abs(v - eta) < 1 for v in z[j]):
                        continue
                    want = along(z[j], list(src[i, j]), eta) if z[j][-1] is not None else None
                    if want is None:
                        expect(is_missing(got[i, j, k]), f"{name} at {eta}: {got[i, j, k]} with surfaces {z[j]}")
                    else:
                        expect_near(got[i, j, k], want, f"{name} at {eta} with surfaces {z[j]}", 1e-3, 0.05)
                        inside = inside or (z[j][-1] is not None and eta < z[j][-1])
    return inside
