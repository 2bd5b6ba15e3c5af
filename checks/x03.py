"""Radial and tangential winds around a cyclone as projections of the wind."""
import math
import os
import subprocess
import sys
from types import SimpleNamespace

import numpy as np
import xarray as xr

from vh import REPO, call, decimals, expect, expect_near, facet, fail, ints, pick, quiet, scratch, st
import metcalcpy.process_tcrmw as rmw

ORDER = ('range', 'azimuth', 'pressure', 'track_point')


@st.composite
def storm(draw, small=1):
    sizes = {'range': draw(ints(small, 4)), 'azimuth': draw(ints(small, 8)), 'pressure': draw(ints(small, 3)), 'track_point': draw(ints(1, 3))}
    if draw(st.booleans()):
        az = [360.0 * k / sizes['azimuth'] for k in range(sizes['azimuth'])]
    else:
        az = sorted(draw(st.lists(st.one_of(ints(0, 360), pick(0, 90, 180, 270, 360)), min_size=sizes['azimuth'], max_size=sizes['azimuth'], unique=True)))
    n = math.prod(sizes.values())
    seed = draw(ints(0, 10 ** 6))
    return {'sizes': [[k, sizes[k]] for k in ORDER], 'az': [float(a) for a in az], 'seed': seed, 'scale': draw(pick(1.0, 10.0, 60.0)),
            'single': draw(st.booleans()), 'missing': draw(pick(0, 0, 1)), 'file_order': draw(st.permutations(ORDER)), 'names': draw(pick(['UGRD', 'VGRD', 'TMP'], ['u', 'v', 't'])),
            'point': draw(st.lists(decimals(-40, 40, 1), min_size=2, max_size=2))}


def dataset(c):
    """Winds in the stored order, the first point carrying given components."""
    r = np.random.default_rng(c['seed'])
    shape = [n for _, n in c['sizes']]
    u, v, t = (np.round(r.normal(0, c['scale'], shape), 2) for _ in range(3))
    u.flat[0], v.flat[0] = c['point']
    if c['missing']:
        u.flat[-1] = np.nan
    dt = 'float32' if c['single'] else 'float64'
    coords = {'range': np.arange(shape[0]) + 1.0, 'azimuth': c['az'], 'pressure': 1000.0 - 50 * np.arange(shape[2])}
    ds = xr.Dataset({k: (ORDER, a.astype(dt)) for k, a in zip(c['names'], (u, v, t))}, coords=coords)
    return ds


def check(c, ds, radial, tangential):
    u, v = (ds[k].transpose(*ORDER).values for k in c['names'][:2])
    expect(np.shape(radial) == u.shape == np.shape(tangential), f"shapes {np.shape(radial)} and {np.shape(tangential)}")
    tol = 1e-5 * (1 + c['scale'] * 5)
    for j, a in enumerate(c['az']):
        # the azimuth is counted counter-clockwise from north
        out = (-math.sin(math.radians(a)), math.cos(math.radians(a)))
        left = (-out[1], out[0])
        for got, (x, y), name in ((radial, out, 'radial'), (tangential, left, 'tangential')):
            want = u[:, j].astype(float) * x + v[:, j].astype(float) * y
            expect(np.allclose(got[:, j], want, rtol=1e-5, atol=tol, equal_nan=True), f"{name} wind at azimuth {a}: {got[:, j].ravel()[:3]}, expected {want.ravel()[:3]}")
    speed = np.hypot(u, v)
    expect(np.allclose(np.hypot(radial, tangential), speed, rtol=1e-5, atol=tol, equal_nan=True), "the speed is not preserved")
    return np.nanmax(speed) > 0 and len(c['az']) > 1


@facet("components", storm(), quick=300, thorough=3000, rule="moving air and several azimuths")
def components(c):
    ds = dataset(c)
    before = ds.copy(deep=True)
    args = SimpleNamespace(u=c['names'][0], v=c['names'][1], T=c['names'][2])
    with quiet():
        radial, tangential = call(rmw.compute_wind_components, args, ds)
    expect(ds.identical(before), "the input was changed")
    return check(c, ds, radial, tangential)


@facet("rotation", st.fixed_dictionaries({'s': storm(), 'turn': ints(1, 359)}), quick=150, thorough=1000, rule="moving air")
def rotation(c):
    """Turning the storm as a whole changes neither component."""
    s = c['s']
    u, v, t = s['names']
    ds = dataset(s)
    a = math.radians(c['turn'])
    turned = ds.copy(deep=True).assign_coords(azimuth=np.array(s['az']) + c['turn'])
    turned[u] = (ORDER, ds[u].values * math.cos(a) - ds[v].values * math.sin(a))
    turned[v] = (ORDER, ds[u].values * math.sin(a) + ds[v].values * math.cos(a))
    args = SimpleNamespace(u=u, v=v, T=t)
    with quiet():
        one, two = call(rmw.compute_wind_components, args, ds), call(rmw.compute_wind_components, args, turned)
    for x, y, name in zip(one, two, ('radial', 'tangential')):
        expect(np.allclose(x, y, rtol=1e-4, atol=1e-4 * (1 + s['scale']), equal_nan=True), f"{name} wind changed when the storm was turned by {c['turn']} degrees")
    return float(np.nanmax(np.abs(one[0]))) > 0


@facet("reading", storm(), quick=30, thorough=200, rule="another order of dimensions in the file")
def reading(c):
    """A file in any order of dimensions gives the winds by range, azimuth, level and time."""
    ds = dataset(c)
    stored = ds.transpose(*c['file_order'])
    stored['track'] = ('track_line', np.arange(3.0))
    with scratch() as d, quiet():
        path = os.path.join(d, 'in.nc')
        stored.to_netcdf(path)
        got = call(rmw.read_tcrmw, path)
        got.load()
        got.close()
    for k in c['names']:
        expect(got[k].dims == ORDER, f"{k} read over {got[k].dims}")
        expect(np.array_equal(got[k].values, ds[k].values, equal_nan=True), f"{k} read as other values")
    args = SimpleNamespace(u=c['names'][0], v=c['names'][1], T=c['names'][2])
    with quiet():
        check(c, ds, *call(rmw.compute_wind_components, args, got))
    return tuple(c['file_order']) != ORDER


@facet("program", storm(small=2), quick=3, thorough=12, rule="moving air")
def program(c):
    """The program adds both components to the file and leaves the rest as it was."""
    ds = dataset(dict(c, missing=0))
    stored = ds.transpose(*c['file_order'])
    stored['track'] = ('track_line', np.arange(3.0))
    stored['RMW'] = ('track_point', np.arange(1.0, 1 + ds.sizes['track_point']))
    with scratch() as d:
        stored.to_netcdf(os.path.join(d, 'in.nc'))
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONPATH=str(REPO))
        p = subprocess.run([sys.executable, os.path.join(REPO, 'metcalcpy', 'process_tcrmw.py'), '--datadir', d, '--input', 'in.nc', '--output', 'out.nc',
                            '--u', c['names'][0], '--v', c['names'][1], '--T', c['names'][2]], env=env, capture_output=True, text=True, cwd=d)
        if p.returncode:
            fail(f"the program ended with {p.returncode}: {p.stderr[-300:]}")
        with xr.open_dataset(os.path.join(d, 'out.nc')) as out:
            out.load()
    for k in c['names']:
        expect(np.array_equal(out[k].transpose(*ORDER).values, ds[k].values), f"{k} changed in the output")
    check(c, ds, out['u_radial'].transpose(*ORDER).values, out['u_tangential'].transpose(*ORDER).values)
    return float(np.abs(ds[c['names'][0]]).max()) > 0
