"""Longitude conversions: every grid point keeps its meridian and its data."""
import numpy as np
import xarray as xr

from vh import call, expect, expect_array, facet, ints, pick, st
import metcalcpy.contributed.spacetime.spacetime_utils as spacetime
import metcalcpy.contributed.tropical_diagnostics.utils as tropical
import metcalcpy.util.utils as u


def circle(a, b):
    return abs((a - b + 180) % 360 - 180)


@st.composite
def longitudes(draw):
    vals = draw(st.lists(st.one_of(ints(0, 359), ints(0, 1439).map(lambda i: i / 4)), min_size=1, max_size=40, unique_by=float))
    if draw(st.booleans()):
        vals = sorted(vals)
    whole = all(float(v).is_integer() for v in vals) and draw(st.booleans())
    shift = draw(pick(0, 0, 0, -180))
    return {'lons': [int(v) + shift if whole else float(v) + shift for v in vals], 'list': draw(st.booleans())}


@facet("wrap", longitudes(), quick=300, thorough=3000, rule="longitudes on both sides of the date line")
def wrap(c):
    """All longitudes in [-180, 180), from west to east, the same meridians, whole numbers staying whole."""
    arg = list(c['lons']) if c['list'] else np.array(c['lons'])
    got = call(u.convert_lon_360_to_180, arg)
    expect(list(arg) == list(c['lons']), "the longitudes passed in were changed")
    want = sorted((x + 180) % 360 - 180 for x in c['lons'])
    expect_array(got, want, "converted longitudes", 0, 1e-9)
    if all(isinstance(x, int) for x in c['lons']):
        expect(np.issubdtype(got.dtype, np.integer), f"whole longitudes became {got.dtype}")
    return len({x < 180 for x in c['lons']}) > 1


@facet("reorder", st.fixed_dictionaries({'grid': longitudes(), 'start': st.one_of(pick(-180, 0, -30, 20, 180), ints(-360, 360))}), quick=300, thorough=3000,
       rule="the start lies inside the grid")
def reorder(c):
    """The grid from the starting meridian eastward, and where each point was."""
    lons = np.array(c['grid']['lons'])
    before = lons.copy()
    got, where = call(u.convert_lons_indices, lons, c['start'], 360)
    expect((lons == before).all(), "the longitudes passed in were changed")
    n = len(lons)
    expect(sorted(where) == list(range(n)), f"indices {list(where)}")
    expect(all(c['start'] <= x < c['start'] + 360 for x in got), f"{list(got)} not within one turn of {c['start']}")
    expect(all(x < y for x, y in zip(got, got[1:])), f"{list(got)} not in eastward order")
    for x, i in zip(got, where):
        expect(circle(x, lons[i]) < 1e-9, f"{x} stands for {lons[i]}")
    return min(lons) < c['start'] % 360 < max(lons)


@st.composite
def field(draw):
    n = draw(ints(1, 12))
    east = sorted(draw(st.lists(ints(0, 35), min_size=n, max_size=n, unique=True)))
    signed = draw(st.booleans())
    lon = sorted(((10 * x + 180) % 360 - 180) if signed else 10 * x for x in east)
    return {'lon': lon, 'nt': draw(ints(1, 3)), 'nlat': draw(ints(1, 3)), 'index': draw(st.booleans()), 'float': draw(st.booleans()),
            'module': draw(pick('spacetime', 'tropical'))}


@facet("flip", field(), quick=200, thorough=2000, rule="longitudes on both sides, unequally many")
def flip(c):
    """Flipping gives every longitude in the other convention with its own column of data, in increasing order."""
    lon = np.array(c['lon'], dtype=float if c['float'] else int)
    n = len(lon)
    data = np.arange(c['nt'] * c['nlat'] * n, dtype=float).reshape(c['nt'], c['nlat'], n)
    da = xr.DataArray(data.copy(), dims=('time', 'lat', 'lon'), coords={'time': np.arange(c['nt']), 'lat': np.arange(c['nlat']) * 5.0, 'lon': lon.copy()})
    arg = da['lon'] if c['index'] else xr.DataArray(lon.copy(), dims='lon')
    f = (spacetime if c['module'] == 'spacetime' else tropical).lonFlip
    got = call(f, da, arg)
    expect((da.values == data).all() and (da['lon'].values == lon).all() and (arg.values == lon).all(), "the field or longitudes passed in were changed")
    new = got['lon'].values
    signed = lon.min() < 0
    expect(all((0 <= x < 360) if signed else (-180 <= x < 180) for x in new), f"longitudes {list(new)}")
    expect(all(x < y for x, y in zip(new, new[1:])), f"longitudes {list(new)} not increasing")
    for j, x in enumerate(new):
        i = [k for k in range(n) if circle(lon[k], x) < 1e-9]
        expect(len(i) == 1, f"longitude {x} is none of {list(lon)}")
        expect((got.values[:, :, j] == data[:, :, i[0]]).all(), f"the data at {x} are not those of {lon[i[0]]}")
    expect(got.dims == da.dims and (got['time'] == da['time']).all() and (got['lat'] == da['lat']).all(), "other coordinates changed")
    west = sum(x < 0 or x >= 180 for x in lon)
    return 0 < west < n and 2 * west != n
