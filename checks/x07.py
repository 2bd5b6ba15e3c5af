"""Blocking and weather-regime diagnostics against direct evaluation on the circle of longitudes."""
import math
import os

import netCDF4
import numpy as np

from vh import call, decimals, expect, expect_near, facet, fail, ints, is_missing, lists, pick, quiet, raises, scratch, st
import metcalcpy.contributed.blocking_weather_regime.Blocking as bl
import metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util as ut
import metcalcpy.contributed.blocking_weather_regime.WeatherRegime as wr


def close(got, want, about, scale=1.0, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    expect(got.shape == want.shape, f"{about}: shape {got.shape} instead of {want.shape}")
    bad = ~(abs(got - want) <= tol * (scale + abs(want))) & ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        fail(f"{about} at {i}: {got[i]} instead of {want[i]}")


class settings:
    """Settings in the environment for the time of one case."""
    def __init__(self, **values):
        self.values = {k: str(v) for k, v in values.items()}

    def __enter__(self):
        self.old = dict(os.environ)
        os.environ.update(self.values)

    def __exit__(self, *_):
        os.environ.clear()
        os.environ.update(self.old)


def write(path, name, a, lats, lons, init, valid):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('lat', len(lats))
        nc.createDimension('lon', len(lons))
        nc.createVariable('lat', 'f8', ('lat',))[:] = lats
        nc.createVariable('lon', 'f8', ('lon',))[:] = lons
        v = nc.createVariable(name, 'f8', ('lat', 'lon'), fill_value=-9999.0)
        v[:] = a
        v.init_time, v.valid_time = init, valid


def stamp(day, hour=0):
    d = np.datetime64('2001-11-28') + np.timedelta64(day, 'D')
    return str(d).replace('-', '') + f'_{hour:02d}0000'


# ------------------------------------------------------------------ reading
@st.composite
def reading(draw):
    ns, nd = draw(ints(1, 3)), draw(ints(1, 4))
    miss = draw(st.lists(ints(0, ns * nd - 1), min_size=min(1, ns * nd - 1), max_size=2, unique=True)) if draw(ints(0, 3)) else []
    return {'ns': ns, 'nd': nd, 'nlat': draw(ints(1, 3)), 'nlon': draw(ints(1, 4)), 'seed': draw(ints(0, 10 ** 6)), 'missing': miss if draw(ints(0, 9)) else list(range(ns * nd)),
            'leads': draw(lists(ints(0, 130), ns * nd, ns * nd))}


@facet("reading", reading(), quick=100, thorough=500, rule="several seasons with missing files")
def read(c):
    n = c['ns'] * c['nd']
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(5500, 100, (n, c['nlat'], c['nlon'])), 1)
    lats, lons = 90.0 - np.arange(c['nlat']), np.arange(c['nlon']) * 1.0
    with scratch() as d, quiet():
        files, init, valid, lead = [], [], [], []
        for i in range(n):
            if i in c['missing']:
                files.append('missing')
                a[i] = np.nan
                init.append(''), valid.append(''), lead.append('')
                continue
            day, hours = i, c['leads'][i]
            init.append(stamp(day)), valid.append(stamp(day + hours // 24, hours % 24)), lead.append(f'{hours:02d}0000')
            files.append(os.path.join(d, f'{i}.nc'))
            write(files[-1], 'Z500', a[i], lats, lons, init[-1], valid[-1])
        if len(c['missing']) == n:
            expect(isinstance(raises(ut.read_nc_met, files, 'Z500', c['ns'], c['nd']), Exception), "no file found but data returned")
            return False
        got, glat, glon, t = call(ut.read_nc_met, files, 'Z500', c['ns'], c['nd'])
    close(got, a.reshape(c['ns'], c['nd'], c['nlat'], c['nlon']), "fields read", 1)
    close(glat, lats, "latitudes read")
    close(glon, lons, "longitudes read")
    for name, want in (('init', init), ('valid', valid), ('lead', lead)):
        expect([list(map(str, x)) for x in t[name]] == [want[i * c['nd']:(i + 1) * c['nd']] for i in range(c['ns'])], f"{name} times {t[name]} instead of {want} in {c['ns']} seasons")
    return bool(c['missing']) and c['ns'] > 1


# ------------------------------------------------------------------ central blocking latitude
@st.composite
def variability(draw):
    return {'ns': draw(ints(1, 2)), 'nd': draw(ints(2, 4)), 'nlat': draw(ints(2, 8)), 'nlon': 360 if draw(ints(0, 3)) else draw(ints(9, 30)), 'top': draw(ints(40, 90)), 'down': draw(st.booleans()),
            'points': draw(pick(1, 3, 5, 9)), 'seed': draw(ints(0, 10 ** 6)), 'missing': draw(st.booleans()), 'label': draw(pick('OBS', 'FCST'))}


@facet("latitude", variability(), quick=40, thorough=250, rule="latitudes averaged over several longitudes")
def central(c):
    r = np.random.default_rng(c['seed'])
    n = c['ns'] * c['nd']
    lats = c['top'] - np.arange(c['nlat']) * 1.0
    if not c['down']:
        lats = lats[::-1].copy()
    lons = np.arange(c['nlon']) * 360.0 / c['nlon']
    a = np.round(r.normal(0, 50, (n, c['nlat'], c['nlon'])), 1)
    gone = [n - 1] if c['missing'] and c['nd'] > 2 else []
    with scratch() as d, quiet(), settings(**{c['label'] + '_SMOOTHING_PTS': c['points'], c['label'] + '_BLOCKING_ANOMALY_VAR': 'ANOM'}):
        files = []
        for i in range(n):
            files.append('missing' if i in gone else os.path.join(d, f'{i}.nc'))
            if i not in gone:
                write(files[-1], 'ANOM', a[i], lats, lons, stamp(i), stamp(i))
        got, glat, glon, weighted, t = call(lambda: bl.BlockingCalculation(c['label']).run_CBL(files, c['ns'], c['nd']))
    for i in gone:
        a[i] = np.nan
    a = a.reshape(c['ns'], c['nd'], c['nlat'], c['nlon'])
    sd = np.sqrt(np.nanmean((a - np.nanmean(a, axis=1)[:, None]) ** 2, axis=1)) * np.sqrt(np.maximum(np.cos(np.radians(lats)), 0))[None, :, None]
    close(weighted, sd, "weighted variability", 50, 1e-8)
    top = np.sort(sd, axis=1)
    if (top[:, -1] - top[:, -2] < 1e-6).any():
        return False
    where = lats[np.argmax(sd, axis=1)]
    half = c['points'] // 2
    want = np.array([[int(sum(row[(x + k) % c['nlon']] for k in range(-half, half + 1)) / c['points'] + 1e-9) for x in range(c['nlon'])] for row in where])
    close(got, want, f"central blocking latitude over {c['points']} of {c['nlon']} longitudes")
    return half > 0


# ------------------------------------------------------------------ instantaneous blocking
@st.composite
def heights(draw):
    deltas = draw(pick([-5, 0, 5], [0], [-2, 0, 2], [0, 3], [-4, 1, 6]))
    limits = draw(pick(30, 20, 10, 4))
    reach = limits // 2 + max(map(abs, deltas))
    nlat = draw(ints(2 * reach + 3, 91)) if draw(st.booleans()) else 91
    return {'deltas': deltas, 'limits': limits, 'nlat': nlat, 'nlon': draw(ints(1, 6)), 'nd': draw(ints(1, 3)), 'ns': draw(ints(1, 2)), 'reach': reach, 'seed': draw(ints(0, 10 ** 6)),
            'third': draw(st.booleans()), 'slope': draw(pick(0, 1, 3))}


@facet("instant", heights(), quick=120, thorough=700, rule="some longitudes blocked and some not")
def instantaneous(c):
    r = np.random.default_rng(c['seed'])
    n = c['ns'] * c['nd']
    rows = r.integers(c['reach'], c['nlat'] - c['reach'], (2, c['nlon']))
    cbl = 90.0 - rows
    if c['third']:
        cbl[1] = cbl[0] - (cbl[0] > 90 - (c['nlat'] - c['reach'] - 1))
    a = np.round(r.normal(0, 30, (n, c['nlat'], c['nlon'])), 1) + c['slope'] * np.arange(c['nlat'])[None, :, None]
    centre = np.floor(90 - cbl.mean(0) + 1e-9).astype(int)
    lats, lons = 90.0 - np.arange(c['nlat']), np.arange(c['nlon']) * 1.0
    with scratch() as d, quiet(), settings(FCST_LAT_DELTA=','.join(map(str, c['deltas'])), FCST_NORTH_SOUTH_LIMITS=c['limits'], FCST_BLOCKING_VAR='HGT'):
        calc = bl.BlockingCalculation('FCST')
        files = [os.path.join(d, f'{i}.nc') for i in range(n)]
        for i in range(n):
            write(files[i], 'HGT', a[i], lats, lons, stamp(i), stamp(i))
        got, t = call(calc.run_Calc_IBL, cbl, files, c['ns'], c['nd'])
        flags, index = call(calc.run_mod_blocking1d, a, cbl.mean(0), lats, lons, 'PH')
    got = np.asarray(got).reshape(n, c['nlon'])
    seen = set()
    half = c['limits'] // 2
    for i in range(n):
        for x in range(c['nlon']):
            best = -math.inf
            for k in c['deltas']:
                mid = centre[x] - k
                best = max(best, a[i, mid - half:mid + 1, x].mean() - a[i, mid:mid + half + 1, x].mean())
            expect_near(index[i, x], best, f"blocking index on day {i} at longitude {x}", 1e-9, 1e-8)
            if abs(best) < 1e-8:
                continue
            seen.add(best > 0)
            for name, g in (("season", got), ("day", flags)):
                expect(g[i, x] == (best > 0), f"{name}: longitude {x} of day {i} marked {g[i, x]} with index {best}")
    return len(seen) == 2


# ------------------------------------------------------------------ groups of blocked longitudes
@st.composite
def circle(draw):
    size, gap = draw(ints(1, 20)), draw(ints(1, 9))
    if draw(st.booleans()):
        size, gap = 15, 7
    days = []
    for _ in range(draw(ints(1, 3))):
        marks, at = set(), draw(ints(0, 359))
        start = at
        for _ in range(draw(ints(0, 6))):
            run = draw(st.one_of(ints(1, 4), ints(max(1, size - 2), size + 2), ints(1, 40)))
            marks |= {(at + k) % 360 for k in range(run)}
            at += run + draw(st.one_of(ints(0, gap + 1), ints(0, 60)))
            if at - start > 355:
                break
        days.append(sorted(marks))
    if draw(ints(0, 15)) == 0:
        days[0] = list(range(360))
    return {'size': size, 'gap': gap, 'days': days}


def grouped(marks, gap, size):
    """Longitudes in groups of marks no further apart than the gap, groups spanning at least the size."""
    marks = sorted(marks)
    if not marks:
        return set()
    breaks = [i for i in range(len(marks)) if (marks[(i + 1) % len(marks)] - marks[i]) % 360 > gap or len(marks) == 1]
    if not breaks:
        return set(range(360))
    out = set()
    for b, e in zip(breaks, breaks[1:] + [breaks[0] + len(marks)]):
        first, last = marks[(b + 1) % len(marks)], marks[e % len(marks)]
        span = (last - first) % 360 + 1
        if span >= size:
            out |= {(first + k) % 360 for k in range(span)}
    return out


@facet("groups", circle(), quick=400, thorough=3000, rule="a group reaches across the first longitude or closes a gap")
def groups(c):
    a = np.zeros((1, len(c['days']), 360))
    for i, m in enumerate(c['days']):
        a[0, i, m] = 1
    with settings(OBS_IBL_DIST=c['gap'], OBS_IBL_IN_GIBL=c['size']), quiet():
        got = call(bl.BlockingCalculation('OBS').run_Calc_GIBL, a.copy(), np.arange(360.0))
    hit = False
    for i, m in enumerate(c['days']):
        want = grouped(m, c['gap'], c['size'])
        have = {int(x) for x in np.nonzero(got[0, i])[0]}
        if have != want:
            fail(f"groups of at least {c['size']} closed over gaps of {c['gap']} from {m}: missing {sorted(want - have)}, extra {sorted(have - want)}")
        hit |= bool(want - set(m)) or {0, 359} <= want
    expect(set(np.unique(got)) <= {0.0, 1.0}, "groups are marked by ones")
    return hit


# ------------------------------------------------------------------ weather regimes
def regimes(label, **values):
    with scratch() as d, settings(SCRIPT_OUTPUT_BASE=d, **{label + k: v for k, v in values.items()}):
        return wr.WeatherRegimeCalculation(label)


@st.composite
def days(draw):
    n, step = draw(ints(1, 7)), draw(ints(1, 6))
    return {'n': n, 'step': step, 'seasons': draw(lists(lists(ints(1, n), 6, 6) if draw(st.booleans()) else lists(ints(1, n), 9, 9), 1, 3))}


@facet("frequency", days(), quick=200, thorough=1000, rule="several seasons, windows and regimes")
def frequency(c):
    a = np.array(c['seasons'], float)
    if len({len(s) for s in c['seasons']}) > 1:
        return False
    calc = regimes('OBS', _WR_NUMBER=c['n'], _WR_FREQ=c['step'])
    freq, length, step = call(calc.compute_wr_freq, a)
    m = a.shape[1] - c['step'] + 1
    expect(length == m and step == c['step'], f"{length} windows of {step} days in {a.shape[1]} days")
    expect(freq.shape == (c['n'], len(a), m), f"counts of shape {freq.shape}")
    for w in range(c['n']):
        for y in range(len(a)):
            for i in range(m):
                expect(freq[w, y, i] == sum(v == w + 1 for v in c['seasons'][y][i:i + c['step']]), f"{freq[w, y, i]} days of regime {w + 1} in {c['seasons'][y][i:i + c['step']]}")
    return len(a) > 1 and c['n'] > 1 and m > 1


@st.composite
def clusters(draw):
    return {'n': draw(ints(2, 5)), 'ns': draw(ints(1, 3)), 'nd': draw(ints(6, 12)), 'nlat': draw(ints(1, 3)), 'nlon': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6)), 'flat': draw(st.booleans()), 'label': draw(pick('OBS', 'FCST'))}


@facet("classes", clusters(), quick=60, thorough=300, rule="regimes of different sizes")
def classify(c):
    r = np.random.default_rng(c['seed'])
    centres = r.normal(0, 40, (c['n'], c['nlat'] * c['nlon']))
    total = c['ns'] * c['nd']
    who = r.integers(0, c['n'], total) ** 2 // max(1, c['n'] - 1)
    a = centres[who] + r.normal(0, 1, (total, c['nlat'] * c['nlon']))
    shape = (total, c['nlat'], c['nlon']) if c['flat'] else (c['ns'], c['nd'], c['nlat'], c['nlon'])
    calc = regimes(c['label'], _WR_NUMBER=c['n'])
    with quiet():
        patterns, n, share, label = call(calc.run_K_means, a.copy(), {}, shape)
    expect(n == c['n'] and patterns.shape == (c['n'], c['nlat'], c['nlon']) and label.shape == shape[:-2], f"{n} patterns of shape {patterns.shape}, labels of shape {label.shape}")
    lab = np.asarray(label).reshape(-1)
    expect(set(np.unique(lab)) <= set(range(1, n + 1)), f"labels {sorted(set(lab))}")
    expect(all(share[i] >= share[i + 1] - 1e-12 for i in range(n - 1)), f"shares {share} not in falling order")
    p = patterns.reshape(n, -1)
    for k in range(n):
        expect_near(share[k], (lab == k + 1).mean(), f"share of regime {k + 1}", 1e-9, 1e-9)
    for i in range(total):
        d = ((a[i] - p) ** 2).sum(1)
        expect(d[int(lab[i]) - 1] <= d.min() * (1 + 1e-6) + 1e-6, f"day {i} is labelled {lab[i]} but regime {d.argmin() + 1} is nearer")
    return len(set(np.round(share, 9))) > 1


@st.composite
def fields(draw):
    return {'ny': draw(ints(3, 6)), 'nd': draw(ints(1, 4)), 'nlat': draw(ints(1, 3)), 'nlon': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6)), 'trend': draw(pick(0, 0, 3)), 'grid': draw(st.booleans())}


@facet("weights", fields(), quick=100, thorough=500, rule="several latitudes, years and days")
def weights(c):
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(5500, 50, (c['ny'], c['nd'], c['nlat'], c['nlon'])), 1)
    lats = 80.0 - 25 * np.arange(c['nlat'])
    arg = np.repeat(lats[:, None], c['nlon'], axis=1) if c['grid'] and c['nlon'] == 1 else lats
    lons = np.arange(c['nlon']) * 10.0
    calc = regimes('OBS')
    got, flat = call(calc.weights_detrend, arg, lons, a.copy())
    want = (a - a.mean(0)) * np.cos(np.radians(lats))[None, None, :, None]
    close(got, want, "weighted anomalies", 50, 1e-8)
    close(flat, want.reshape(c['ny'] * c['nd'], -1), "weighted anomalies by day", 50, 1e-8)
    return c['nlat'] > 1 and c['nd'] > 1


@facet("components", fields(), quick=80, thorough=400, rule="several days and points")
def components(c):
    r = np.random.default_rng(c['seed'])
    a = np.round(r.normal(0, 50, (c['ny'], c['nd'], c['nlat'], c['nlon'])), 1) + c['trend'] * np.arange(c['ny'])[:, None, None, None]
    t = np.arange(c['ny']) - (c['ny'] - 1) / 2
    m = a - a.mean(0) - t[:, None, None, None] * np.tensordot(t, a, (0, 0)) / (t @ t)
    m2 = m.reshape(c['ny'] * c['nd'], -1)
    s = np.linalg.svd(m2, compute_uv=False)
    rank = int((s > 1e-6 * s[0]).sum()) if s[0] > 1e-6 else 0
    if rank == 0 or m2.shape[1] == 1:
        return False
    for n in {rank, max(1, rank - 1)}:
        if n < rank and s[n - 1] - s[n] < 1e-3 * s[0]:
            continue
        calc = regimes('OBS', _NUM_PCS=n)
        with quiet():
            eof, pc, num, var = call(calc.Calc_EOF, a.copy())
            back = call(calc.reconstruct_heights, eof, pc, m2.shape)
        close(var, 100 * s[:n] ** 2 / (s ** 2).sum(), "variance percentages", 1, 1e-7)
        expect(eof.shape == (n, c['nlat'], c['nlon']) and pc.shape == (len(m2), n), f"patterns of shape {eof.shape}, series of shape {pc.shape}")
        close(pc.T @ pc / (len(m2) - 1), np.eye(n), "series of unit variance at right angles", 1, 1e-7)
        u, sv, vt = np.linalg.svd(m2, full_matrices=False)
        close(back, (u[:, :n] * sv[:n]) @ vt[:n], f"heights rebuilt from {n} of {rank} components", 50, 1e-6)
    return c['nd'] > 1 and rank > 1


@facet("elbow", st.tuples(ints(4, 7), ints(8, 20), ints(0, 10 ** 6)).map(list), quick=12, thorough=60, rule="every case")
def elbow(c):
    most, n, seed = c
    a = np.random.default_rng(seed).normal(0, 4e5, (n, 3))
    calc = regimes('OBS', _NUM_CLUSTERS=most)
    with quiet():
        k, d, best, line, curve = call(calc.run_elbow, a.copy())
    expect(list(k) == list(range(1, most)), f"cluster counts {list(k)}")
    expect_near(curve[0], ((a - a.mean(0)) ** 2).sum() * 1e-10, "spread of a single cluster", 1e-6)
    x = np.arange(1, most)
    close(line, curve[0] + (curve[-1] - curve[0]) * (x - 1) / (most - 2), "line between the ends", 1, 1e-6)
    far = (curve - line) * (most - 2) / math.hypot(most - 2, curve[-1] - curve[0])
    close(d, far, "distance from the line", 1, 1e-6)
    expect(far[best[0]] <= far.min() + 1e-9, f"elbow at {best} of distances {far}")
    return True


@st.composite
def relabelled(draw):
    n = draw(ints(2, 5))
    return {'n': n, 'order': draw(st.permutations(list(range(1, n + 1)))), 'ns': draw(ints(1, 3)), 'nd': draw(ints(1, 6)), 'seed': draw(ints(0, 10 ** 6))}


@facet("relabel", relabelled(), quick=150, thorough=800, rule="the order changes")
def relabel(c):
    r = np.random.default_rng(c['seed'])
    n, order = c['n'], list(c['order'])
    patterns = r.normal(0, 5, (n, 3, 4))
    share = r.uniform(0, 1, n)
    label = r.integers(1, n + 1, (c['ns'], c['nd'])).astype(float)

    def check(p, s, w, about):
        close(p, patterns[[o - 1 for o in order]], f"{about} patterns in order {order}")
        close(s, share[[o - 1 for o in order]], f"{about} shares in order {order}")
        close(w, [[order.index(int(v)) + 1 for v in row] for row in label], f"{about} labels {label.tolist()} in order {order}")
    check(*call(ut.reorder_fcst_regimes, patterns.copy(), share.copy(), label.copy(), n, order), "given")
    obs = patterns[[o - 1 for o in order]] * r.uniform(0.5, 2, (n, 1, 1)) + r.normal(0, 0.2, (n, 3, 4)) + 3
    check(*call(ut.reorder_fcst_regimes_correlate, obs, patterns.copy(), share.copy(), label.copy(), n), "matched")
    return order != sorted(order)


@st.composite
def written(draw):
    return {'ns': draw(ints(1, 2)), 'nd': draw(ints(1, 5)), 'kind': draw(pick('text', 'netcdf')), 'first': draw(ints(0, 900)), 'seed': draw(ints(0, 10 ** 6)), 'again': draw(st.booleans()), 'label': draw(pick('OBS', 'FCST'))}


@facet("regimefile", written(), quick=80, thorough=400, rule="several days across a month or written twice")
def regime_file(c):
    r = np.random.default_rng(c['seed'])
    n = c['ns'] * c['nd']
    days = [c['first'] + 365 * (i // c['nd']) + i % c['nd'] for i in range(n)]
    valid = [stamp(d) for d in days]
    label = r.integers(1, 7, (c['ns'], c['nd'])).astype(float)
    with scratch() as d, quiet(), settings(SCRIPT_OUTPUT_BASE=d, **{c['label'] + '_WR_OUTPUT_FILE_TYPE': c['kind'], c['label'] + '_WR_OUTPUT_FILE': 'regimes'}):
        calc = wr.WeatherRegimeCalculation(c['label'])
        times = {'valid': np.array(valid).reshape(c['ns'], c['nd'])}
        if c['again']:
            call(calc.write_K_means_file, {'valid': times['valid'][:1]}, label[:1] + 1)
        call(calc.write_K_means_file, times, label)
        if c['kind'] == 'text':
            with open(os.path.join(d, 'regimes.txt')) as f:
                lines = f.read().splitlines()
            expect(lines[0].lstrip('# ').split() == ['Year', 'Month', 'Day', 'WeatherRegime'], f"header {lines[0]}")
            rows = [(x[0] + x[1] + x[2], float(x[3])) for x in map(str.split, lines[1:])]
        else:
            with netCDF4.Dataset(os.path.join(d, 'regimes.nc')) as nc:
                rows = [(str(int(a)), float(b)) for a, b in zip(nc['date'][:], nc['wrnum'][:])]
                when = netCDF4.num2date(nc['time'][:], nc['time'].units, only_use_cftime_datetimes=False)
                expect([w.strftime('%Y%m%d') if hasattr(w, 'strftime') else None for w in np.atleast_1d(when)] == [v[:8] for v in valid], f"times {when} instead of {valid}")
    want = [(v[:8], float(x)) for v, x in zip(valid, label.reshape(-1))]
    expect(rows == want, f"{c['kind']} file holds {rows} instead of {want}")
    return n > 1 and (c['again'] or len({v[:6] for v in valid}) > 1)


@st.composite
def pairs(draw):
    word = st.text('ABCxyz_09', min_size=1, max_size=12)
    return {'ns': draw(ints(1, 2)), 'nd': draw(ints(1, 3)), 'np': draw(ints(1, 3)), 'seed': draw(ints(0, 10 ** 6)), 'words': draw(lists(word, 9, 9)), 'lead': draw(ints(0, 130)), 'gone': draw(pick(None, None, 0)),
            'level': draw(pick('500', 'NA'))}


@facet("pairs", pairs(), quick=100, thorough=500, rule="several days and points")
def pair_files(c):
    r = np.random.default_rng(c['seed'])
    shape = (c['ns'], c['nd'], c['np'])
    obs, fcst = np.round(r.normal(0, 300, shape), 5), np.round(r.normal(0, 300, shape), 5)
    lat, lon = np.round(r.uniform(-90, 90, c['np']), 3), np.round(r.uniform(0, 360, c['np']), 3)
    grid = lambda f: [[f(y * c['nd'] + d) for d in range(c['nd'])] for y in range(c['ns'])]
    tf = {'valid': grid(lambda i: '' if i == c['gone'] else stamp(i * 3, 6)), 'lead': grid(lambda i: f'{c["lead"]:02d}0000')}
    to = {'valid': grid(lambda i: stamp(i * 3, 12)), 'lead': grid(lambda i: '000000')}
    model, desc, fvar, funit, flev, ovar, ounit, olev, mask = c['words']
    with scratch() as d, quiet():
        call(ut.write_mpr_file, obs, fcst, lat, lon, to, tf, model, desc, fvar, funit, flev, ovar, ounit, olev, mask, c['level'], os.path.join(d, 'out'))
        names = set()
        for y in range(c['ns']):
            for k in range(c['nd']):
                v = tf['valid'][y][k]
                if not v:
                    continue
                name = f"out_{tf['lead'][y][k]}L_{v}V.stat"
                names.add(name)
                expect(os.path.exists(os.path.join(d, name)), f"no file {name} among {os.listdir(d)}")
                with open(os.path.join(d, name)) as f:
                    lines = [x.split() for x in f.read().splitlines()]
                head = ['VERSION', 'MODEL', 'DESC', 'FCST_LEAD', 'FCST_VALID_BEG', 'FCST_VALID_END', 'OBS_LEAD', 'OBS_VALID_BEG', 'OBS_VALID_END', 'FCST_VAR', 'FCST_UNITS', 'FCST_LEV', 'OBS_VAR', 'OBS_UNITS',
                        'OBS_LEV', 'OBTYPE', 'VX_MASK', 'INTERP_MTHD', 'INTERP_PNTS', 'FCST_THRESH', 'OBS_THRESH', 'COV_THRESH', 'ALPHA', 'LINE_TYPE']
                expect(lines[0] == head, f"header {lines[0]}")
                expect(len(lines) == c['np'] + 1, f"{len(lines) - 1} pairs instead of {c['np']}")
                o = to['valid'][y][k]
                for p, line in enumerate(lines[1:]):
                    want = [model, desc, tf['lead'][y][k], v, v, to['lead'][y][k], o, o, fvar, funit, flev, ovar, ounit, olev]
                    expect(line[1:15] == want and line[16] == mask and line[23] == 'MPR', f"pair line {line}, expected {want}")
                    expect(line[24:26] == [str(c['np']), str(p + 1)] and line[29] == c['level'], f"numbering of the pair line {line}")
                    for at, x in ((27, lat[p]), (28, lon[p]), (31, fcst[y, k, p]), (32, obs[y, k, p])):
                        expect_near(float(line[at]), x, f"value {at} of {line}", 0, 6e-5)
        expect(set(os.listdir(d)) == names, f"files {sorted(os.listdir(d))} instead of {sorted(names)}")
    return c['ns'] * c['nd'] > 1 and c['np'] > 1


@facet("steps", st.tuples(lists(pick('CBL', 'IBL', 'GIBL', 'PLOTCBL', 'KMEANS'), 0, 4), lists(pick('CBL', 'IBL', 'ELBOW'), 0, 3)).map(list), quick=40, thorough=100, rule="several steps")
def steps(c):
    fcst, obs = c
    with settings(FCST_STEPS='+'.join(fcst), OBS_STEPS='+'.join(obs)):
        got = call(ut.parse_steps)
    expect(list(got[0]) == (fcst or ['']) and list(got[1]) == (obs or ['']), f"steps {got} instead of {c}")
    return len(fcst) > 1 and len(obs) > 0


# ------------------------------------------------------------------ blocks lasting long enough
@st.composite
def events(draw):
    seasons = []
    for _ in range(draw(ints(1, 2))):
        day, season = draw(ints(0, 5)), []
        kind = draw(pick('one', 'pair', 'move'))
        for _ in range(draw(ints(0, 3))):
            n = draw(ints(1, 8))
            if day + n > 20:
                break
            if kind == 'pair':
                season.append([day, n, draw(ints(0, 60)), draw(ints(15, 60)), 0])
                season.append([day + draw(ints(0, max(0, min(2, 20 - day - n)))), draw(ints(1, n)), draw(ints(180, 240)), draw(ints(15, 60)), 0])
            elif kind == 'one':
                season.append([day, n, draw(ints(0, 359)), draw(ints(15, 60)), 0])
            else:
                season.append([day, n, draw(ints(40, 260)), draw(ints(25, 50)), draw(ints(-4, 4))])
            day += n + draw(ints(5, 7))
        seasons.append(season)
    return seasons


@facet("persistence", events(), quick=150, thorough=900, rule="some groups last long enough and some do not")
def persistence(c):
    a, want = np.zeros((len(c), 24, 360)), np.zeros((len(c), 24, 360))
    for y, season in enumerate(c):
        for day, n, start, width, step in season:
            for k in range(n):
                at = (start + step * k + np.arange(width)) % 360
                a[y, day + k, at] = 1
                want[y, day + k, at] = n >= 5
    with settings(), quiet():
        got = call(bl.BlockingCalculation('OBS').run_Calc_Blocks, a.copy(), a.copy(), np.arange(360.0), None)
    expect(np.shape(got) == a.shape, f"blocks of shape {np.shape(got)}")
    for y, d in zip(*np.nonzero((got != want).any(2))):
        fail(f"season {y} day {d} with groups (day, days, first longitude, width, move) {c}: blocked at {np.nonzero(got[y, d])[0].tolist()} instead of {np.nonzero(want[y, d])[0].tolist()}")
    return len({e[1] >= 5 for s in c for e in s}) == 2
