"""Track revision diagnostics: per-object series joined with a missing value between objects."""
import math

import numpy as np
import pandas as pd

from vh import call, expect, expect_near, facet, ints, is_missing, st
from metcalcpy.util.utils import calculate_mtd_revision_stats


@st.composite
def tracks(draw):
    k = draw(st.one_of(ints(1, 4), ints(1, 12)))
    ids = [f"F{i:03d}" for i in range(k)]
    kind = draw(st.sampled_from(['free', 'free', 'walk', 'ties', 'const']))
    rows, x = [], 0
    for i in ids:
        for _ in range(draw(st.one_of(ints(1, 4), ints(1, 15)))):
            if kind == 'walk':
                x += draw(ints(-9, 9))
                v = x
            elif kind == 'const':
                v = 4
            else:
                v = draw(ints(0, 3)) if kind == 'ties' else draw(ints(-400, 400)) / 4
            rows.append([i, v])
    order = draw(st.sampled_from(['grouped', 'interleaved']))
    if order == 'interleaved':
        rows = draw(st.permutations(rows)) if len(rows) < 40 else rows[::2] + rows[1::2]
    return {'rows': [list(r) for r in rows], 'lag': draw(st.one_of(st.none(), ints(0, 30))), 'extra': draw(st.booleans()),
            'index': draw(st.booleans())}


def series_of(rows):
    """Objects in order of first appearance, each object's values in row order, a gap between objects."""
    order, by = [], {}
    for i, v in rows:
        if i not in by:
            by[i] = []
            order.append(i)
        by[i].append(v)
    out = []
    for i in order:
        out += by[i] + [None]
    return out[:-1]


def median(v):
    s = sorted(v)
    m = len(s) // 2
    return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2


def close(got, want, what):
    """Reported with two decimals."""
    expect(abs(float(got) - want) <= 0.00501 + 1e-9, f"{what}: got {got}, expected {want:.6f}")


@facet("stats", tracks(), quick=400, thorough=4000, rule="two or more objects and five or more values")
def stats_(c):
    df = pd.DataFrame(c['rows'], columns=['revision_id', 'stat_value'])
    if c['extra']:
        df.insert(0, 'model', 'M')
    if c['index']:
        df.index = [7] * len(df)
    before = df.copy()
    got = call(calculate_mtd_revision_stats, df, c['lag'])
    expect(df.equals(before), "the input table was changed")
    s = series_of(c['rows'])
    valid = [v for v in s if v is not None]
    n = len(s)
    m = math.fsum(valid) / len(valid)
    lag = min(math.floor(10 * math.log10(n)) if c['lag'] is None else c['lag'], n - 1)

    def cov(k):
        p = [(s[i + k] - m) * (s[i] - m) for i in range(n - k) if s[i] is not None and s[i + k] is not None]
        return math.fsum(p) / (len(p) + k)
    close(got['auto_cor_p'], 0.06270678 / math.sqrt(n), "autocorrelation limit")
    if len(set(valid)) == 1:
        expect(is_missing(got['auto_cor_r']), f"autocorrelation of constant values is {got['auto_cor_r']}")
        expect(is_missing(got['ww_run']), f"runs probability of constant values is {got['ww_run']}")
        return False
    close(got['auto_cor_r'], cov(lag) / cov(0), f"autocorrelation at lag {lag} of {s}")
    t = median(valid)
    near_tie = any(0 < abs(v - t) < 1e-9 for v in valid)
    side = [v > t for v in valid if v != t]
    up, down = side.count(True), side.count(False)
    k = up + down
    var = 2 * up * down * (2 * up * down - k) / (k * k * (k - 1)) if k > 1 else 0
    if var <= 0:
        expect(is_missing(got['ww_run']), f"runs probability without two sides is {got['ww_run']}")
        return False
    runs = 1 + sum(1 for i in range(1, k) if side[i] != side[i - 1])
    p = 0.5 * math.erfc(-(runs - 1 - 2 * up * down / k) / math.sqrt(var) / math.sqrt(2))
    if not near_tie:
        close(got['ww_run'], p, f"runs probability of {s}")
    return n > len(valid) and len(valid) > 4


@facet("ids", st.fixed_dictionaries({'t': tracks(), 'mul': st.sampled_from([2, 4, 8]), 'add': ints(-64, 64)}), quick=150, thorough=1500,
       rule="two or more objects and five or more values")
def ids(c):
    """Renaming the objects, or shifting and scaling all values, changes nothing."""
    rows = c['t']['rows']
    a = call(calculate_mtd_revision_stats, pd.DataFrame(rows, columns=['revision_id', 'stat_value']), c['t']['lag'])
    names = {i: f"new {90 - k}" for k, i in enumerate(dict.fromkeys(r[0] for r in rows))}
    b = call(calculate_mtd_revision_stats, pd.DataFrame([[names[i], v * c['mul'] + c['add']] for i, v in rows],
                                                        columns=['revision_id', 'stat_value']), c['t']['lag'])
    for k in ('ww_run', 'auto_cor_p', 'auto_cor_r'):
        if is_missing(a[k]) or is_missing(b[k]):
            expect(is_missing(a[k]) and is_missing(b[k]), f"{k} {a[k]} became {b[k]}")
        else:
            expect(abs(a[k] - b[k]) <= 0.0101, f"{k} {a[k]} became {b[k]}")
    return len(names) > 1 and len(rows) > 4


@facet("nothing", st.fixed_dictionaries({'cols': st.sampled_from([['stat_value', 'revision_id'], ['stat_value'], ['revision_id'], ['a', 'b']]),
                                         'n': ints(0, 3)}), quick=20, rule="no usable data")
def nothing(c):
    if set(c['cols']) == {'stat_value', 'revision_id'}:
        df = pd.DataFrame(columns=c['cols'])
    else:
        df = pd.DataFrame({k: [1.0] * c['n'] for k in c['cols']})
    got = call(calculate_mtd_revision_stats, df)
    expect(all(is_missing(v) for v in got.values()), f"{got} from no data")
    return True
