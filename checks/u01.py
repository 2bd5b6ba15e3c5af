"""Table and list utilities against their plain definitions."""
import itertools
import math
import re
from fractions import Fraction

import numpy as np
import pandas as pd

from vh import call, decimals, expect, expect_near, facet, ints, is_missing, lists, pick, raises, st
import metcalcpy.util.met_stats as met
import metcalcpy.util.utils as u


@facet("rounding", st.fixed_dictionaries({'k': st.one_of(ints(-40, 40), ints(-10 ** 6, 10 ** 6), ints(-10 ** 11, 10 ** 11)), 'down': ints(1, 6), 'd': ints(0, 7),
                                          'half': st.booleans()}), quick=800, thorough=10000, rule="a tie between two rounded values")
def rounding(c):
    """A number with few decimals; ties that a double holds exactly go up, everything else to the nearest."""
    if c['half']:
        x = (c['k'] + 0.5) / 10 ** c['d']
    elif c['down'] == 1:
        x = c['k'] / 2 ** (c['d'] + 1)           # ties held exactly
    else:
        x = c['k'] / 10 ** c['down']
    got = call(u.round_half_up, x, c['d'])
    exact = Fraction(x)
    scaled = exact * 10 ** c['d'] + Fraction(1, 2)
    want = Fraction(math.floor(scaled), 10 ** c['d'])
    if scaled == math.floor(scaled) or abs(scaled - round(scaled)) > (abs(scaled) + 1) / 2 ** 48:
        expect(float(want) == got, f"{x!r} rounded to {c['d']} decimals is {got!r}, expected {float(want)!r}")
    else:                      # a tie only up to the precision of the number: one of the two neighbours
        expect(abs(Fraction(got) * 10 ** c['d'] - exact * 10 ** c['d']) <= Fraction(1, 2) + (abs(scaled) + 1) / 2 ** 48, f"{x!r} rounded to {c['d']} decimals is {got!r}")
    expect(call(u.round_half_up, got, c['d']) == got, f"rounding {got!r} again changes it")
    return scaled == math.floor(scaled)


NAMES = ['total', 'fy_oy', 'fbar', 'obar', 'x_1', 'x', 'total_orig']


@st.composite
def table(draw):
    names = draw(st.permutations(NAMES))[:draw(ints(1, 6))]
    cell = st.one_of(ints(-5, 5).map(float), decimals(-100, 100, 2), pick(None))
    rows = draw(st.lists(st.lists(cell, min_size=len(names), max_size=len(names)), min_size=0, max_size=8))
    hole = draw(pick(None, *names))
    if hole and draw(st.booleans()):
        for r in rows:
            r[names.index(hole)] = None
    return {'names': names, 'rows': rows, 'ask': draw(pick(*NAMES)), 'text': draw(st.booleans())}


@facet("columns", table(), quick=500, thorough=6000, rule="the named column exists with and without missing values")
def columns(c):
    names = np.array(c['names'] + (['vx_mask'] if c['text'] else []))
    data = [[np.nan if v is None else v for v in r] + (['E'] if c['text'] else []) for r in c['rows']]
    v = np.array(data, dtype=object if c['text'] else float).reshape(len(data), len(names))
    there = c['ask'] in c['names']
    i = call(met.get_column_index_by_name, names, c['ask'])
    expect(i == c['names'].index(c['ask']) if there else i is None, f"index of {c['ask']} in {c['names']} is {i}")
    got, full = call(u.column_data_by_name, v, names, c['ask'], True), call(u.column_data_by_name, v, names, c['ask'])
    total, strict = call(u.sum_column_data_by_name, v, names, c['ask']), call(u.sum_column_data_by_name, v, names, c['ask'], False)
    if not there:
        expect(got is None and full is None and is_missing(total) and is_missing(strict), f"a value for the absent column {c['ask']}")
        return False
    col = [r[c['names'].index(c['ask'])] for r in c['rows']]
    have = [x for x in col if x is not None]
    expect(list(got) == have, f"{c['ask']} without missing values: {list(got)}, expected {have}")
    expect(len(full) == len(col) and all((a is None and math.isnan(b)) or a == b for a, b in zip(col, full)), f"{c['ask']}: {full}, expected {col}")
    if have:
        expect_near(total, math.fsum(have), f"sum of {col}", 1e-12, 1e-9)
    else:
        expect(is_missing(total), f"sum of {col} is {total}")
    if have and len(have) == len(col):
        expect_near(strict, math.fsum(have), f"sum of {col}", 1e-12, 1e-9)
    else:
        expect(is_missing(strict), f"sum of {col} with missing values counted is {strict}")
    return 0 < len(have) < len(col)


@st.composite
def filtered(draw):
    kinds = {'object_type': pick('2d', '3d'), 'fcst_flag': ints(0, 1), 'simple_flag': ints(0, 1), 'level': pick('P500', 'P200', 'Z2'), 'area': ints(0, 5)}
    names = draw(st.permutations(sorted(kinds)))[:draw(ints(2, 5))]
    rows = [[draw(kinds[k]) for k in names] for _ in range(draw(ints(0, 15)))]
    use = draw(st.permutations(names))[:draw(ints(0, min(3, len(names))))]
    filters = [[k, draw(kinds[k])] for k in use]
    if draw(ints(0, 9)) == 0:
        filters.append(['absent', draw(pick('2d', 1))])
    return {'names': names, 'rows': rows, 'filters': filters, 'floats': draw(st.booleans())}


@facet("filters", filtered(), quick=400, thorough=5000, rule="a filter keeps some rows and drops others")
def filters(c):
    rows = [[float(v) if c['floats'] and isinstance(v, int) else v for v in r] for r in c['rows']]
    v = np.array(rows, dtype=object).reshape(len(rows), len(c['names']))
    want = [i for i, r in enumerate(c['rows']) if all(k in c['names'] and r[c['names'].index(k)] == x for k, x in c['filters'])]
    got = call(u.column_data_by_name_value, v, np.array(c['names']), dict(c['filters']))
    expect([list(r) for r in got] == [rows[i] for i in want], f"{len(got)} rows for {c['filters']}, expected {len(want)}")
    n = call(u.nrow_column_data_by_name_value, v, np.array(c['names']), dict(c['filters']))
    expect(n == len(want), f"{n} rows counted for {c['filters']}, expected {len(want)}")
    return 0 < len(want) < len(rows)


@facet("combinations", st.fixed_dictionaries({'lists': st.lists(st.lists(ints(0, 30).map(lambda i: f'v{i}'), min_size=1, max_size=4, unique=True), min_size=1, max_size=4),
                                              'empty': pick(None, None, 'k0', 'k1', 'k9')}), quick=300, thorough=3000, rule="at least two lists of at least two values")
def combinations(c):
    plain = call(u.create_permutations, c['lists'])
    expect([tuple(p) for p in plain] == list(itertools.product(*c['lists'])), f"combinations of {c['lists']}: {plain}")
    # the other builder runs through the first list fastest
    want = [list(reversed(p)) for p in itertools.product(*reversed(c['lists']))]
    want = [p[0] for p in want] if len(c['lists']) == 1 else want
    got = call(u.create_permutations_mv, [list(v) for v in c['lists']], 0)
    expect(got == want, f"combinations of {c['lists']}: {got}")
    d = {}
    for i, v in enumerate(c['lists']):
        if c['empty'] == f'k{i}':
            d[f'e{i}'] = []
        d[f'k{i}'] = list(v)
    if c['empty'] == 'k9':
        d['e9'] = []
    got = call(u.create_permutations_mv, d, 0)
    expect(got == want, f"combinations of {d}: {got}")
    expect(list(d.values()) == [x for i, v in enumerate(c['lists']) for x in ([[], v] if c['empty'] == f'k{i}' else [v])] + ([[]] if c['empty'] == 'k9' else []),
           "the lists were changed")
    return sum(len(v) > 1 for v in c['lists']) > 1


WORDS = st.one_of(ints(-5, 5), pick('a', 'b', 'A', ''))


@facet("sets", st.fixed_dictionaries({'a': lists(WORDS, 0, 8), 'b': lists(WORDS, 0, 8)}), quick=300, thorough=3000, rule="a repeated and a common member")
def sets(c):
    a, b = c['a'], c['b']
    got = call(u.intersection, a, b)
    expect(got == [x for x in a if any(x == y and type(x) is type(y) for y in b)], f"members of {a} in {b}: {got}")
    expect(call(u.intersection, None, b) is None and call(u.intersection, a, None) is None, "an intersection with nothing")
    d = call(u.unique, a)
    if not a:
        expect(d is None, f"distinct members of an empty list: {d}")
    else:
        expect(sorted(map(repr, d)) == sorted(set(map(repr, a))), f"distinct members of {a}: {d}")
    return bool(got) and len(set(map(repr, a))) < len(a)


TEXTS = st.one_of(ints(-10 ** 6, 10 ** 6).map(str), decimals(-1000, 1000, 3).map(repr), st.text(alphabet='0123456789.-+e P_', max_size=6),
                  pick('P500', '1.', '.5', '-.5', '-', '.', '', '1.2.3', '1e5', '+3', '--1', '2019-03-01 00:00:00', 'NA', 'nan', 'inf', '0012'))


@facet("numbers", st.fixed_dictionaries({'text': TEXTS, 'value': st.one_of(ints(-9, 9), decimals(-9, 9, 1), pick('1', None))}), quick=500, thorough=6000,
       rule="the text has a digit")
def numbers(c):
    s = c['text']
    want = re.fullmatch(r'\s*[+-]?\d+(_\d+)*\s*', s) is not None
    got = call(u.is_string_integer, s)
    expect(got == want, f"{s!r} an integer: {got}")
    if want:
        int(s)
    want = re.fullmatch(r'-?(\d+\.\d*|\.\d+)', s) is not None
    got = call(u.is_string_strictly_float, s)
    expect(got == want, f"{s!r} a decimal number: {got}")
    if want:
        float(s)
    expect(call(u.represents_int, c['value']) == (type(c['value']) is int), f"{c['value']!r} an integer value")
    return any(ch.isdigit() for ch in s)


OPS = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'SINGLE': ' ', 'ETB': ' and ', 'DIFF_SIG': '-'}


@facet("names", st.fixed_dictionaries({'a': pick('A TMP ME', 'DIFFUSE', 'x(1)', 'SS', 'ETB'), 'b': pick('B TMP ME', 'RATIO', 'y'), 'op': pick(None, *sorted(OPS)),
                                       'other': lists(pick('120000', 'ME', 'SINGLE', 'DIFF', 'my DIFF(a-b)', 'RATIOS(a)', 'E'), 0, 3), 'at': ints(0, 3)}),
       quick=300, thorough=2000, rule="other values of the point look like an operation")
def names(c):
    parts = [c['a'], c['b']] + ([c['op']] if c['op'] else [])
    name = call(u.get_derived_curve_name, parts)
    op = c['op'] or 'DIFF'
    expect(name.startswith(op + '(' + c['a']) and name.endswith(c['b'] + ')'), f"name of {parts}: {name}")
    point = list(c['other'])
    expect(call(u.is_derived_point, point) is False, f"{point} taken for derived")
    point.insert(min(c['at'], len(point)), name)
    expect(call(u.is_derived_point, tuple(point)) is True, f"{point} not taken for derived")
    expect(call(u.is_derived_point, None) is False, "nothing taken for derived")
    return any(x in OPS or 'DIFF' in x for x in c['other'])


@facet("booleans", st.fixed_dictionaries({'v': st.one_of(pick('True', 'False', True, False, 'true', 'false', 'yes', '', 'TRUE', None), ints(0, 3), TEXTS)}), quick=100,
       thorough=500, rule="the value names a boolean")
def booleans(c):
    got = call(u.parse_bool, c['v'])
    if c['v'] in ('True', 'true', 'TRUE', True) and not (c['v'] == 1 and type(c['v']) is not bool):
        expect(got is True or (c['v'] in ('true', 'TRUE') and got == c['v']), f"{c['v']!r} read as {got!r}")
        return True
    if c['v'] in ('False', 'false', False) and not (c['v'] == 0 and type(c['v']) is not bool):
        expect(got is False or (c['v'] == 'false' and got == c['v']), f"{c['v']!r} read as {got!r}")
        return True
    expect(got == c['v'], f"{c['v']!r} read as {got!r}")
    return False


@facet("wind", st.fixed_dictionaries({'u': st.one_of(decimals(-30, 30, 2), pick(0.0, 1.0, -1.0)), 'v': st.one_of(decimals(-30, 30, 2), pick(0.0, 1.0, -1.0))}), quick=300,
       thorough=3000, rule="both components differ from zero")
def wind(c):
    a, b = c['u'], c['v']
    expect_near(call(met.calc_speed, a, b), math.hypot(a, b), "speed", 1e-12, 1e-12)
    d = call(met.calc_direction, a, b)
    if a == 0 and b == 0:
        expect(d is None, f"direction {d} of no wind")
        return False
    expect(0 <= d < 360, f"direction {d}")
    r = math.hypot(a, b)
    expect(abs(math.sin(math.radians(d)) - a / r) < 1e-9 and abs(math.cos(math.radians(d)) - b / r) < 1e-9, f"direction {d} of {a}, {b}")
    return a != 0 and b != 0


@st.composite
def ordered(draw):
    rows = [[draw(pick('2019-03-01 00:00:00', '2019-03-02 00:00:00', '2018-12-31 12:00:00', '2019-03-01 06:00:00')), draw(pick(0, 60000, 120000, 1200000)),
             draw(pick('ME', 'RMSE')), i] for i in range(draw(ints(1, 10)))]
    return {'rows': rows, 'date': draw(pick('fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init')), 'index': draw(ints(0, 5))}


@facet("ordering", ordered(), quick=200, thorough=2000, rule="the rows were not in order")
def ordering(c):
    df = pd.DataFrame(c['rows'], columns=[c['date'], 'fcst_lead', 'stat_name', 'row'], index=[c['index'] + 2 * i for i in range(len(c['rows']))])
    got = call(u.sort_data, df)
    key = [tuple(r[:3]) for r in c['rows']]
    back = [tuple(r) for r in got[[c['date'], 'fcst_lead', 'stat_name']].values.tolist()]
    expect(back == sorted(key), f"order {back}")
    expect(sorted(got['row']) == list(range(len(key))) and all(key[i] == b for i, b in zip(got['row'], back)), "rows were mixed up")
    return key != sorted(key)
