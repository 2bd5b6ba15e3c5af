"""Contingency scores against independently written definitions evaluated on pooled integer counts."""
import math
from fractions import Fraction

import numpy as np
from scipy.special import lambertw

from vh import call, expect, expect_near, facet, ints, is_missing, lists, near, pick, st, fail
from gens import array_of, count, table_rows
import metcalcpy.util.ctc_statistics as ctc
import metcalcpy.util.nbrctc_statistics as nbr
import metcalcpy.sum_stat as sum_stat
import metcalcpy.agg_stat  # noqa: F401  the star imports must resolve

CELLS = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def q(n, d):
    return None if d == 0 else Fraction(n) / Fraction(d)


def ln(x):
    return None if x is None or x <= 0 else math.log(x.numerator) - math.log(x.denominator) if isinstance(x, Fraction) else math.log(x)


def div(a, b):
    return None if a is None or b is None or abs(b) < 1e-15 else a / b


def combo(*terms):
    """Sum of (sign, value) terms, missing if any is."""
    if any(v is None for _, v in terms):
        return None
    return sum(s * v for s, v in terms)


def defs(a, b, c, d):
    """a hits, b false alarms, c misses, d correct negatives. Missing when undefined."""
    n = a + b + c + d
    H, F = q(a, a + c), q(b, b + d)
    out = {
        'baser': q(a + c, n), 'acc': q(a + d, n), 'fbias': q(a + b, a + c), 'fmean': q(a + b, n),
        'pody': H, 'pofd': F, 'podn': q(d, b + d), 'far': q(b, a + b), 'csi': q(a, a + b + c),
        'hk': None if H is None or F is None else H - F,
    }
    if n == 0:
        out['gss'] = out['hss'] = None
    else:
        chance = Fraction((a + b) * (a + c), n)
        out['gss'] = q(a - chance, a + b + c - chance)
        e = chance + Fraction((c + d) * (b + d), n)
        out['hss'] = q(a + d - e, n - e)
    odds = None if H is None or F is None else q(a * d, b * c)
    out['odds'] = odds
    out['odds1'] = None if odds is None or H == 0 and False else odds
    out['lodds'] = None if 0 in (a, b, c, d) else math.log(a) + math.log(d) - math.log(b) - math.log(c)
    out['orss'] = q(a * d - b * c, a * d + b * c)
    if 0 in (a, b, c) or n == 0:
        out['bagss'] = None
    else:
        o = a + c
        lf = math.log(o / c)
        w = float(np.real(lambertw(o / b * lf)))
        ha = o - b / lf * w
        out['bagss'] = div(ha - o * o / n, 2 * o - ha - o * o / n)
    lF, lH = ln(F), ln(H)
    l1F = None if F is None else ln(1 - F)
    l1H = None if H is None else ln(1 - H)
    out['edi'] = div(combo((1, lF), (-1, lH)), combo((1, lF), (1, lH)))
    out['sedi'] = div(combo((1, lF), (-1, lH), (-1, l1F), (1, l1H)), combo((1, lF), (1, lH), (1, l1F), (1, l1H)))
    ls, lr = ln(q(a + c, n)), ln(q(a, n))
    lf_ = ln(q(a + b, n))
    out['eds'] = combo((1, div(None if ls is None else 2 * ls, lr)), (-1, 1))
    out['seds'] = combo((1, div(combo((1, lf_), (1, ls)), lr)), (-1, 1))
    out.update(ctc_total=n, cts_total=n, ctc_fn_on=d, ctc_fn_oy=c, ctc_fy_on=b, ctc_fy_oy=a, ctc_oy=a + c, ctc_on=b + d,
               ctc_fy=a + b, ctc_fn=c + d)
    return out


NBR = ['baser', 'acc', 'fbias', 'fmean', 'pody', 'pofd', 'podn', 'far', 'csi', 'gss', 'hk', 'hss', 'odds', 'ctc_total']


def tolerance(name, a, b, c, d):
    """Published to seven decimals; scores formed from already rounded rates carry the propagated rounding."""
    if name in ('odds', 'odds1', 'sedi', 'edi'):
        H, F = a / max(a + c, 1), b / max(b + d, 1)
        parts = [x for x in (H, 1 - H, F, 1 - F) if x > 0]
        spread = sum(2e-7 / x for x in parts)
        if name in ('sedi', 'edi'):
            den = sum(abs(math.log(x)) for x in (parts if name == 'sedi' else [y for y in (H, F) if y > 0]))
            return 2e-7 + (spread / den if den else 1), spread / den if den else 1
        return 2e-7, spread
    if name in ('bagss',):
        return 3e-7, 1e-6
    return 2e-7, 1e-9


def check_all(rows, order, extra):
    cols = CELLS + ['total']
    data = [dict(zip(CELLS, r), total=sum(r)) for r in rows]
    values, names = array_of(data, cols, order, extra)
    pooled = [sum(r[i] for r in rows) for i in range(4)]
    want = defs(*pooled)
    for name, w in want.items():
        fns = [(name, getattr(ctc, 'calculate_' + name))]
        if name in NBR:
            fns.append(('nbr_' + name, getattr(nbr, 'calculate_nbr_' + name)))
        ab, rel = tolerance(name, *pooled)
        for label, fn in fns:
            got = call(fn, values.copy(), names)
            if name in ('odds', 'odds1') and w == 0 and is_missing(got):
                continue  # a zero odds ratio reached through a zero rate
            expect_near(got, None if w is None else float(w), f"{label} of {dict(zip(CELLS, pooled))}", rel, ab)
    for name in ('gss', 'csi', 'fbias', 'hss', 'ctc_total', 'pod_x')[:5]:
        ab, rel = tolerance(name, *pooled)
        got = call(sum_stat.calculate_statistic, values.copy(), names, name)
        expect_near(got, None if want[name] is None else float(want[name]), f"by name {name}", rel, ab)
    return want


CASE = st.fixed_dictionaries({
    'rows': st.one_of(ints(1, 6), ints(1, 60)).flatmap(lambda n: st.lists(st.tuples(count(), count(), count(), count()), min_size=n, max_size=n)),
    'order': st.permutations([0, 1, 2, 3, 4, 5, 6]), 'extra': st.booleans()})


@facet("scores", CASE, quick=500, thorough=6000,
       rule="the pooled table has all four cells non-zero")
def scores(case):
    check_all(case['rows'], case['order'], case['extra'])
    return all(sum(r[i] for r in case['rows']) > 0 for i in range(4))


DEGEN = st.fixed_dictionaries({
    'mask': st.lists(st.booleans(), min_size=4, max_size=4),
    'rows': st.lists(st.tuples(*[ints(1, 300)] * 4), min_size=1, max_size=4),
    'order': st.permutations([0, 1, 2, 3, 4, 5, 6]), 'extra': st.booleans()})


@facet("large", st.fixed_dictionaries({'rows': st.lists(st.tuples(*[ints(30, 400)] * 4), min_size=1, max_size=8), 'scale': ints(10 ** 4, 3 * 10 ** 7), 'more': ints(0, 9999),
                                       'order': st.permutations([0, 1, 2, 3, 4, 5, 6])}),
       quick=60, thorough=600, rule="a cell of more than thirty million")
def large(case):
    """Counts of large grids over long periods."""
    rows = [[v * case['scale'] + case['more'] for v in r] for r in case['rows']]
    check_all(rows, case['order'], False)
    return max(map(max, rows)) > 3 * 10 ** 7


@facet("empty_cells", DEGEN, quick=250, thorough=1500,
       rule="one to three of the four pooled cells are zero: undefined scores must be missing, the rest exact")
def empty_cells(case):
    rows = [[v if m else 0 for v, m in zip(r, case['mask'])] for r in case['rows']]
    check_all(rows, case['order'], case['extra'])
    return 1 <= sum(case['mask']) <= 3


SPLIT = st.fixed_dictionaries({
    'pooled': st.tuples(*[ints(0, 5000)] * 4),
    'fracs': st.lists(st.lists(ints(0, 100), min_size=4, max_size=4), min_size=0, max_size=7)})


@facet("split", SPLIT, quick=250, thorough=3000,
       rule="the pooled counts are spread over at least two rows in differing proportions")
def split(case):
    """Only the pooled counts matter: any split over rows gives the value of the single pooled row."""
    left = list(case['pooled'])
    rows = []
    for fr in case['fracs']:
        part = [v * f // 100 for v, f in zip(left, fr)]
        rows.append(part)
        left = [x - y for x, y in zip(left, part)]
    rows.append(left)
    cols = CELLS + ['total']

    def arr(rs):
        return array_of([dict(zip(CELLS, r), total=sum(r)) for r in rs], cols)
    many, names = arr(rows)
    one, _ = arr([case['pooled']])
    for name in defs(1, 1, 1, 1):
        fn = getattr(ctc, 'calculate_' + name)
        x, y = call(fn, many, names), call(fn, one, names)
        expect(near(x, y, 1e-6, 2e-7), f"{name}: {x!r} over {len(rows)} rows, {y!r} pooled")
    return len(rows) > 1 and len({tuple(r) for r in rows}) > 1
