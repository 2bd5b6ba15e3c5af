"""Economic value against the cost/loss decision model written from expected expenses."""
import numpy as np

from vh import call, decimals, expect, expect_array, expect_near, facet, ints, st
from gens import array_of, count
import metcalcpy.util.ctc_statistics as ctc
import metcalcpy.util.eclv_statistics as eclv


def model(a, b, c, d, cl):
    """Expected expense per unit loss of the forecast, of climatology and of perfect information."""
    n = a + b + c + d
    s = (a + c) / n
    e_fc = cl * (a + b) / n + c / n
    e_cl = min(cl, s)
    e_pf = s * cl
    return (e_cl - e_fc) / (e_cl - e_pf)


def defined(a, b, c, d):
    return a + c > 0 and b + d > 0


def compare(res, tab, cls, base):
    a, b, c, d = tab
    if not defined(*tab):
        expect(res is None, f"value defined without events or non-events: {tab}")
        return
    expect(res is not None, f"no value for {tab}")
    n = sum(tab)
    s, h, f = (a + c) / n, a / (a + c), b / (b + d)
    expect_near(res['s'], s, "base rate", 1e-9, 2e-7)
    expect_near(res['H'], h, "hit rate", 1e-9, 2e-7)
    expect_near(res['F'], f, "false alarm rate", 1e-9, 2e-7)
    expect_near(res['vmax'], h - f, "maximum value", 1e-9, 2e-7)
    expect_near(res['n'], n, "number of pairs")
    want_cl = sorted(list(cls) + ([s] if base else []))
    expect_array(res['cl'], want_cl, "cost/loss ratios", 1e-12, 1e-12)
    want = [model(a, b, c, d, x) for x in want_cl]
    # near the base rate both branches of the model agree, so no tie handling is needed
    expect_array(res['V'], want, f"value curve of {tab}", 1e-6, 1e-9)
    expect(max(res['V']) <= h - f + 1e-9, "a value exceeds hit rate minus false alarm rate")
    if base:
        i = int(np.argmin(np.abs(np.array(res['cl']) - s)))
        expect_near(res['V'][i], h - f, "value at the base rate", 1e-7, 1e-9)


CL = st.lists(ints(1, 999), min_size=1, max_size=25, unique=True).map(lambda l: [x / 1000 for x in l])


@facet("curve", st.fixed_dictionaries({'tab': st.tuples(count(), count(), count(), count()), 'cl': CL, 'base': st.booleans(),
                                       'sort': st.booleans()}), quick=400, thorough=5000,
       rule="events and non-events present, ratios on both sides of the base rate")
def curve(c):
    cl = sorted(c['cl']) if c['sort'] else c['cl']
    arr = np.array(cl)
    res = call(ctc.calculate_economic_value, np.array(c['tab'], dtype=float), arr, c['base'])
    expect(list(arr) == list(cl), "the ratio list passed in was changed")
    compare(res, c['tab'], cl, c['base'])
    if not defined(*c['tab']):
        return False
    s = (c['tab'][0] + c['tab'][2]) / sum(c['tab'])
    return min(cl) < s < max(cl)


@facet("pooled_ctc", st.fixed_dictionaries({
    'rows': st.lists(st.tuples(count(), count(), count(), count()), min_size=1, max_size=12), 'cl': CL,
    'base': st.booleans(), 'order': st.permutations([0, 1, 2, 3, 4, 5, 6]), 'extra': st.booleans()}), quick=250, thorough=3000,
       rule="at least two rows with events and non-events in the pool")
def pooled_ctc(c):
    cells = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
    v, names = array_of([dict(zip(cells, r), total=sum(r)) for r in c['rows']], cells + ['total'], c['order'], c['extra'])
    res = call(eclv.calculate_eclv, v, names, None, 'ctc', np.array(sorted(c['cl'])), *([1] if c['base'] else []))
    tab = [sum(r[i] for r in c['rows']) for i in range(4)]
    compare(res, tab, sorted(c['cl']), c['base'])
    return len(c['rows']) > 1 and defined(*tab)


@facet("pooled_pct", st.fixed_dictionaries({
    'rows': st.lists(st.tuples(ints(0, 20), count(), count()), min_size=1, max_size=25), 'thresh': ints(0, 20), 'cl': CL,
    'base': st.booleans(), 'extra': st.booleans()}), quick=250, thorough=3000,
       rule="bins on both sides of the threshold, events and non-events in the pool")
def pooled_pct(c):
    """Probability bins: the forecast says yes when the bin's threshold is above the chosen one."""
    rows = [{'thresh_i': r[0] / 20, 'oy_i': r[1], 'on_i': r[2]} for r in c['rows']]
    v, names = array_of(rows, ['thresh_i', 'oy_i', 'on_i'], None, c['extra'])
    t = c['thresh'] / 20
    res = call(eclv.calculate_eclv, v, names, t, 'pct', np.array(sorted(c['cl'])), *([1] if c['base'] else []))
    yes = [r for r in rows if r['thresh_i'] > t]
    no = [r for r in rows if r['thresh_i'] <= t]
    tab = [sum(r['oy_i'] for r in yes), sum(r['on_i'] for r in yes), sum(r['oy_i'] for r in no), sum(r['on_i'] for r in no)]
    compare(res, tab, sorted(c['cl']), c['base'])
    return bool(yes) and bool(no) and defined(*tab)
