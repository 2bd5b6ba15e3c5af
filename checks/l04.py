"""Probability-forecast scores from pooled bin counts."""
import numpy as np

from vh import call, expect, expect_near, facet, ints, is_missing, st
from gens import count
import metcalcpy.util.pstd_statistics as ps


@st.composite
def case(draw):
    k = draw(st.one_of(ints(1, 6), ints(2, 12)))
    mids = sorted(draw(st.lists(ints(0, 1000), min_size=k, max_size=k, unique=True)))
    n = draw(st.one_of(ints(1, 4), ints(1, 20)))
    side = draw(st.sampled_from(['both', 'both', 'both', 'both', 'both', 'oy', 'on', 'sparse']))
    rows = []
    for _ in range(n):
        r = []
        for _ in range(k):
            oy, on = draw(count(huge=True)), draw(count(huge=True))
            if side == 'oy':
                on = 0
            elif side == 'on':
                oy = 0
            elif side == 'sparse' and draw(st.booleans()):
                oy = on = 0
            r.append([oy, on])
        rows.append(r)
    return {'mids': [m / 1000 for m in mids], 'rows': rows, 'bins': draw(st.permutations(list(range(k)))),
            'text': draw(st.booleans()), 'style': draw(st.sampled_from(['plain', 'format']))}


def build(c, rows):
    """One row per case, bins side by side: the layout the aggregation reads (repeated columns get numbered)."""
    names, picks = ['model', 'total'] if c['text'] else ['total'], []
    for j, b in enumerate(c['bins']):
        suffix = '' if j == 0 else f'.{j}'
        names += [('thresh_i' + suffix) if c['style'] == 'plain' else f'FORMAT((ldt{j + 1}.thresh_i + ldt{j + 2}.thresh_i)/2, 3)',
                  'oy_i' + suffix, 'on_i' + suffix]
        picks.append(b)
    names += ['T', 'oy_total', 'o_bar']
    oy = sum(x[0] for r in rows for x in r)
    t = sum(sum(x) for r in rows for x in r)
    data = []
    for r in rows:
        row = ['M'] if c['text'] else []
        row.append(sum(sum(x) for x in r))
        for b in picks:
            row += [c['mids'][b], r[b][0], r[b][1]]
        row += [t, oy, oy / t if t else np.nan]
        data.append(row)
    return np.array(data, dtype=object if c['text'] else float), np.array(names)


def oracle(mids, pooled):
    t = sum(a + b for a, b in pooled)
    if t == 0:
        return None
    oy = sum(a for a, _ in pooled)
    ob = oy / t
    rel = res = brier = 0.0
    for p, (a, b) in zip(mids, pooled):
        n = a + b
        if n:
            rel += n * (p - a / n) ** 2
            res += n * (a / n - ob) ** 2
        brier += a * (1 - p) ** 2 + b * p ** 2
    unc = ob * (1 - ob)
    on = t - oy
    auc = None
    if oy and on:
        # probability that a random event had a higher forecast than a random non-event, ties half
        win, below = 0.0, 0
        for a, b in pooled:
            win += a * (below + 0.5 * b)
            below += b
        auc = win / (oy * on)
    return {'baser': ob, 'reliability': rel / t, 'resolution': res / t, 'uncertainty': unc, 'brier': brier / t,
            'bss_smpl': None if unc == 0 else (res - rel) / t / unc, 'roc_auc': auc}


STATS = ['baser', 'reliability', 'resolution', 'uncertainty', 'brier', 'bss_smpl', 'roc_auc']


@facet("scores", case(), quick=350, thorough=4000, rule="two or more occupied bins with events and non-events")
def scores(c):
    v, names = build(c, c['rows'])
    k = len(c['mids'])
    pooled = [[sum(r[i][j] for r in c['rows']) for j in (0, 1)] for i in range(k)]
    want = oracle(c['mids'], pooled)
    got = {s: call(getattr(ps, 'calculate_pstd_' + s), v.copy(), names) for s in STATS}
    total = sum(map(sum, pooled))
    expect_near(call(ps.calculate_pct_total, v.copy(), names), total, "pair total")
    if want is None:
        for s in STATS:
            expect(is_missing(got[s]), f"{s} is {got[s]} for an empty table")
        return False
    for s in STATS:
        scale = 1 if s != 'bss_smpl' or not want['uncertainty'] else 1 / want['uncertainty']
        expect_near(got[s], want[s], f"{s} of bins {list(zip(c['mids'], pooled))}", 1e-9, 2e-7 + 1e-12 * scale)
    # the published parts add up
    expect(abs(got['brier'] - (got['reliability'] - got['resolution'] + got['uncertainty'])) < 5e-7,
           f"brier {got['brier']} is not reliability - resolution + uncertainty")
    if got['roc_auc'] is not None:
        expect(-1e-9 <= got['roc_auc'] <= 1 + 1e-9, f"ROC area {got['roc_auc']}")
    return want['roc_auc'] is not None and sum(1 for p in pooled if sum(p)) > 1


@facet("single_bin", st.fixed_dictionaries({'rows': st.lists(st.tuples(count(huge=True), count(huge=True)), min_size=1, max_size=30), 'text': st.booleans()}),
       quick=300, thorough=2000, rule="at least two rows with forecasts in the bin")
def single_bin(c):
    """Calibration and bin count, as plotted in a reliability diagram (one bin per table)."""
    data = [[0.35, a, b, a + b] for a, b in c['rows']]
    v = np.array(data, dtype=object if c['text'] else float)
    names = np.array(['thresh_i', 'oy_i', 'on_i', 'total'])
    a, b = sum(r[0] for r in c['rows']), sum(r[1] for r in c['rows'])
    expect_near(call(ps.calculate_pstd_ni, v.copy(), names), a + b, "number of forecasts in the bin")
    expect_near(call(ps.calculate_pstd_calibration, v.copy(), names), a / (a + b) if a + b else None, "calibration", 1e-9, 2e-7)
    return len(c['rows']) > 1 and a + b > 0
