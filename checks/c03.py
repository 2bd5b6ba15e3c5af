"""Threshold sorting and ROC tables."""
import pandas as pd

from vh import call, expect, expect_near, facet, ints, st
from gens import count
import metcalcpy.util.ctc_statistics as ctc

OPS = ['<', '<=', '==', '>=', '>', '']
WT = {'<': 1, '<=': 2, '==': 3, '': 3, '>=': 4, '>': 5}


def bare(i):
    """A fraction written without a leading zero."""
    return ('-' if i < 0 else '') + f'.{abs(i):02d}'


@st.composite
def thresholds(draw):
    kind = draw(st.sampled_from(['one_op', 'mixed', 'mixed']))
    ops = [draw(st.sampled_from(OPS))] if kind == 'one_op' else OPS
    n = draw(ints(1, 8))
    out = []
    for _ in range(n):
        v = draw(st.one_of(ints(-15, 130).map(str), ints(-3000, 30000).map(lambda i: repr(i / 100)), ints(0, 9).map(str), ints(-99, 99).map(bare)))
        out.append(draw(st.sampled_from(ops)) + v)
    return out


def key(t):
    i = 0
    while i < len(t) and t[i] in '<>=':
        i += 1
    return float(t[i:]), WT[t[:i]]


@st.composite
def case(draw):
    th = draw(thresholds())
    rows = draw(st.lists(st.tuples(ints(0, len(th) - 1), count(huge=True), count(huge=True), count(huge=True), count(huge=True)), min_size=1, max_size=25))
    return {'rows': [[th[r[0]], *r[1:]] for r in rows], 'asc': draw(st.booleans()), 'col': draw(st.sampled_from(['fcst_thresh', 'obs_thresh']))}


def table(rows, col='fcst_thresh'):
    return pd.DataFrame({
        'model': ['M'] * len(rows), col: [r[0] for r in rows], 'fy_oy': [r[1] for r in rows], 'fy_on': [r[2] for r in rows],
        'fn_oy': [r[3] for r in rows], 'fn_on': [r[4] for r in rows], 'total': [sum(r[1:]) for r in rows],
        'fcst_valid_beg': [f'2020-01-{i % 28 + 1:02d} 00:00:00' for i in range(len(rows))], 'fcst_lead': [10000 * (i % 5) for i in range(len(rows))],
        'row': list(range(len(rows)))})


@facet("sorting", case(), quick=300, thorough=4000,
       rule="at least two thresholds whose text order differs from their numeric order")
def sorting(c):
    df = table(c['rows'], c['col'])
    got = call(ctc.sort_by_thresh, df.copy(), **{k: v for k, v in (('sort_column_name', c['col']), ('ascending', c['asc'])) if v not in ('fcst_thresh', True)})
    expect(sorted(got['row']) == list(range(len(df))), "sorting lost or repeated rows")
    back = got.sort_values('row', ignore_index=True)[list(df.columns)]
    expect(back.equals(df), "sorting changed row contents")
    keys = [key(t) for t in got[c['col']]]
    want = sorted(keys, reverse=not c['asc'])
    expect(keys == want, f"order {list(got[c['col']])} (ascending={c['asc']})")
    expect(list(got.index) == list(range(len(df))), "result is not numbered from zero in its new order")
    th = sorted({r[0] for r in c['rows']})
    return [key(t) for t in th] != sorted(key(t) for t in th)


@facet("roc", case(), quick=250, thorough=3000,
       rule="at least two thresholds, one of them spread over several rows")
def roc(c):
    df = table(c['rows'])
    got = call(ctc.calculate_ctc_roc, df.copy(), ascending=c['asc'])
    th = list(got['thresh'])
    expect(sorted(th) == sorted({r[0] for r in c['rows']}), f"ROC thresholds {th}")
    keys = [key(t) for t in th]
    expect(keys == sorted(keys, reverse=not c['asc']), f"ROC thresholds in order {th} (ascending={c['asc']})")
    for i, t in enumerate(th):
        s = [sum(r[k] for r in c['rows'] if r[0] == t) for k in (1, 2, 3, 4)]
        expect_near(got['pody'].iloc[i], s[0] / (s[0] + s[2]) if s[0] + s[2] else None, f"detection rate at {t}", 1e-9, 2e-7)
        expect_near(got['pofd'].iloc[i], s[1] / (s[1] + s[3]) if s[1] + s[3] else None, f"false detection rate at {t}", 1e-9, 2e-7)
    return len(th) > 1 and len(c['rows']) > len(th)


@facet("names", st.fixed_dictionaries({'t': st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(['SFP10', 'SFP50', 'SFP90', 'USP75'])).map(''.join), min_size=2, max_size=12),
                                       'asc': st.booleans()}), quick=150, thorough=1500, rule="several operators on one named threshold")
def names(c):
    """Thresholds given by name sort by name, then operator."""
    def part(t):
        name = t.lstrip('<>=')
        return name, WT[t[:len(t) - len(name)]]
    got = call(ctc.sort_by_thresh, table([[t, 1, 2, 3, 4] for t in c['t']]), ascending=c['asc'])
    expect([part(t) for t in got['fcst_thresh']] == sorted(map(part, c['t']), reverse=not c['asc']), f"order {list(got['fcst_thresh'])} (ascending={c['asc']})")
    expect(sorted(got['fcst_thresh']) == sorted(c['t']), "sorting lost or repeated thresholds")
    return len({part(t) for t in c['t']}) > len({part(t)[0] for t in c['t']})
