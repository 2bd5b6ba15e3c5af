"""Derived curves apply the named operation to the two named series."""
import itertools
import math

import agg
import ee
import lines
import perfect
from aggcase import number, rows_of, run, split
from vh import call, decimals, expect, expect_near, facet, ints, is_missing, lists, near, pick, quiet, st
from metcalcpy.util import utils
from metcalcpy.util.tost_paired import tost_paired
from metcalcpy.util.utils import calc_derived_curve_value, get_derived_curve_name

SIGN = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'DIFF_SIG': '-', 'SINGLE': '-', 'ETB': ' and '}


def operate(op, a, b):
    """Expected value of two numbers, None when missing."""
    if is_missing(a) or is_missing(b):
        return None
    if op in ('DIFF', 'DIFF_SIG'):
        return a - b
    if op == 'RATIO':
        return a / b if b else None
    if op == 'SS':
        return (a - b) / a if a else None
    return a


VALUE = st.one_of(decimals(-50, 50, 2), ints(-5, 5), st.just(0), st.none())


@facet("values", st.fixed_dictionaries({'a': lists(VALUE, 0, 4), 'b': lists(VALUE, 0, 4), 'same': ints(0, 9),
                                        'op': pick('DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG')}),
       quick=600, thorough=6000, rule="two or more values and no missing operand")
def values(c):
    a, b = list(c['a']), list(c['b'])
    if c['same'] == 0:
        b = list(a)
    elif len(a) != len(b) and c['same'] > 2:
        n = min(len(a), len(b))
        a, b = a[:n], b[:n]
    got = call(calc_derived_curve_value, list(a), list(b), c['op'])
    if None in a or None in b or len(a) != len(b):
        expect(got is None, f"{c['op']} of {a} and {b} gives {got}")
        return False
    want = [operate(c['op'], x, y) for x, y in zip(a, b)]
    if None in want:
        expect(got is None, f"{c['op']} of {a} and {b} gives {got}")
        return False
    expect(got is not None and len(got) == len(want), f"{c['op']} of {a} and {b} gives {got}")
    for g, w in zip(got, want):
        expect_near(g, w, f"{c['op']} of {a} and {b}", 1e-12, 1e-12)
    back = call(calc_derived_curve_value, list(b), list(a), c['op'])
    if c['op'] == 'DIFF':
        expect(all(abs(x + y) < 1e-9 for x, y in zip(got, back)), "swapping the operands does not negate the difference")
    if c['op'] == 'RATIO' and back is not None:
        expect(all(abs(x * y - 1) < 1e-9 for x, y in zip(got, back)), "swapping the operands does not invert the ratio")
    for none in (call(calc_derived_curve_value, None, b, c['op']), call(calc_derived_curve_value, a, None, c['op'])):
        expect(none is None, f"{c['op']} with a missing operand gives {none}")
    return len(a) > 1


@facet("equivalence", st.fixed_dictionaries({'a': lists(decimals(-20, 20, 2), 3, 15), 'd': lists(decimals(-3, 3, 2), 15, 15)}), quick=100, thorough=1000,
       rule="differing samples")
def equivalence(c):
    """Equivalence bounds are those of the two samples' own sizes, means, spreads and correlation."""
    a = c['a']
    b = [x + d for x, d in zip(a, c['d'])]
    n = len(a)

    def sd(v):
        m = math.fsum(v) / n
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (n - 1))
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    sa, sb = sd(a), sd(b)
    if sa < 1e-6 or sb < 1e-6:
        return False
    r = math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (n - 1) / sa / sb
    if abs(r) > 0.999999:
        return False
    with quiet():
        got = call(calc_derived_curve_value, list(a), list(b), 'ETB')
        want = call(tost_paired, n, ma, mb, sa, sb, r, -0.001, 0.001)
    expect(set(got) == set(want), f"{got} has other entries than {want}")
    for k in want:
        g, w = got[k], want[k]
        for x, y in zip(g if isinstance(g, (list, tuple)) else [g], w if isinstance(w, (list, tuple)) else [w]):
            if is_missing(y) or isinstance(y, (str, bool)):
                expect(x == y or is_missing(x), f"{k}: {x}, expected {y}")
            else:
                expect(near(x, y, 1e-4, 1e-4), f"{k}: {x}, expected {y}")
    return True


@facet("labels", st.fixed_dictionaries({'a': st.sampled_from(['A TMP ME', 'GFS 2 HGT RMSE', 'Group_y1_1 TMP ME']), 'b': st.sampled_from(['B TMP ME', 'x']),
                                        'op': st.sampled_from([None] + sorted(SIGN))}), quick=40, thorough=40, rule="an operation is named")
def labels(c):
    names = [c['a'], c['b']] + ([c['op']] if c['op'] else [])
    want = f"{c['op'] or 'DIFF'}({c['a']}{SIGN[c['op'] or 'DIFF']}{c['b']})"
    got = call(get_derived_curve_name, names)
    expect(got == want, f"label {got}, expected {want}")
    expect(call(get_derived_curve_name, names[:1]) == '', "label of a single name")
    return c['op'] is not None


POOL = {'model': ['A', 'B', 'A_2'], 'vx_mask': ['E', 'W', 'POLAR'], 'interp_pnts': ['1', '9', '16']}
LINES = {'sl1l2': ['ME', 'RMSE', 'FBAR', 'MAE', 'PR_CORR', 'MBIAS'], 'ctc': ['PODY', 'FAR', 'CSI', 'FBIAS', 'GSS'], 'vl1l2': ['VL1L2_MSVE', 'VL1L2_RMSVE', 'VL1L2_FVAR'],
         'grad': ['FGBAR', 'MGBAR', 'EGBAR'], 'nbr_cnt': ['NBR_FBS', 'NBR_FSS']}
LEADS = [30000, 120000]


@st.composite
def designs(draw, boot=False):
    """Series with the same cases at every lead: one row per series and case, some series or leads without rows."""
    line = draw(st.sampled_from(sorted(LINES)))
    keys = draw(st.permutations(list(POOL)))[:draw(pick(1, 2, 2))]
    ser, alias = {}, {}
    for k in keys:
        vals = list(draw(st.permutations(POOL[k])))[:draw(pick(2, 2, 3))]
        if len(vals) == 3 and draw(st.booleans()):
            vals = [ee.SEP.join(vals[:2]), vals[2]]
        ser[k] = vals
        for v in vals:
            if ee.SEP in v:
                alias[v] = f"Group_yX_{len(alias) + 1}"
    stats = draw(st.lists(st.sampled_from(LINES[line]), unique=True, min_size=1, max_size=2))
    days = ee.VALID[:draw(ints(3, 4) if boot else ints(1, 3))]
    strat = lines.ROWS[line]()
    flat = {k: ee.ungroup(v) for k, v in ser.items()}
    rows = []
    for lead in LEADS:
        gone = [x for x in itertools.product(*ser.values()) if draw(ints(0, 9)) == 0 and not boot]
        for combo in itertools.product(*flat.values()):
            if any(all(v in split(g) for v, g in zip(combo, x)) for x in gone):
                continue
            for d in days:
                rows.append({**{k: POOL[k][0] for k in POOL}, **dict(zip(flat, combo)), 'fcst_valid_beg': d, 'fcst_lead': lead, 'fcst_var': 'TMP',
                             **draw(strat)})
    if not rows:
        rows = draw(rows_of(line, 1))
    combos = list(itertools.product(*ser.values()))
    derived = []
    for _ in range(draw(ints(1, 3))):
        a = draw(st.sampled_from(combos))
        b = draw(st.sampled_from([x for x in combos if sum(p != q for p, q in zip(a, x)) == 1] + combos[:1 + (len(combos) > 3)]))
        sa = draw(st.sampled_from(stats))
        sb = sa if draw(ints(0, 2)) else draw(st.sampled_from(stats))
        d = {'a': list(a), 'b': list(b), 'sa': sa, 'sb': sb, 'op': draw(pick('DIFF', 'DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG'))}
        if d not in derived:
            derived.append(d)
    return {'line': line, 'series': [[k, v] for k, v in ser.items()], 'alias': alias, 'stats': stats, 'rows': rows, 'derived': derived, 'axis': draw(pick('1', '1', '2')),
            'seed': draw(ints(1, 10 ** 6)), 'cbb': draw(st.booleans()), 'method': draw(pick('perc', 'perc', 'pivotal')),
            'indy': draw(pick('fcst_lead', 'fcst_lead', 'fcst_lead', 'fcst_valid_beg')), 'iterations': draw(ints(15, 40)) if boot else 1,
            'short': draw(ints(0, 3)) == 0}


def name_of(c, combo, stat):
    return ' '.join([c['alias'].get(v, v).replace('_yX_', f"_y{c['axis']}_") for v in combo] + ['TMP', stat])


def label_of(c, d):
    return f"{d['op']}({name_of(c, d['a'], d['sa'])}{SIGN[d['op']]}{name_of(c, d['b'], d['sb'])})"


def parameters(c, derived=None):
    derived = c['derived'] if derived is None else derived
    ivals = [str(x) for x in LEADS] if c['indy'] == 'fcst_lead' else ee.VALID[:2]
    names = [[name_of(c, d['a'], d['sa']), name_of(c, d['b'], d['sb']), d['op']] for d in derived]
    p = agg.params(line_type=c['line'], indy_var=c['indy'], indy_vals=ivals, series_val_1=dict(c['series']), list_stat_1=c['stats'],
                   fcst_var_val_1={'TMP': c['stats']}, num_iterations=c['iterations'], random_seed=c['seed'], method=c['method'],
                   circular_block_bootstrap=c['cbb'])
    if c['axis'] == '1':
        p['derived_series_1'] = names
    else:
        p.update(series_val_2=dict(c['series']), list_stat_2=c['stats'], fcst_var_val_2={'TMP': c['stats']}, derived_series_2=names)
    return p


def table(c):
    return agg.per_stat([dict(r, stat_value=None) for r in c['rows']], c['stats'])


def operand(c, combo, stat, ival):
    rows = [r for r in c['rows'] if str(r[c['indy']]) == ival and all(str(r[k]) in split(v) for k, v in zip(dict(c['series']), combo))]
    if not rows:
        return None, 0
    with quiet():
        return lines.statistic(c['line'], stat, rows), len(rows)


def derived_rows(c, out, d):
    """Output rows carrying this label, by independent value."""
    label = label_of(c, d)
    mine = [o for o in out if label in o.values()]
    return label, {o[c['indy']]: o for o in mine}, mine


def tolerance(c, stat, v):
    return 1e-9 if is_missing(v) else lines.tolerance(c['line'], stat, v)


def expected(c, d, ival):
    """(value, tolerance, rows) of a derived point; value None when missing."""
    a, na = operand(c, d['a'], d['sa'], ival)
    b, nb = operand(c, d['b'], d['sb'], ival)
    v = operate(d['op'], a, b)
    if v is None:
        return None, 0, a, b, min(na, nb)
    if shaky(c, d, a, b):
        return v, math.inf, a, b, min(na, nb)
    ta, tb = tolerance(c, d['sa'], a), tolerance(c, d['sb'], b)
    tol = {'SINGLE': ta}.get(d['op'], ta + tb)
    if d['op'] == 'RATIO':
        tol = (ta + abs(v) * tb) / abs(b)
    elif d['op'] == 'SS':
        tol = (tb + abs(b / a) * ta) / abs(a)
    return v, tol, a, b, min(na, nb)


def shaky(c, d, a, b):
    """A divisor so small that its rounding decides."""
    div = {'RATIO': b, 'SS': a}.get(d['op'])
    return div is not None and abs(div) < 1e-4


@facet("program", designs(), quick=300, thorough=3000, rule="a derived point with both operands defined and differing series")
def program(c):
    p = parameters(c)
    out = run(table(c), p)
    some = False
    base = len(list(itertools.product(*dict(c['series']).values()))) * len(p['indy_vals']) * len(c['stats']) * (1 if c['axis'] == '1' else 2)
    seen = 0
    for d in c['derived']:
        label, by, mine = derived_rows(c, out, d)
        expect(len(by) == len(p['indy_vals']) == len(mine), f"{len(mine)} derived rows {label}, expected one per independent value")
        seen += len(mine)
        for ival, o in by.items():
            want, tol, a, b, n = expected(c, d, ival)
            got = number(o['stat_value'])
            what = f"{label} at {ival}"
            differ = [k for k, x, y in zip(dict(c['series']), d['a'], d['b']) if x != y]
            if len(differ) == 1:                      # the label stands for the variable that differs; the others keep their common value
                for k, x in zip(dict(c['series']), d['a']):
                    expect(o[k] == (label if k == differ[0] else x), f"{what}: column {k} is {o[k]}")
            expect(o['stat_name'] == (d['sa'] if d['sa'] == d['sb'] else f"{d['sa']},{d['sb']}"), f"{what}: statistic {o['stat_name']}")
            if want is None:
                expect(got is None, f"{what}: got {got}, expected missing ({a}, {b})")
                continue
            if shaky(c, d, a, b):
                continue
            if d['op'] == 'DIFF_SIG':
                expect(got is None or abs(got) <= 1, f"{what}: significance {got}")
                continue
            expect(got is not None and abs(got - want) <= tol + 6e-6, f"{what}: got {got}, expected {want} from {a} and {b}")
            some = some or d['a'] != d['b']
    expect(len(out) == base + seen, f"{len(out)} rows, expected {base} + {seen}")
    return some


@facet("intervals", designs(True), quick=120, thorough=1200, rule="a derived interval of some width")
def intervals(c):
    """With resampling: the same value, ordered bounds; swapped operands mirror the difference; a series against itself is zero."""
    c = dict(c, indy='fcst_lead')
    d = dict(c['derived'][0])
    if c['short']:                                    # the first series lacks a day at the first lead
        day = c['rows'][0]['fcst_valid_beg']
        c['rows'] = [r for r in c['rows'] if (r['fcst_valid_beg'], r['fcst_lead']) != (day, LEADS[0]) or not all(str(r[k]) in split(v) for k, v in zip(dict(c['series']), d['a']))]
    out = run(table(c), parameters(c, [d]))
    label, by, mine = derived_rows(c, out, d)
    expect(len(mine) == 2, f"{len(mine)} derived rows {label}")
    if c['seed'] % 3 == 0:
        p = parameters(c, [d])
        del p['alpha']
        expect(run(table(c), p) == out, f"{label}: without a level the output differs from that at 95%")
    wide = False
    for ival, o in by.items():
        want, tol, a, b, n = expected(c, d, ival)
        got, lo, hi = (number(o[k]) for k in ('stat_value', 'stat_btcl', 'stat_btcu'))
        expect((lo is None) == (hi is None) and (lo is None or lo <= hi), f"{label}: bounds {lo} and {hi}")
        if want is None:
            expect(got is None, f"{label}: got {got}, expected missing ({a}, {b})")
        elif d['op'] == 'DIFF_SIG':
            if got is not None:
                expect(abs(got) <= 1, f"{label}: significance {got}")
        elif not shaky(c, d, a, b):
            expect(got is not None and abs(got - want) <= tol + 6e-6, f"{label} at {ival}: got {got}, expected {want} from {a} and {b}")
        wide = wide or (lo is not None and hi > lo)
        if operand(c, d['a'], d['sa'], ival)[1] != operand(c, d['b'], d['sb'], ival)[1]:
            expect(lo is None, f"{label} at {ival}: bounds {lo} and {hi} of series with different numbers of cases")
        if d['a'] == d['b'] and d['sa'] == d['sb'] and d['op'] in ('DIFF', 'RATIO') and got is not None:
            one = 1.0 if d['op'] == 'RATIO' else 0.0
            expect(abs(got - one) < 1e-6 and (lo is None or (abs(lo - one) < 1e-6 and abs(hi - one) < 1e-6)), f"{label}: {got} in {lo, hi}")
    if d['op'] in ('DIFF', 'RATIO'):
        back = dict(d, a=d['b'], b=d['a'], sa=d['sb'], sb=d['sa'])
        again = run(table(c), parameters(c, [back]))
        _, by2, _ = derived_rows(c, again, back)
        for ival, o in by.items():
            x = [number(o[k]) for k in ('stat_value', 'stat_btcl', 'stat_btcu')]
            y = [number(by2[ival][k]) for k in ('stat_value', 'stat_btcl', 'stat_btcu')]
            if d['op'] == 'DIFF':
                for u, v in ((x[0], y[0]), (x[1], y[2]), (x[2], y[1])):
                    expect((u is None) == (v is None) and (u is None or abs(u + v) <= 1e-6 * max(1, abs(u))), f"{label}: {x}, swapped {y}")
            elif x[0] and y[0] and min(abs(x[0]), abs(y[0])) > 1e-4:
                expect(abs(x[0] * y[0] - 1) <= 1e-5 * max(1, abs(x[0]), abs(y[0])) ** 2, f"{label}: {x}, swapped {y}")
    return wide


@st.composite
def separated(draw):
    """Two series whose errors do or do not overlap."""
    n = draw(ints(4, 7))
    gap = draw(pick(0, 0, 10, 30))
    swap = draw(st.booleans())
    err = [[draw(decimals(1, 3, 2)) + (gap if (i == 0) != swap else 0) for _ in range(n)] for i in (0, 1)]
    return {'err': err, 'n': n, 'gap': gap, 'seed': draw(ints(1, 10 ** 6)), 'stat': draw(pick('ME', 'MAE', 'FBAR')), 'iterations': draw(ints(30, 60))}


@facet("significance", separated(), quick=60, thorough=600, rule="clearly separated series")
def significance(c):
    """Sign: minus when the first series is farther from perfect; a clear gap gives full confidence; no sign without a perfect score."""
    rows = []
    for m, e in zip('AB', c['err']):
        for i, x in enumerate(e):
            rows.append({'model': m, 'fcst_valid_beg': f"2020-01-{i + 1:02d} 00:00:00", 'fcst_lead': agg.LEAD, 'fcst_var': 'TMP', 'total': 10,
                         'fbar': 5 + x, 'obar': 5.0, 'fobar': 1.0, 'ffbar': 900.0, 'oobar': 900.0, 'mae': x, 'stat_value': None})
    s = c['stat']
    p = agg.params(series_val_1={'model': ['A', 'B']}, indy_vals=[str(agg.LEAD)], list_stat_1=[s], fcst_var_val_1={'TMP': [s]},
                   num_iterations=c['iterations'], random_seed=c['seed'], derived_series_1=[[f'A TMP {s}', f'B TMP {s}', 'DIFF_SIG']])
    out = [o for o in run(agg.per_stat(rows, [s]), p) if o['model'].startswith('DIFF_SIG')]
    expect(len(out) == 1, f"{len(out)} derived rows")
    got = number(out[0]['stat_value'])
    if s == 'FBAR':
        expect(got is None, f"significance {got} of a statistic without a perfect score")
        return False
    a, b = (math.fsum(e) / c['n'] for e in c['err'])
    expect(got is not None and abs(got) <= 1, f"significance {got}")
    if abs(a - b) > 1e-6 and got != 0:
        expect((got < 0) == (a > b), f"significance {got} for means {a} and {b}")
    if c['gap']:
        expect(abs(got) == 1, f"significance {got} of fully separated series")
    return c['gap'] > 0


@facet("improvement", st.fixed_dictionaries({'stat': st.sampled_from(perfect.ZERO + perfect.ONE + perfect.NONE), 'a': decimals(-3, 3, 2), 'b': decimals(-3, 3, 2),
                                             'p': decimals(0.001, 1, 3), 'low': st.booleans()}), quick=1500, thorough=6000,
       rule="a statistic with a perfect score and means at different distances from it")
def improvement(c):
    """The confidence keeps its size; its sign says which mean is nearer the perfect score of the statistic."""
    got = call(utils.perfect_score_adjustment, c['a'], c['b'], c['stat'].lower() if c['low'] else c['stat'], c['p'])
    if c['stat'] in perfect.NONE:
        expect(got is None, f"{c['stat']}: {got} although no value of it is perfect")
        return False
    expect(got is not None and abs(got) == c['p'], f"{c['stat']}: confidence {c['p']} became {got}")
    best = 0 if c['stat'] in perfect.ZERO else 1
    gap = abs(c['a'] - best) - abs(c['b'] - best)
    if abs(gap) > 1e-9:
        expect((got < 0) == (gap > 0), f"{c['stat']}: {got} for means {c['a']} and {c['b']}")
    return abs(gap) > 1e-9


@facet("equivalence_program", st.fixed_dictionaries({'seed': ints(1, 1000)}), quick=4, thorough=8, rule="differing series")
def equivalence_program(c):
    """The equivalence operation through the aggregation program."""
    rows = []
    for j, m in enumerate('AB'):
        for i in range(6):
            rows.append({'model': m, 'fcst_valid_beg': f"2020-01-{i + 1:02d} 00:00:00", 'fcst_lead': agg.LEAD, 'fcst_var': 'TMP', 'total': 10,
                         'fbar': 5 + (c['seed'] * (i + 1) * (j + 2)) % 7, 'obar': 5.0, 'fobar': 1.0, 'ffbar': 900.0, 'oobar': 900.0, 'mae': 1.0, 'stat_value': None})
    p = agg.params(series_val_1={'model': ['A', 'B']}, indy_vals=[str(agg.LEAD)], list_stat_1=['ME'], fcst_var_val_1={'TMP': ['ME']},
                   derived_series_1=[['A TMP ME', 'B TMP ME', 'ETB']])
    run(agg.per_stat(rows, ['ME']), p)
    return True


@facet("paired", st.fixed_dictionaries({'b': lists(st.tuples(decimals(-9, 9, 1), ints(1, 40)), 2, 8), 'd': decimals(-5, 5, 1), 'seed': ints(1, 10 ** 6),
                                        'op': pick('DIFF', 'RATIO'), 'cbb': st.booleans(), 'iterations': ints(10, 40), 'axis': pick('1', '2')}),
       quick=40, thorough=400, rule="errors that vary from case to case")
def paired(c):
    """The two series are resampled case by case together: a difference (or ratio) that is the same in every case has no spread."""
    rows = []
    for m in 'AB':
        for i, (x, n) in enumerate(c['b']):
            e = 11 + x
            if m == 'A':
                e = e + c['d'] if c['op'] == 'DIFF' else e * (6 + c['d'])
            rows.append({'model': m, 'fcst_valid_beg': f"2020-01-{i + 1:02d} 00:00:00", 'fcst_lead': agg.LEAD, 'fcst_var': 'TMP', 'total': n,
                         'fbar': 5 + e, 'obar': 5.0, 'fobar': 1.0, 'ffbar': 9000.0, 'oobar': 900.0, 'mae': abs(e), 'stat_value': None})
    a = c['axis']
    p = agg.params(indy_vals=[str(agg.LEAD)], num_iterations=c['iterations'], random_seed=c['seed'], circular_block_bootstrap=c['cbb'])
    for x in {'1', a}:
        p.update({f'series_val_{x}': {'model': ['A', 'B']}, f'list_stat_{x}': ['ME'], f'fcst_var_val_{x}': {'TMP': ['ME']}})
    p[f'derived_series_{a}'] = [['A TMP ME', 'B TMP ME', c['op']]]
    out = [o for o in run(agg.per_stat(rows, ['ME']), p) if o['model'].startswith(c['op'])]
    expect(len(out) == 1, f"{len(out)} derived rows")
    want = c['d'] if c['op'] == 'DIFF' else 6 + c['d']
    got = [number(out[0][k]) for k in ('stat_value', 'stat_btcl', 'stat_btcu')]
    expect(got[0] is not None and all(v is None or abs(v - want) < 1e-5 for v in got), f"{c['op']} of {want} in every case: value and bounds {got}")
    return len({x for x, _ in c['b']}) > 1
