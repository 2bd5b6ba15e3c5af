"""Scorecard entries are the named operation on the rows of the two named series."""
import itertools
import math
import os
import random

import pandas as pd
from scipy.stats import t as student

import agg
from aggcase import number
from perfect import NONE, ONE, ZERO
from vh import call, decimals, expect, facet, ints, lists, pick, quiet, scratch, st
from metcalcpy.scorecard import Scorecard

POOL = {'fcst_lead': ['120000', '240000', '360000', '480000'], 'fcst_lev': ['P200', 'P500'], 'model': ['A_v1', 'B', 'C.2']}
MASKS = ['EAST', 'NMT', 'G2/TRO']
SIGN = {'DIFF': '-', 'DIFF_SIG': '-', 'SINGLE': '-'}
DAYS = [f"2011-07-{d:02d} 12:00:00" for d in range(1, 13)]


@st.composite
def case(draw, ops=('DIFF', 'DIFF', 'SINGLE')):
    keys = draw(st.permutations(list(POOL)))
    series = []
    for k in keys:
        vals = list(draw(st.permutations(POOL[k])))[:draw(ints(2 if k == 'model' else 1, 2))]
        if k == 'fcst_lead' and draw(ints(0, 2)) == 0:
            vals = [':'.join(vals + [x for x in POOL[k] if x not in vals][:1])] + [x for x in POOL[k] if x not in vals][1:2]
        series.append([k, vals])
    stats = draw(st.lists(st.sampled_from(ZERO + ONE + NONE), unique=True, min_size=1, max_size=2))
    days = DAYS[:draw(pick(1, 2, 3, 4, 5, 8))]
    masks = MASKS[:draw(ints(1, 3))]
    rows = []
    single = [[k, [x for v in vals for x in v.split(':')]] for k, vals in series]
    for s, mask in itertools.product(stats, masks):
        for combo in itertools.product(*[v for _, v in single]):
            if rows and draw(ints(0, 19)) == 0:
                continue
            gap = draw(ints(0, 29)) == 0 and rows
            for d in days[1:] if gap else days:
                rows.append({'stat_name': s, 'stat_value': draw(decimals(-3, 3, 3)), 'fcst_var': 'HGT', **dict(zip([k for k, _ in single], combo)),
                             'fcst_valid_beg': d, 'vx_mask': mask, 'stat_ncl': None, 'stat_ncu': None})
    random.Random(draw(ints(0, 999))).shuffle(rows)
    derived = []
    combos = list(itertools.product(*[v for _, v in series]))
    for _ in range(draw(ints(1, 3))):
        a = list(draw(st.sampled_from(combos)))
        b = list(a)
        i = keys.index('model')
        b[i] = draw(st.sampled_from([m for m in series[i][1] if m != a[i]] * 3 + [a[i]]))
        j = draw(ints(0, 6))
        if j < 3 and keys[j] != 'fcst_lead':
            b[j] = draw(st.sampled_from(series[j][1]))
        d = {'a': a, 'b': b, 'stat': draw(st.sampled_from(stats)), 'op': draw(st.sampled_from(ops))}
        if d not in derived:
            derived.append(d)
    return {'series': series, 'stats': stats, 'rows': rows, 'derived': derived, 'masks': masks + (['none such'] if draw(ints(0, 5)) == 0 else []),
            'flag': draw(pick('NCAR', 'EMC')), 'ndays': len(days)}


def name(combo, stat):
    return ' '.join([*combo, 'HGT', stat])


def parameters(c, **over):
    p = {'append_to_file': False, 'derived_series_1': [[name(d['a'], d['stat']), name(d['b'], d['stat']), d['op']] for d in c['derived']],
         'equalize_by_indep': True, 'event_equal': False, 'fcst_var_val_1': {'HGT': c['stats']}, 'fix_val_list_eq': [], 'fixed_vars_vals_input': {},
         'indy_plot_val': [], 'indy_vals': c['masks'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': c['stats'], 'ndays': c['ndays'],
         'series_val_1': dict(c['series']), 'stat_flag': c['flag']}
    p.update(over)
    return p


def run(rows, p, before=None):
    with scratch() as d, quiet():
        p['sum_stat_input'], p['sum_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        agg.write(rows, p['sum_stat_input'])
        if before is not None:
            with open(p['sum_stat_output'], 'w', encoding='utf-8') as f:
                f.write(before)
        call(lambda: Scorecard(p).calculate_scorecard_data())
        if not os.path.exists(p['sum_stat_output']):
            return [], ''
        with open(p['sum_stat_output'], encoding='utf-8') as f:
            text = f.read()
        return pd.read_csv(p['sum_stat_output'], sep='\t', dtype=str, keep_default_na=False).to_dict('records'), text


def values(c, combo, stat, mask):
    """stat_value by case of one series at one independent value."""
    out = {}
    for r in c['rows']:
        if r['stat_name'] == stat and r['vx_mask'] == mask and all(r[k] in v.split(':') for (k, _), v in zip(c['series'], combo)):
            out[r['fcst_valid_beg'], r['fcst_lead']] = r['stat_value']
    return out


def entries(c, out, rows=None):
    """(derived series, mask, output row, paired values) of every expected entry; the output has no others."""
    left = list(out)
    found = []
    for d in c['derived']:
        label = f"{d['op']}({name(d['a'], d['stat'])}-{name(d['b'], d['stat'])})"
        for mask in c['masks']:
            a, b = values(c, d['a'], d['stat'], mask), values(c, d['b'], d['stat'], mask)
            mine = [o for o in left if o['model'] == label and o['vx_mask'] == mask]
            if not a or not b:
                expect(not mine, f"an entry {label} for {mask} without data")
                continue
            if set(a) != set(b) and d['op'] != 'SINGLE':     # nothing is claimed for other cases
                for o in mine[:1]:
                    expect(len(a) == len(b) or number(o['stat_value']) is None, f"{label}: {o['stat_value']} from {len(a)} and {len(b)} cases")
                    left.remove(o)
                continue
            expect(mine, f"no entry {label} for {mask}")
            o = mine[0]
            left.remove(o)
            expect(o['stat_name'] == d['stat'], f"{label}: statistic {o['stat_name']}")
            lead = d['a'][[k for k, _ in c['series']].index('fcst_lead')]
            expect(o['fcst_lead'] == lead, f"{label}: lead {o['fcst_lead']}, named {lead}")
            found.append((d, mask, o, [(a[k], b.get(k)) for k in sorted(a)]))
    expect(not left, f"unexpected entries {left[:1]}")
    return found


@facet("means", case(), quick=200, thorough=1500, rule="a difference of two series")
def means(c):
    out, _ = run(c['rows'], parameters(c))
    some = False
    for d, mask, o, pairs in entries(c, out):
        n = len(pairs)
        want = math.fsum(x for x, _ in pairs) / n if d['op'] == 'SINGLE' else math.fsum(x - y for x, y in pairs) / n
        got = number(o['stat_value'])
        expect(got is not None and abs(got - want) <= 2e-5, f"{o['model']} at {mask}: {got}, expected {want}")
        some = some or (d['op'] == 'DIFF' and d['a'] != d['b'])
    return some


def better(stat, a, b):
    """Whether the first mean is at least as near the perfect score; None without one."""
    if stat in NONE:
        return None
    p = 0 if stat in ZERO else 1
    return abs(a - p) <= abs(b - p)


@facet("significance", case(ops=('DIFF_SIG',)), quick=250, thorough=1500, rule="a significance of differing series")
def significance(c):
    """Confidence of the paired t test, negative when the first series is farther from perfect."""
    c = dict(c, flag='NCAR')
    out, _ = run(c['rows'], parameters(c))
    some = False
    for d, mask, o, pairs in entries(c, out):
        got = number(o['stat_value'])
        what = f"{o['model']} at {mask}"
        n = len(pairs)
        diff = [x - y for x, y in pairs]
        avg = math.fsum(diff) / n
        sd = math.sqrt(math.fsum((x - avg) ** 2 for x in diff) / (n - 1)) if n > 1 else 0
        up = better(d['stat'], math.fsum(x for x, _ in pairs) / n, math.fsum(y for _, y in pairs) / n)
        if up is None:
            expect(got is None, f"{what}: {got} for a statistic without a perfect score")
            continue
        if sd < 1e-9:
            expect(got is None or got in (-1, 0, 1), f"{what}: {got} without spread of the differences")
            continue
        want = 1 - 2 * student.sf(abs(avg) / (sd / math.sqrt(n)), n - 1)
        expect(got is not None and abs(abs(got) - want) <= 1e-4, f"{what}: {got}, expected size {want}")
        p = 0 if d['stat'] in ZERO else 1
        gap = abs(math.fsum(x for x, _ in pairs) / n - p) - abs(math.fsum(y for _, y in pairs) / n - p)
        if abs(gap) > 1e-6 and want > 1e-3:
            expect((got > 0) == (gap < 0), f"{what}: sign of {got}")
        some = some or d['a'] != d['b']
    return some


LEVELS = [(80, (1.96, 2.576, 3.291)), (40, (2.0, 2.66, 3.46)), (20, (2.042, 2.75, 3.646)), (0, (2.228, 3.169, 4.587))]


@st.composite
def emc(draw):
    n = draw(st.one_of(ints(1, 12), ints(13, 110), pick(19, 20, 21, 39, 40, 41, 79, 80, 81)))
    noise = random.Random(draw(ints(0, 9999)))
    base = draw(decimals(-2, 2, 1))
    scale = draw(pick(1, 1, 1, 0.1, 0))
    e = [scale * noise.uniform(-1, 1) for _ in range(n)]
    b = [round(base + scale * noise.uniform(-1, 1), 4) for _ in range(n)]
    # a difference of about so many half widths, close to the levels of this or another length
    k95, k99, k999 = draw(st.sampled_from([next(k for low, k in LEVELS if n >= low)] * 3 + [k for _, k in LEVELS]))
    times = draw(pick(1, k99 / k95, k999 / k95, 1, k99 / k95, k999 / k95, 0.2, 4, 30)) * draw(pick(0.97, 0.985, 0.994, 1.006, 1.015, 1.03))
    avg = sum(e) / n
    std = math.sqrt(sum((x - avg) ** 2 for x in e) / n)
    gap = draw(pick(1, -1)) * times * 1.96 * std / math.sqrt(max(n - 1, 1)) if scale else draw(pick(0, 0.5, -3))
    return {'a': [round(y + x - avg + gap, 4) for x, y in zip(e, b)], 'b': b, 'stat': draw(pick('ME', 'RMSE', 'ANOM_CORR', 'ME', 'RMSVE', 'BIAS'))}


@facet("levels", emc(), quick=600, thorough=4000, rule="a significant difference")
def levels(c):
    """The other convention: 95, 99 or 99.9 percent when the difference exceeds that multiple of its standard error."""
    n = len(c['a'])
    dates = [f"{y}-{m:02d}-{d:02d} 00:00:00" for y, m, d in itertools.product((2011,), range(1, 13), range(1, 29))][:n]
    rows = []
    for m, vals in (('A', c['a']), ('B', c['b'])):
        rows += [{'stat_name': c['stat'], 'stat_value': v, 'fcst_var': 'HGT', 'fcst_lead': '120000', 'model': m, 'fcst_valid_beg': d, 'vx_mask': 'EAST'}
                 for v, d in zip(vals, dates)]
    case = {'series': [['fcst_lead', ['120000']], ['model', ['A', 'B']]], 'stats': [c['stat']], 'rows': rows, 'masks': ['EAST'], 'flag': 'EMC', 'ndays': n,
            'derived': [{'a': ['120000', 'A'], 'b': ['120000', 'B'], 'stat': c['stat'], 'op': 'DIFF_SIG'}]}
    out, _ = run(rows, parameters(case))
    (_, _, o, pairs), = entries(case, out)
    got = number(o['stat_value'])
    if n == 1:
        expect(got is None, f"significance {got} of one pair")
        return False
    diff = [y - x for x, y in pairs]
    avg = math.fsum(diff) / n
    std = math.sqrt(math.fsum((x - avg) ** 2 for x in diff) / n)
    half = 1.96 * std / math.sqrt(n - 1)
    if half < 1e-5:
        return False
    expect(got in (0, 0.95, 0.99, 1, -0.95, -0.99, -1), f"significance {got}")
    m1, m2 = math.fsum(c['a']) / n, math.fsum(c['b']) / n
    ds = abs(avg) / half
    k95, k99, k999 = next(k for low, k in LEVELS if n >= low)
    steps = [(k999 / k95, 1), (k99 / k95, 0.99), (1, 0.95)]
    if any(abs(ds - s) < 0.003 * s for s, _ in steps) or abs(abs(m1) - abs(m2)) < 1e-5:
        return False
    want = next((level for s, level in steps if ds > s), 0)
    good = {'ME': abs(m1) < abs(m2), 'BIAS': abs(m1) < abs(m2), 'RMSE': m1 < m2, 'RMSVE': m1 < m2}.get(c['stat'], m1 > m2)
    want = want if good else -want
    expect(got == want, f"{c['stat']} significance {got}, expected {want} for means {m1} and {m2}, difference {ds} half widths")
    return want != 0


@facet("growth", st.fixed_dictionaries({'d': lists(decimals(-1, 1, 2), 3, 12),
                                        'gap': decimals(0.1, 2, 2), 'more': decimals(0.1, 3, 2), 'stat': pick('ME', 'RMSE', 'ANOM_CORR'),
                                        'flag': pick('NCAR', 'EMC')}), quick=60, thorough=600, rule="the smaller gap is not fully significant")
def growth(c):
    """A wider gap between otherwise equal series never lowers the confidence."""
    sizes = []
    sign = -1 if c['stat'] == 'ANOM_CORR' else 1
    for gap in (c['gap'], c['gap'] + c['more']):
        rows = []
        for m, off in (('A', 0), ('B', gap)):
            rows += [{'stat_name': c['stat'], 'stat_value': round(10 * (sign > 0) + sign * off + (x if m == 'B' else 0), 3), 'fcst_var': 'HGT',
                      'fcst_lead': '120000', 'model': m, 'fcst_valid_beg': d, 'vx_mask': 'EAST'} for x, d in zip(c['d'], DAYS)]
        case = {'series': [['fcst_lead', ['120000']], ['model', ['A', 'B']]], 'stats': [c['stat']], 'rows': rows, 'masks': ['EAST'], 'flag': c['flag'],
                'ndays': len(c['d']), 'derived': [{'a': ['120000', 'A'], 'b': ['120000', 'B'], 'stat': c['stat'], 'op': 'DIFF_SIG'}]}
        if len(set(c['d'])) < 2:
            return False
        diff = [r['stat_value'] for r in rows[len(c['d']):]]
        if abs(math.fsum(diff) / len(diff) - rows[0]['stat_value']) < 1e-6 or (math.fsum(diff) / len(diff) - rows[0]['stat_value']) * sign < 0:
            return False
        out, _ = run(rows, parameters(case))
        sizes.append(number(out[0]['stat_value']))
    expect(None not in sizes and sizes[0] <= sizes[1] + 1e-5 and sizes[1] >= 0, f"significance {sizes[0]} with a gap of {c['gap']}, {sizes[1]} with {c['more']} more")
    return sizes[0] < 1


@facet("appended", st.fixed_dictionaries({'case': case(), 'flag': pick('True', 'False', True, False)}), quick=30, thorough=200, rule="an entry is written after others")
def appended(c):
    """Appending keeps what the file holds and adds the entries without a second header."""
    out, fresh = run(c['case']['rows'], parameters(c['case']))
    _, text = run(c['case']['rows'], parameters(c['case'], append_to_file=c['flag']), before='first\tline\n')
    if not out:
        return False
    if c['flag'] in ('True', True):
        expect(text == 'first\tline\n' + fresh.split('\n', 1)[1], f"appended file {text[:200]!r}")
        return True
    expect(text == fresh, f"replaced file {text[:200]!r}")
    return False
