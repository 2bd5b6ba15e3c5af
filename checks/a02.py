"""Aggregation does not depend on how the data are split, ordered and labelled."""
import agg
import lines
from aggcase import bin_parameters, bins, case, number, parameters, run, split as members, table
from vh import expect, facet, ints, st

SPLITTABLE = ('sl1l2', 'sal1l2', 'vl1l2', 'val1l2', 'vcnt', 'grad', 'ctc', 'nbr_ctc', 'ecnt', 'rps', 'nbr_cnt', 'mctc', 'pct', 'ssvar')


def index(out):
    return {tuple((k, v) for k, v in sorted(o.items()) if k not in ('stat_value', 'stat_btcl', 'stat_btcu', 'nstats')): o for o in out}


def same(a, b, line, what, counts=True, rename=None):
    """Both outputs have the same points with equal values."""
    ia, ib = index(a), index(b)
    if rename:
        ia = {tuple((k, rename.get((k, v), v)) for k, v in key): o for key, o in ia.items()}
    expect(len(a) == len(b) and set(ia) == set(ib), f"{what}: different points")
    some = False
    for k, x in ia.items():
        y = ib[k]
        va, vb = number(x['stat_value']), number(y['stat_value'])
        if va is None or vb is None:
            expect(va is vb, f"{what}: {dict(k)} was {va}, became {vb}")
            continue
        expect(abs(va - vb) <= lines.tolerance(line, '', va), f"{what}: {line} {dict(k)} was {va}, became {vb}")
        some = True
        if counts:
            expect(x['nstats'] == y['nstats'], f"{what}: rows {x['nstats']} became {y['nstats']}")
    return some


def stats(c):
    return sorted(set(c['stats1'] + c['stats2']))


@facet("order", st.fixed_dictionaries({'c': case(), 'r': st.randoms(use_true_random=False).map(lambda r: r.randrange(10 ** 6))}), quick=150, thorough=1200,
       rule="a defined value")
def order(c):
    """Rows shuffled, columns shuffled, series values, statistics and independent values listed in another order."""
    import random
    rnd = random.Random(c['r'])
    d = c['c']
    rows = table(d, stats(d))
    p = parameters(d)
    a = run(rows, p)
    moved = [dict(r) for r in rows]
    rnd.shuffle(moved)
    cols = list(rows[0])
    if d['line'] != 'pct':
        rnd.shuffle(cols)
    moved = [{k: r[k] for k in cols} for r in moved]
    q = dict(p)
    for k in ('list_stat_1', 'list_stat_2', 'indy_vals'):
        q[k] = rnd.sample(p[k], len(p[k]))
    for k in ('series_val_1', 'series_val_2'):
        q[k] = {x: rnd.sample(p[k][x], len(p[k][x])) for x in rnd.sample(sorted(p[k]), len(p[k]))}
    return same(a, run(moved, q), d['line'], "reordered")


@facet("unrelated", st.fixed_dictionaries({'c': case(), 'other': case(), 'at': ints(0, 30)}), quick=150, thorough=1200, rule="a defined value")
def unrelated(c):
    """Rows of other models, variables or statistics, and columns nobody asked for, change nothing."""
    d = c['c']
    rows = table(d, stats(d))
    p = parameters(d)
    a = run(rows, p)
    extra = []
    for i, r in enumerate(rows[:6]):
        e = dict(r)
        how = (i + c['at']) % 3
        if how == 0:
            for k in list(d['s1']):
                e[k] = {'model': 'OTHER', 'vx_mask': 'X', 'interp_pnts': 1000, 'frac': 0.875}[k]
        elif how == 1:
            e['fcst_var'] = 'RH'
        else:
            e['stat_name'] = 'UNASKED'
        extra.append(e)
    at = c['at'] % (len(rows) + 1)
    both = [dict(r, spare=1.5, note='x') for r in rows[:at] + extra + rows[at:]]
    return same(a, run(both, p), d['line'], "with unrelated rows")


@facet("renamed", case(), quick=150, thorough=1200, rule="a defined value")
def renamed(d):
    """Consistently renamed models give the renamed output."""
    if 'model' not in d['s1']:
        d = dict(d, s1={'model': ['A', 'B:A_2']}, s2={'model': ['A']} if d['s2'] else {})
    new = {'A': 'zeta', 'B': 'A', 'A_2': 'mid v2', 'none such': 'none such'}

    def ren(v):
        return ':'.join(new[x] for x in v.split(':'))
    p = parameters(d)
    a = run(table(d, stats(d)), p)
    e = dict(d, rows=[dict(r, model=new[r['model']]) for r in d['rows']])
    for s in ('s1', 's2'):
        e[s] = {k: ([ren(v) for v in vs] if k == 'model' else vs) for k, vs in d[s].items()}
    b = run(table(e, stats(e)), parameters(e))
    names = {v for s in ('s1', 's2') for v in d[s].get('model', [])}
    return same(a, b, d['line'], "renamed", rename={('model', v): ren(v) for v in names})


@facet("grouped", case(), quick=150, thorough=1200, rule="a defined value")
def grouped(d):
    """A group equals one series carrying all its rows."""
    d = dict(d, s1={'model': ['A:A_2', 'B']}, s2={}, stats2=[])
    a = run(table(d, stats(d)), parameters(d))
    e = dict(d, s1={'model': ['joined', 'B']}, rows=[dict(r, model='joined' if r['model'] != 'B' else 'B') for r in d['rows']])
    b = run(table(e, stats(e)), parameters(e))
    return same(a, b, d['line'], "grouped", rename={('model', 'A:A_2'): 'joined'})


@st.composite
def split_case(draw):
    c = draw(case(SPLITTABLE))
    return {'c': c, 'parts': [draw(ints(1, 3)) for _ in c['rows']], 'cut': [draw(ints(1, 99)) for _ in c['rows']]}


COUNT = ('fy_', 'fn_', 'n_ge_obs', 'n_lt_obs', 'fi_oj', 'oy_i', 'on_i')


@facet("split", split_case(), quick=150, thorough=1200, rule="a row was split and some value is defined")
def split(c):
    """A row replaced by rows that pool to it."""
    d = c['c']
    rows, did = [], False
    for r, n, cut in zip(d['rows'], c['parts'], c['cut']):
        left = dict(r)
        for _ in range(n - 1):
            part = dict(left)
            if d['line'] in ('ctc', 'nbr_ctc', 'mctc', 'pct'):
                for k in r:
                    if k.startswith(COUNT):
                        part[k] = left[k] * cut // 100
                part['total'] = sum(part[k] for k in r if k.startswith(COUNT))
            else:
                for k in ('total', 'n_ge_obs', 'n_lt_obs', 'bin_n'):
                    if k in r:
                        part[k] = left[k] * cut // 100
            if part['total'] < 1 or part.get('bin_n', 1) < 1 or min(part.get('n_ge_obs', 1), part.get('n_lt_obs', 1)) < 1:
                break
            for k in r:
                if k == 'total' or k == 'bin_n' or k.startswith(COUNT):
                    left[k] = left[k] - part[k]
            rows.append(part)
            did = True
        rows.append(left)
    p = parameters(d)
    a = run(table(d, stats(d)), p)
    b = run(table(dict(d, rows=rows), stats(d)), p)
    return same(a, b, d['line'], "split", counts=False) and did


@facet("curve", bins(), quick=50, thorough=500, rule="rows of other series, and a bin with a defined value")
def curve(c):
    """Rows of other series and variables leave a curve over probability bins as it is."""
    stats = ['PSTD_CALIBRATION', 'PSTD_NI', 'PSTD_BASER', 'PSTD_RESOLUTION', 'PSTD_RELIABILITY']
    p = bin_parameters(c, stats)
    related = [r for r in c['rows'] if r['fcst_var'] == 'TMP' and all(r[k] in sum(map(members, vs), []) for k, vs in p['series_val_1'].items())]
    if not related:
        return False
    a = run(agg.per_stat(related, stats), p)
    b = run(agg.per_stat([c['rows'][i] for i in c['order']], stats), p)
    return same(a, b, 'pct', "with unrelated rows") and len(related) < len(c['rows'])
