"""Seeded runs reproduce exactly, whatever ran before; point values do not depend on seed, iterations, batches or workers."""
import json
import os
import subprocess
import sys

import numpy as np

import objects
import runs
from ee import VALID
from vh import ROOT, call, decimals, expect, fail, facet, ints, pick, quiet, scratch, st

KINDS = ('direct', 'stat', 'stat', 'eclv', 'objects')


@st.composite
def job(draw, kinds=KINDS, threads=1):
    kind = draw(st.sampled_from(kinds))
    j = {'kind': kind, 'seed': draw(st.one_of(pick(0, 1), ints(0, 2 ** 31 - 1))), 'iterations': draw(ints(2, 40)), 'threads': threads, 'alpha': draw(pick(0.05, 0.2, 0.5)),
         'method': draw(pick('perc', 'perc', 'pivotal')), 'cbb': draw(st.booleans())}
    n = draw(ints(4, 12))
    models = [draw(st.sampled_from('AABBC')) for _ in range(n)]
    series = [['model', draw(st.permutations(draw(pick(['A', 'B'], ['A', 'B', 'C'], ['A']))))]]
    base = {'indy_var': 'fcst_lead', 'indy_vals': ['30000', '60000'], 'event_equal': 'False', 'fixed_vars_vals_input': {}, 'series_val_2': {},
            'list_stat_2': [], 'fcst_var_val_2': {}, 'derived_series_1': [], 'derived_series_2': [], 'equalize_by_indep': 'True'}
    if kind == 'direct':
        j.update(x=[[draw(decimals(-9, 9, 2)), draw(decimals(-9, 9, 2))] for _ in range(n)], batch=draw(st.one_of(st.none(), ints(1, 50))),
                 block=draw(pick(1, 1, 2, 3)))
        return j
    rows = []
    if kind == 'stat':
        names = [s for s in draw(st.permutations(['ME', 'RMSE', 'MAE']))[:draw(ints(1, 2))]]
        equal = draw(ints(0, 2)) == 0
        for s in names:
            for i, m in enumerate(models):
                rows.append({'model': m, 'fcst_lead': 30000 if i % 3 else 60000, 'fcst_valid_beg': VALID[i % 4], 'fcst_var': 'TMP', 'total': draw(ints(1, 40)),
                             'fbar': draw(decimals(-5, 5, 2)), 'obar': draw(decimals(-5, 5, 2)), 'fobar': 1.5, 'ffbar': draw(decimals(60, 90, 1)),
                             'oobar': draw(decimals(60, 90, 1)), 'mae': draw(decimals(0, 5, 2)), 'stat_name': s, 'stat_value': None})
        p = dict(base, line_type='sl1l2', list_stat_1=names, fcst_var_val_1={'TMP': names}, event_equal=str(equal))
        if equal:
            rows = list({(r['model'], r['fcst_lead'], r['fcst_valid_beg'], r['stat_name']): r for r in rows}.values())
            if len(series[0][1]) > 1 and draw(st.booleans()):
                a, b = series[0][1][:2]
                p['derived_series_1'] = [[f'{a} TMP {names[0]}', f'{b} TMP {names[0]}', draw(pick('DIFF', 'RATIO', 'DIFF_SIG'))]]
    elif kind == 'eclv':
        for i, m in enumerate(models):
            t = [draw(ints(0, 60)) for _ in range(4)]
            rows.append({'model': m, 'fcst_lead': 30000, 'fcst_valid_beg': VALID[i % 4], 'fcst_var': 'TMP', 'total': sum(t), 'fy_oy': t[0], 'fy_on': t[1],
                         'fn_oy': t[2], 'fn_on': t[3], 'stat_name': 'ECLV', 'stat_value': None})
        p = dict(base, line_type='ctc', indy_var='', indy_vals=[], agg_stat1=['ECLV'], cl_step=draw(pick(0.1, 0.25)), add_base_rate=draw(pick(0, 1)))
    else:
        names = draw(st.permutations(objects.names(None)[:40]))[:draw(ints(1, 3))]
        for i, m in enumerate(models * 3):
            o = draw(objects.OBJECT)
            rows.append({'model': m, 'fcst_lead': draw(pick(30000, 60000)), 'fcst_valid': VALID[i % 4], 'fcst_var': 'APCP', 'object_id': f'F{i:03d}',
                         'object_type': o['type'], 'fcst_flag': int(o['fcst']), 'simple_flag': int(o['simple']), 'matched_flag': int(o['matched']),
                         'stat_name': 'OBJ', 'stat_value': None})
        p = dict(base, list_stat_1=list(names), fcst_var_val_1={'APCP': list(names)})
    j.update(params=p, rows=rows, series=series)
    return j


def run(j):
    def bootstrap_run():
        return runs.run(j)
    with quiet():
        return call(bootstrap_run)


def points(j, out):
    """What does not depend on the resamples: the direct value, or every column but the bounds (a significance depends on the resamples)."""
    if j['kind'] == 'direct':
        return out[0][0]
    drop = [out[0].index(k) for k in ('stat_btcl', 'stat_btcu') if k in out[0]]
    return [[x for i, x in enumerate(line) if i not in drop] for line in out if not any(x.startswith('DIFF_SIG') for x in line)]


def bounded(j, out):
    if j['kind'] == 'direct':
        return out[0][1] is not None
    if 'stat_btcl' not in out[0]:
        return False
    lo = out[0].index('stat_btcl')
    return any(line[lo] not in ('NA', '', 'nan') for line in out[1:])


def same(a, b):
    return json.dumps(a) == json.dumps(b)


@facet("repeat", st.fixed_dictionaries({'jobs': st.lists(job(), min_size=1, max_size=3), 'between': ints(0, 10 ** 6)}), quick=100, thorough=1000,
       rule="an interval with defined bounds")
def repeat(c):
    """The same runs again, in another order and with the generator disturbed in between."""
    first = [run(j) for j in c['jobs']]
    np.random.seed(c['between'])
    np.random.rand(c['between'] % 7)
    for j, a in reversed(list(zip(c['jobs'], first))):
        b = run(j)
        expect(same(a, b), f"{j['kind']} run with seed {j['seed']} gave {a}, repeated {b}")
    return any(bounded(j, a) for j, a in zip(c['jobs'], first))


@facet("point_values", st.fixed_dictionaries({'job': job(), 'seed': st.one_of(st.none(), ints(0, 10 ** 6)), 'iterations': ints(2, 60),
                                              'batch': st.one_of(st.none(), ints(1, 30)), 'what': pick('seed', 'iterations', 'batch', 'cbb', 'method', 'all')}),
       quick=120, thorough=1200, rule="an interval with defined bounds")
def point_values(c):
    """Another seed, number of iterations, batch size, block or interval method leaves the point values alone."""
    j = c['job']
    a = run(j)
    k = dict(j)
    for what in ('seed', 'iterations', 'batch'):
        if c['what'] in (what, 'all') and what in k:
            k[what] = c[what]
    if c['what'] in ('cbb', 'all'):
        k['cbb'] = not k['cbb']
        if 'block' in k:
            k['block'] = 1 + k['block'] % 4
    if c['what'] in ('method', 'all'):
        k['method'] = 'pivotal' if k['method'] == 'perc' else 'perc'
    b = run(k)
    expect(same(points(j, a), points(k, b)), f"{j['kind']}: point values {points(j, a)} with {c['what']} changed {points(k, b)}")
    if c['what'] == 'batch' and j['kind'] == 'direct':
        expect(len(a[1]) == len(b[1]) == j['iterations'], f"{len(a[1])} and {len(b[1])} resamples of {j['iterations']}")
    return bounded(j, a)


@facet("seeds_differ", job(('direct',)), quick=60, thorough=600, rule="the rows differ")
def seeds_differ(j):
    """Seeds matter: some of several seeds give another set of resamples when rows differ."""
    j = dict(j, iterations=40)
    if len({tuple(r) for r in j['x']}) < 4 or len({r[0] * r[1] for r in j['x']}) < 4:
        return False
    outs = {json.dumps(run(dict(j, seed=j['seed'] // 2 + k))[1]) for k in range(4)}
    expect(len(outs) > 1, "four seeds give the same resamples")
    return True


@facet("workers", st.fixed_dictionaries({'job': job(('direct', 'stat', 'objects')), 'threads': ints(2, 3)}), quick=12, thorough=80,
       rule="an interval with defined bounds")
def workers(c):
    """More workers leave the point values alone and are themselves reproducible."""
    j = c['job']
    a, b, again = run(j), run(dict(j, threads=c['threads'])), run(dict(j, threads=c['threads']))
    expect(same(points(j, a), points(j, b)), f"{j['kind']}: point values {points(j, a)} with one worker, {points(j, b)} with {c['threads']}")
    expect(same(b, again), f"{j['kind']} run with {c['threads']} workers gave {b}, repeated {again}")
    if j['kind'] == 'direct':
        expect(len(b[1]) >= j['iterations'], f"{len(b[1])} of {j['iterations']} resamples with {c['threads']} workers")
    return bounded(j, b)


@facet("fresh_process", st.fixed_dictionaries({'jobs': st.lists(job(), min_size=3, max_size=8), 'hash': ints(1, 10 ** 6)}), quick=4, thorough=30,
       rule="an interval with defined bounds")
def fresh_process(c):
    """A new interpreter with another string hashing gives the same output."""
    first = [run(j) for j in c['jobs']]
    with scratch() as d:
        src, out = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
        with open(src, 'w', encoding='utf-8') as f:
            json.dump(c['jobs'][::-1], f)
        env = dict(os.environ, PYTHONHASHSEED=str(c['hash']), PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'lib', 'runs.py'), src, out], env=env, capture_output=True, text=True, cwd=d, timeout=80)
        if r.returncode or not os.path.exists(out):
            fail(f"fresh process failed: {r.stderr[-300:]}")
        with open(out, encoding='utf-8') as f:
            second = json.load(f)[::-1]
    for j, a, b in zip(c['jobs'], first, second):
        expect(same(a, b), f"{j['kind']} run with seed {j['seed']} gave {a}, in a fresh process {b}")
    return any(bounded(j, a) for j, a in zip(c['jobs'], first))
