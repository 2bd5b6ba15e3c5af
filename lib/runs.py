"""Bootstrap runs described by plain data, made in this or in a fresh process: python runs.py JOBS.json OUT.json"""
import copy
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd


def column(values):
    """A statistic of the samples that depends on rows and their order."""
    values = np.asarray(values, dtype=float)
    if values.ndim == 2:
        return [float((values[:, 0] * values[:, 1]).sum())]
    return [[float((v[:, 0] * v[:, 1]).sum() + v[0, 0])] for v in values]


def direct(j):
    from metcalcpy.bootstrap import bootstrap_and_value
    if j['seed'] is not None:
        np.random.seed(j['seed'])
    r = bootstrap_and_value(np.array(j['x'], dtype=float), stat_func=column, alpha=j['alpha'], num_iterations=j['iterations'],
                            iteration_batch_size=j['batch'], num_threads=j['threads'], ci_method=j['method'], save_distributions=True,
                            block_length=j['block'])
    return [[r.value, r.lower_bound, r.upper_bound], [float(x) for x in r.distributions]]


def program(j):
    d = tempfile.mkdtemp(prefix='runs')
    try:
        p = copy.deepcopy(j['params'])
        p['series_val_1'] = {k: list(v) for k, v in j['series']}
        p.update(random_seed=j['seed'], num_iterations=j['iterations'], num_threads=j['threads'], method=j['method'],
                 circular_block_bootstrap=j['cbb'], alpha=j['alpha'],
                 agg_stat_input=os.path.join(d, 'agg_stat_bootstrap.data'), agg_stat_output=os.path.join(d, 'out.data'))
        pd.DataFrame(j['rows']).to_csv(p['agg_stat_input'], sep='\t', index=False, na_rep='NA')
        if j['kind'] == 'stat':
            from metcalcpy.agg_stat import AggStat
            AggStat(p).calculate_stats_and_ci()
        elif j['kind'] == 'eclv':
            from metcalcpy.agg_eclv import AggEclv
            AggEclv(p).calculate_stats_and_ci()
        else:
            from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
            AggStatBootstrap(p).calculate_values()
        with open(p['agg_stat_output'], encoding='utf-8') as f:
            return [line.rstrip('\n').split('\t') for line in f]
    finally:
        shutil.rmtree(d)


def run(j):
    return direct(j) if j['kind'] == 'direct' else program(j)


def main():
    with open(sys.argv[1], encoding='utf-8') as f:
        jobs = json.load(f)
    out = []
    for j in jobs:
        sys.stdout = sys.stderr = open(os.devnull, 'w', encoding='utf-8')
        out.append(run(j))
    with open(sys.argv[2], 'w', encoding='utf-8') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
