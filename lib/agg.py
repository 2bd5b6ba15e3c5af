"""Drivers for the file-to-file aggregation programs: write the input, run, read the output."""
import copy
import os

import pandas as pd

from vh import call, fail, quiet, scratch

BASE = {
    'random_seed': 1, 'indy_var': 'fcst_lead', 'indy_vals': ['30000'], 'method': 'perc', 'num_iterations': 1, 'num_threads': 1,
    'alpha': 0.05, 'event_equal': 'False', 'derived_series_1': [], 'derived_series_2': [],
    'fcst_var_val_1': {}, 'fcst_var_val_2': {}, 'fixed_vars_vals_input': {}, 'series_val_1': {}, 'series_val_2': {},
    'list_stat_1': [], 'list_stat_2': [], 'circular_block_bootstrap': False, 'line_type': 'sl1l2',
    'equalize_by_indep': 'False',
}

LEAD = 30000


def params(**over):
    p = copy.deepcopy(BASE)
    p.update(copy.deepcopy(over))
    return p


def per_stat(rows, stats):
    """The input carries every case once per requested statistic."""
    return [dict(r, stat_name=s) for s in stats for r in rows]


def write(rows, path, columns=None):
    pd.DataFrame(rows, columns=columns).to_csv(path, sep='\t', index=False, na_rep='NA')


def read(path):
    try:
        return pd.read_csv(path, sep='\t', header=[0], keep_default_na=True)
    except pd.errors.EmptyDataError:
        return pd.DataFrame()


def _run(cls, key, rows, p, method, columns=None):
    p = copy.deepcopy(p)
    with scratch() as d:
        src, out = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        if isinstance(rows, str):
            with open(src, 'w', encoding='utf-8') as f:
                f.write(rows)
        else:
            write(rows, src, columns)
        p[key + '_input'], p[key + '_output'] = src, out
        with quiet():
            getattr(cls(p), method)()
        if not os.path.exists(out):
            return None
        return read(out)


def run_agg_stat(rows, p, columns=None):
    """Output frame of the aggregation; an exception becomes a violation."""
    from metcalcpy.agg_stat import AggStat

    def aggregation():
        return _run(AggStat, 'agg_stat', rows, p, 'calculate_stats_and_ci', columns)
    return call(aggregation)


def value_of(out, **match):
    """The single output row with these field values (compared as text)."""
    sel = out
    for k, v in match.items():
        sel = sel[sel[k].astype(str) == str(v)]
    if len(sel) != 1:
        fail(f"{len(sel)} output rows for {match}")
    return sel.iloc[0]
