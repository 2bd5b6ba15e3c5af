"""The statistic functions of every line type and tables for them with missing and zero entries."""
import importlib

import numpy as np

from lines import ROWS, STATS
from vh import ints, pick, st

MODULES = {'sl1l2': ['sl1l2'], 'sal1l2': ['sal1l2', 'sl1l2'], 'ssvar': ['ssvar'], 'grad': ['grad'], 'vl1l2': ['vl1l2'], 'val1l2': ['val1l2'],
           'vcnt': ['vcnt'], 'ctc': ['ctc'], 'nbr_ctc': ['nbrctc'], 'ecnt': ['ecnt'], 'rps': ['rps'], 'nbr_cnt': ['nbrcnt'], 'mctc': ['mcts'], 'pct': ['pstd']}
MORE = {'ctc': 'ODDS ODDS1 SEDI EDI EDS CTS_TOTAL CTC_FN_OY CTC_FY_ON CTC_ON CTC_FN', 'nbr_ctc': 'NBR_ODDS', 'ssvar': 'SSVAR_TOTAL',
        'pct': 'PSTD_CALIBRATION PSTD_NI PCT_TOTAL'}


def functions(line):
    out = {}
    for name in STATS[line] + MORE.get(line, '').split():
        for m in MODULES[line]:
            f = getattr(importlib.import_module(f'metcalcpy.util.{m}_statistics'), 'calculate_' + name.lower(), None)
            if f is not None:
                out[name] = f
    return out


FUNCTIONS = {line: functions(line) for line in sorted(ROWS)}
WORDS = ['nan', 'nan', 'zero']
PLACE = {'cell': 3, 'column': 3, 'row': 1}


@st.composite
def degenerate(draw, line=None):
    line = line or draw(st.sampled_from(sorted(ROWS)))
    n = draw(st.one_of(ints(1, 4), ints(0, 2)))
    first = draw(ROWS[line]())
    rows = [first] + [draw(ROWS[line]()) for _ in range(n - 1)] if n else []
    hits = []
    for _ in range(draw(pick(0, 1, 1, 2, 2, 3, 5, 8))):
        hits.append([draw(pick(*[p for p, k in PLACE.items() for _ in range(k)])), draw(ints(0, 9)), draw(st.sampled_from(sorted(first))), draw(pick(*WORDS))])
    if draw(ints(0, 11)) == 0:
        hits.append(['table', 0, '', draw(pick('nan', 'zero'))])
    return {'line': line, 'columns': draw(st.permutations(sorted(first))), 'rows': rows, 'hits': hits, 'text': draw(st.booleans()),
            'absent': draw(st.sampled_from(sorted(first))) if draw(ints(0, 9)) == 0 else None}


def values_of(c):
    rows = [dict(r) for r in c['rows']]
    for kind, i, col, word in c['hits']:
        v = np.nan if word == 'nan' else 0
        for k, r in enumerate(rows):
            if kind in ('row', 'table') or col in r:
                if kind == 'cell' and k == i % len(rows) or kind == 'column':
                    r[col] = v
                elif kind == 'table' or kind == 'row' and k == i % len(rows):
                    r.update({x: v for x in r})
    columns = [k for k in c['columns'] if k != c['absent']]
    data = [[r[k] for k in columns] for r in rows]
    if c['line'] == 'pct':      # working columns of the aggregation
        oy = float(np.nansum([v for r in rows for k, v in r.items() if k.startswith('oy_i')]))
        t = oy + float(np.nansum([v for r in rows for k, v in r.items() if k.startswith('on_i')]))
        columns += ['T', 'oy_total', 'o_bar']
        data = [d + [t, oy, oy / t if t else np.nan] for d in data]
    if c['text']:
        columns += ['fcst_lev']
        data = [d + ['P500'] for d in data]
    return np.array(data, dtype=object if c['text'] else float).reshape(len(data), len(columns)), np.array(columns)


