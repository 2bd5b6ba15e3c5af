"""Shared parts of the event equalization checks."""
import re

import pandas as pd

from vh import expect

VALID = ['2020-01-0%d %02d:00:00' % (d, h) for d in (1, 2) for h in (0, 12)]
LEADS = [0, 30000, 120000]
POOL = {'model': ['A', 'B', 'A_2', 'gfs v1'], 'vx_mask': ['E', 'W', 'EAST'], 'interp_pnts': [1, 9, 16], 'fcst_lev': ['P500', 'Z2', None],
        'obs_init_beg': VALID[:3]}
SEP = ':'


CASE_VARS = ('', 'fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD')


def ungroup(vals):
    return [v for g in vals for v in (re.findall(r'[\d-]{10} [\d:]{8}', g) or g.split(SEP))]


def cell(name, value):
    return None if value == 'NA' else int(value) if name == 'interp_pnts' else value


def matches(cell, value):
    if value == 'NA':
        return cell is None
    return cell is not None and str(cell) == value


def same_rows(got, rows, idx, msg, columns, ordered=True):
    ids = [int(v - 0.5) for v in got['stat_value']] if len(got) else []
    if not ordered:
        order = sorted(range(len(ids)), key=lambda i: ids[i])
        got, ids, idx = got.iloc[order], [ids[i] for i in order], sorted(idx)
    expect(ids == list(idx), f"{msg}: rows {ids} instead of {list(idx)}")
    for j, i in enumerate(ids):
        for c in columns:
            a, b = got.iloc[j][c], rows[i][c]
            expect((b is None and pd.isnull(a)) or a == b, f"{msg}: row {i} column {c} became {a!r}, was {b!r}")


def alike(rows):
    """The rows without what tells equal ones apart."""
    return [{**r, 'stat_value': 0.5} for r in rows]


def same_alike(got, rows, idx, msg, columns, ordered=True):
    """As many equal rows as there were."""
    def text(r):
        return tuple('' if pd.isnull(r[c]) else str(r[c]) for c in columns)
    have, want = [text(r) for r in got.to_dict('records')], [text(rows[i]) for i in idx]
    if not ordered:
        have, want = sorted(have), sorted(want)
    expect(have == want, f"{msg}: {len(have)} rows instead of {len(want)} when rows are equal")
