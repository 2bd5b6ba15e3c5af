"""Generators and small tools shared by the checks."""
import numpy as np
import pandas as pd
from vh import st, ints, lists, pick


def count(big=True, huge=False):
    """A cell count: often zero or small, sometimes large."""
    opts = [ints(0, 3), ints(0, 12), ints(0, 400)]
    if big:
        opts.append(ints(0, 60000))
    if huge:
        opts += [ints(0, 60000), ints(10 ** 6, 3 * 10 ** 9)]
    return st.one_of(*opts)


def nrows(lo=1, hi=6, many=40):
    return st.one_of(ints(lo, hi), ints(lo, hi), ints(lo, hi), ints(lo, many))


@st.composite
def table_rows(draw, fields, lo=1, hi=6, many=40):
    """fields: dict name -> strategy. Returns a list of dict rows."""
    n = draw(nrows(lo, hi, many))
    return [{k: draw(s) for k, s in fields.items()} for _ in range(n)]


def perm(n):
    return st.permutations(list(range(n)))


def array_of(rows, columns, order=None, extra=False, dtype=None):
    """The (values, column names) pair the statistic functions take."""
    cols = list(columns)
    if extra:
        cols = ['model'] + cols + ['fcst_var']
    if order is not None:
        cols = [c for _, c in sorted(zip([order[i % len(order)] * 100 + i for i in range(len(cols))], cols))]
    data = [['M1' if c == 'model' else 'T' if c == 'fcst_var' else r[c] for c in cols] for r in rows]
    if dtype is None:
        dtype = object if extra else float
    return np.array(data, dtype=dtype), np.array(cols)


def frame(rows, cols=None):
    return pd.DataFrame(rows, columns=cols)


def split_counts(total_row, cuts):
    return total_row, cuts
