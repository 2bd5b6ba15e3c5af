"""Multi-category Heidke skill with expected-correct rate on the summed table."""
import numpy as np

from vh import call, decimals, expect, expect_near, facet, ints, st
from gens import count
import metcalcpy.util.mcts_statistics as mcts


@st.composite
def case(draw, diagonal=False):
    k = draw(ints(2, 5))
    n = draw(ints(1, 5))
    rows = [draw(st.lists(count(huge=True), min_size=k * k, max_size=k * k)) for _ in range(n)]
    return {'k': k, 'rows': rows, 'ec': draw(decimals(0.001, 0.95)), 'cells': draw(st.permutations(list(range(k * k)))),
            'cols': draw(st.permutations(list(range(3 * k * k + 3)))), 'kmax': draw(ints(0, 2))}


def build(c, rows):
    k = c['k']
    kk = k * k
    names = ['n_cat', 'ec_value', 'total'] + [f'fi_oj_{i}' for i in range(kk)] + [f'i_value_{i}' for i in range(kk)] \
        + [f'j_value_{i}' for i in range(kk)]
    data = []
    for r in rows:
        row = [k, c['ec'], sum(r)]
        # r is the table in reading order; cells lists which table cell each numbered column holds
        row += [r[c['cells'][i]] for i in range(kk)]
        row += [c['cells'][i] // k + 1 for i in range(kk)] + [c['cells'][i] % k + 1 for i in range(kk)]
        data.append(row)
    order = c['cols']
    return np.array([[r[i] for i in order] for r in data], dtype=object), np.array([names[i] for i in order])


def value(c, rows):
    k, kk = c['k'], c['k'] ** 2
    pooled = [sum(r[i] for r in rows) for i in range(kk)]
    n = sum(pooled)
    if n == 0:
        return None, n
    acc = sum(pooled[i * k + i] for i in range(k)) / n
    return (acc - c['ec']) / (1 - c['ec']), n


@facet("skill", case(), quick=400, thorough=5000,
       rule="at least two rows, pooled table with counts on and off the diagonal")
def skill(c):
    v, names = build(c, c['rows'])
    want, n = value(c, c['rows'])
    got = call(mcts.calculate_mcts_hss_ec, v, names)
    expect_near(got, want, f"HSS_EC with {c['k']} categories, {n} pairs", 1e-9, 2e-7)
    pooled = [[sum(r[i] for r in c['rows']) for i in range(c['k'] ** 2)]]
    v1, n1 = build(c, pooled)
    expect_near(call(mcts.calculate_mcts_hss_ec, v1, n1), want, "HSS_EC of the pooled row", 1e-9, 2e-7)
    k = c['k']
    diag = sum(pooled[0][i * k + i] for i in range(k))
    return len(c['rows']) > 1 and 0 < diag < n


@facet("perfect", case(), quick=120, thorough=600, rule="a table with counts; the diagonal part alone must score one")
def perfect(c):
    k = c['k']
    rows = [[v if i // k == i % k else 0 for i, v in enumerate(r)] for r in c['rows']]
    n = sum(map(sum, rows))
    got = call(mcts.calculate_mcts_hss_ec, *build(c, rows))
    expect_near(got, 1.0 if n else None, "HSS_EC of a diagonal table", 1e-9, 2e-7)
    off = sum(map(sum, c['rows'])) - n
    got = call(mcts.calculate_mcts_hss_ec, *build(c, c['rows']))
    if off:
        expect(got is None or got < 1 or off / (off + n) < 1e-7, f"HSS_EC is {got} with {off} pairs off the diagonal")
    return n > 0
