"""Object ratio statistics against naive counting by name."""
import numpy as np

from vh import call, expect, expect_near, facet, ints, is_missing, st
from objects import COUNTS, OBJECT, SIZES, oracle, ratio1, ratio2, ratio3


@st.composite
def objects(draw):
    n = draw(st.one_of(ints(0, 3), ints(1, 12), ints(1, 12), ints(1, 60)))
    objs = [draw(OBJECT) for _ in range(n)]
    cols = draw(st.permutations(['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume', 'model']))
    return {'objs': objs, 'cols': cols, 'text_flags': draw(st.sampled_from(['int', 'int', 'float']))}


def table(c, drop):
    conv = float if c['text_flags'] == 'float' else int
    cols = [x for x in c['cols'] if x != drop]
    rows = []
    for i, o in enumerate(c['objs']):
        d = {'object_id': f'F{i:03d}', 'object_type': o['type'], 'fcst_flag': conv(o['fcst']), 'simple_flag': conv(o['simple']),
             'matched_flag': conv(o['matched']), 'area': o['area'], 'volume': o['volume'], 'model': 'M'}
        rows.append([d[x] for x in cols])
    return np.array(rows, dtype=object).reshape(len(rows), len(cols)), np.array(cols)


def nontrivial(objs):
    return len(objs) > 3 and len({(o['fcst'], o['simple'], o['matched']) for o in objs}) > 3


@facet("counts", objects(), quick=300, thorough=4000, rule="more than three objects of more than three kinds")
def counts(c):
    v, names = table(c, None)
    for fn, f in COUNTS.items():
        want, _ = oracle(c['objs'], fn, None)
        got = call(f, v.copy(), names)
        expect_near(got, want, f"{fn} over {len(c['objs'])} objects", 1e-9, 2e-7)
    return nontrivial(c['objs'])


@facet("sizes", objects(), quick=300, thorough=4000, rule="more than three objects of more than three kinds")
def sizes(c):
    for fn, f in SIZES.items():
        vol = '3d_' in fn
        v, names = table(c, 'area' if vol else 'volume')
        want, empty = oracle(c['objs'], fn, 'volume' if vol else 'area')
        got = call(f, v.copy(), names)
        if empty and is_missing(got):
            continue                                    # a sum over no objects may be reported missing
        expect_near(got, want, f"{fn} over {len(c['objs'])} objects", 1e-9, 2e-7)
    return nontrivial(c['objs'])


@facet("complements", objects(), quick=150, thorough=1500, rule="every simple kind occurs")
def complements(c):
    """Parts of one whole add up to one, and inverse ratios multiply to one."""
    v, names = table(c, None)
    mods = {'ratio': ratio1, '2d_ratio': ratio2, '3d_ratio': ratio3}
    for pre, m in mods.items():
        def g(n):
            f = getattr(m, f'calculate_{pre}_{n}', None)
            return None if f is None else call(f, v.copy(), names)
        for a, b in (('fsa_asa', 'osa_asa'), ('asm_asa', 'asu_asa'), ('fsm_fsa', 'fsu_fsa'), ('osm_osa', 'osu_osa'), ('fsm_asm', 'osm_asm'),
                     ('fsu_asu', 'osu_asu'), ('fsa_faa', 'fca_faa'), ('osa_oaa', 'oca_oaa'), ('fca_aca', 'oca_aca')):
            x, y = g(a), g(b)
            if x is not None and y is not None:
                expect(abs(x + y - 1) < 3e-7, f"{pre} {a} + {b} = {x + y}")
        for a, b in (('fsa_osa', 'osa_fsa'), ('aca_asa', 'asa_aca'), ('fca_fsa', 'fsa_fca'), ('oca_osa', 'osa_oca')):
            x, y = g(a), g(b)
            if x and y:
                expect(abs(x * y - 1) < 1e-6 * (x + y), f"{pre} {a} * {b} = {x * y}")
    return len({(o['fcst'], o['matched']) for o in c['objs'] if o['simple']}) == 4
