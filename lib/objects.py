"""Objects of object-based verification: generated attributes, statistic names and naive counting."""
import re

from vh import decimals, ints, st
import metcalcpy.util.mode_2d_arearat_statistics as area2
import metcalcpy.util.mode_2d_ratio_statistics as ratio2
import metcalcpy.util.mode_3d_ratio_statistics as ratio3
import metcalcpy.util.mode_3d_volrat_statistics as vol3
import metcalcpy.util.mode_arearat_statistics as area1
import metcalcpy.util.mode_ratio_statistics as ratio1

CODE = re.compile(r'^([foa])([sca])([mua])$')
PAIR = re.compile(r'^calculate_(?:(2d|3d)_)?(ratio|arearat|volrat)_([foa][sca][mua])_([foa][sca][mua])$')
SCORE = re.compile(r'^calculate_(?:(2d|3d)_)?obj([av]?)(hits|misses|fas|csi|pody|far)$')


def public(*mods):
    out = {}
    for m in mods:
        for n in dir(m):
            if PAIR.match(n) or SCORE.match(n):
                out[n] = getattr(m, n)
    return dict(sorted(out.items()))


COUNTS = public(ratio1, ratio2, ratio3)
SIZES = public(area1, area2, vol3)


def selects(o, code):
    f, s, m = CODE.match(code).groups()
    return (f == 'a' or o['fcst'] == (f == 'f')) and (s == 'a' or o['simple'] == (s == 's')) \
        and (m == 'a' or o['matched'] == (m == 'm'))


def amount(objs, code, size):
    """(sum of sizes or count, number of objects)"""
    sel = [o for o in objs if selects(o, code)]
    return (sum(o[size] for o in sel) if size else len(sel)), len(sel)


def oracle(objs, name, size):
    """(value or None, whether some selection is empty)"""
    m = PAIR.match(name)
    if m:
        dim, num, den = m.group(1), m.group(3), m.group(4)
        objs = [o for o in objs if dim is None or o['type'] == dim]
        (a, na), (b, nb) = amount(objs, num, size), amount(objs, den, size)
        return (a / b if b else None), not (na and nb)
    dim, _, kind = SCORE.match(name).groups()
    objs = [o for o in objs if dim is None or o['type'] == dim]
    (asm, n1), (osu, n2), (fsu, n3) = (amount(objs, c, size) for c in ('asm', 'osu', 'fsu'))
    hits = asm / 2
    num, den, empty = {'hits': (hits, 1, not n1), 'misses': (osu, 1, not n2), 'fas': (fsu, 1, not n3),
                       'csi': (hits, hits + osu + fsu, not (n1 and n2 + n3)), 'pody': (hits, hits + osu, not (n1 and n2)),
                       'far': (fsu, hits + fsu, not (n1 and n3))}[kind]
    return (num / den if den else None), empty


OBJECT = st.fixed_dictionaries({'fcst': st.booleans(), 'simple': st.booleans(), 'matched': st.booleans(), 'type': st.sampled_from(['2d', '3d', '3d']),
                                'area': ints(1, 4000), 'volume': ints(1, 90000), 'x': decimals(0, 100, 1)})


def names(size=None):
    """Upper case statistic names over counts, areas or volumes."""
    fns = COUNTS if size is None else [n for n in SIZES if ('3d_' in n) == (size == 'volume')]
    return [n[len('calculate_'):].upper() for n in fns]
