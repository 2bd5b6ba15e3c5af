"""Configurations with environment variables against the structure they were written from."""
import os

import yaml

from vh import call, expect, facet, fail, ints, lists, pick, quiet, raises, scratch, st
import metcalcpy.util.read_env_vars_in_config as rc

NAMES = ['VERIF_A', 'VERIF_AB', 'VERIF_B', 'VERIF_x1', 'VERIF_UNSET']
VALUES = ['', 'one', '/data/run', '${VERIF_B}', '${VERIF_UNSET}', '$VERIF_A', 'a: b', '# no', 'VERIF_B', '7', 'true', "it's", 'back\\1', '\\g<1>', '  padded ', 'two\nlines', 'tab\there', '"q"', 'é', '0', '-1.50', 'null', 'x' * 300]
TEXT = ['/', 'dir', '.nc', '$', '{', '}', ' ', 'VERIF_A', '$VERIF_A', '${', '${}', '${VERIF A}', '${VERIF-A}', ':', '#', '\\1', 'é', '%', '!ENV']

pieces = st.lists(st.one_of(pick(*NAMES).map(lambda n: ['ref', n]), pick(*TEXT).map(lambda t: ['text', t])), min_size=0, max_size=6)


@st.composite
def scalar(draw):
    kind = draw(pick('tag', 'tag', 'tag', 'quoted', 'int', 'float', 'bool', 'null', 'word'))
    if kind in ('tag', 'quoted'):
        return [kind, draw(pieces), draw(pick('single', 'double', 'block', 'plain'))]
    return [kind, draw({'int': ints(-5, 99), 'float': ints(-50, 50).map(lambda i: i / 4 + 0.125), 'bool': st.booleans(), 'null': st.none(), 'word': pick('abc', 'VERIF_A', '2x', 'yes please')}[kind]), None]


node = st.recursive(scalar().map(lambda s: ['s', s]),
                    lambda c: st.one_of(st.lists(c, min_size=1, max_size=4).map(lambda v: ['l', v]), st.lists(c, min_size=1, max_size=4).map(lambda v: ['d', v])), max_leaves=10)


def raw(parts):
    return ''.join('${' + t + '}' if k == 'ref' else t for k, t in parts)


def value(parts, env):
    """Pieces may join up into a further reference; those are found reading from left to right."""
    text, out, i = raw(parts), '', 0
    while i < len(text):
        end = text.find('}', i)
        name = text[i + 2:end] if text.startswith('${', i) and end > 0 else ''
        if name and all(ch.isalnum() or ch == '_' for ch in name):
            out += env.get(name, name)
            i = end + 1
        else:
            out += text[i]
            i += 1
    return out


def has_reference(parts):
    return value(parts, {n: '\0' + n for n in NAMES}) != raw(parts)


def wrote(s, tag):
    kind, v, style = s
    if kind == 'quoted':
        return "'" + raw(v).replace("'", "''") + "'" if style != 'double' else '"' + raw(v).replace('\\', '\\\\').replace('"', '\\"') + '"'
    if kind == 'tag':
        t = raw(v)
        plain = all(k == 'ref' or x in ('/', 'dir', '.nc', 'VERIF_A', '$') for k, x in v) and v
        if style == 'plain' and plain:
            return f"{tag} {t}"
        if style == 'double':
            return f"{tag} " + '"' + t.replace('\\', '\\\\') + '"'
        return f"{tag} '" + t.replace("'", "''") + "'"
    return {'null': 'null', 'bool': str(v).lower()}.get(kind, str(v))


def text(n, tag, depth=0):
    pad = '  ' * depth
    kind, v = n
    if kind == 's':
        return ' ' + wrote(v, tag) + '\n'
    lines = '\n' if depth else ''
    for i, child in enumerate(v):
        head = pad + (f'key{i}:' if kind == 'd' else '-')
        lines += head + text(child, tag, depth + 1)
    return lines


def structure(n, env):
    kind, v = n
    if kind == 's':
        return value(v[1], env) if v[0] == 'tag' else raw(v[1]) if v[0] == 'quoted' else v[1]
    kids = [structure(c, env) for c in v]
    return kids if kind == 'l' else {f'key{i}': k for i, k in enumerate(kids)}


def scalars(n):
    return [n[1]] if n[0] == 's' else [s for c in n[1] for s in scalars(c)]


class environment:
    def __init__(self, values):
        self.values = values

    def __enter__(self):
        self.before = dict(os.environ)
        for n in NAMES:
            os.environ.pop(n, None)
        os.environ.update(self.values)

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.before)


doc = st.one_of(st.lists(node, min_size=1, max_size=4).map(lambda v: ['d', v]), st.lists(node, min_size=1, max_size=4).map(lambda v: ['l', v]))
env = st.dictionaries(pick(*NAMES[:-1]), pick(*VALUES), max_size=4)


@facet("documents", st.fixed_dictionaries({'doc': doc, 'env': env, 'tag': pick('!ENV', '!ENV', '!VAR'), 'file': st.booleans()}), quick=400, thorough=4000,
       rule="a tagged value with a reference next to other values")
def documents(c):
    body = text(c['doc'], c['tag'])
    want = structure(c['doc'], c['env'])
    with environment(c['env']), scratch() as d, quiet():
        path = os.path.join(d, 'c.yaml')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(body)
        args = {} if c['tag'] == '!ENV' else {'tag': c['tag']}
        for source in ({'path': path}, {'data': body}):
            got = call(rc.parse_config, **source, **args)
            expect(got == want and repr(got) == repr(want), f"{body!r} from {'the file' if 'path' in source else 'text'} with {c['env']} reads as {got!r}, expected {want!r}")
    ss = scalars(c['doc'])
    return len(ss) > 1 and any(s[0] == 'tag' and has_reference(s[1]) for s in ss)


@facet("history", st.fixed_dictionaries({'steps': st.lists(st.tuples(doc, env, pick('!ENV', '!VAR', '!E2')), min_size=2, max_size=4), 'probe': pieces}), quick=150,
       thorough=1500, rule="two tags or a reference in the probe")
def history(c):
    """Earlier readings, their tags and environments do not matter to later ones, nor to plain YAML reading."""
    probe = "a: '" + raw(c['probe']).replace("'", "''") + "'\nb: dir/${VERIF_A}\nc: 5\n"
    with quiet():
        want = {'a': raw(c['probe']), 'b': 'dir/${VERIF_A}', 'c': 5}
        for body, e, tag in c['steps']:
            with environment(e):
                got = call(rc.parse_config, data=text(body, tag), tag=tag)
                expect(got == structure(body, e), f"{text(body, tag)!r} with {e} reads as {got!r}")
                plain = call(yaml.safe_load, probe)
                expect(plain == want, f"plain YAML reading of {probe!r} gives {plain!r} afterwards")
                for other in ('!ENV', '!VAR', '!E2'):
                    if other != tag:
                        expect(raises(rc.parse_config, None, f"a: {other} '${{VERIF_A}}'\n", tag) is not None, f"the tag {other} of another reading is accepted with the tag {tag}")
    return len({s[2] for s in c['steps']}) > 1 or has_reference(c['probe'])


@facet("nothing", st.fixed_dictionaries({'path': pick(None, ''), 'data': pick(None, '')}), quick=8, thorough=8, rule="always")
def nothing(c):
    expect(isinstance(raises(rc.parse_config, c['path'], c['data']), ValueError), "no document was accepted")
    return True
