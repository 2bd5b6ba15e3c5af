"""Plot validation on made-up directories: which files go, which stay, and what is reported.

Everything lives in a scratch directory.  Removals are intercepted: one aimed outside of it is
recorded as a failure and not carried out.
"""
import contextlib
import datetime as dt
import io
import os
import shutil
import stat
import time
import xml.dom.minidom

import cv2
import numpy as np

from vh import call, clock, expect, facet, fail, ints, lists, pick, quiet, raises, scratch, st
import metcalcpy.validate_mv_python as vp

STEMS = ['plot', 'plot_1', 'plot_10', 'plot_1_b', 'plot.v1', 'plot.v10', 'plot_[1]', 'a', 'a*', 'plot_py2']
EXT = ['.png', '.data', '.R', '.sql', '.points1', '.agg_stat.info']


@contextlib.contextmanager
def fenced(root):
    """Removals inside the given directory only; anything else is remembered instead."""
    root = os.path.realpath(root)
    real = {n: getattr(os, n) for n in ('remove', 'unlink', 'rmdir', 'rename', 'replace')}
    tree = shutil.rmtree
    strayed = []

    def guard(fn):
        def wrapped(path, *a, **k):
            here = os.path.realpath(os.path.join(os.getcwd(), os.path.dirname(os.fspath(path))))
            if here == root or here.startswith(root + os.sep):
                return fn(path, *a, **k)
            strayed.append(os.fspath(path))
        return wrapped
    for n, fn in real.items():
        setattr(os, n, guard(fn))
    shutil.rmtree = lambda path, *a, **k: strayed.append(str(path))
    try:
        yield strayed
    finally:
        for n, fn in real.items():
            setattr(os, n, fn)
        shutil.rmtree = tree


def work(d, fn, *a):
    at = os.getcwd()
    with fenced(d) as strayed:
        os.chdir(d)
        try:
            out = call(fn, *a)
        finally:
            os.chdir(at)
    expect(not strayed, f"removals outside the directories: {strayed}")
    return out


def put(directory, names):
    os.makedirs(directory, exist_ok=True)
    for n in names:
        with open(os.path.join(directory, n), 'w', encoding='utf-8') as f:
            f.write(n)


def tail(slash):
    return os.sep if slash else ''


names = st.lists(st.tuples(pick(*STEMS), pick('', '_py', '_py', '_thresh'), pick(*EXT)).map(''.join), min_size=0, max_size=10, unique=True)


@facet("similar", st.fixed_dictionaries({'plot': st.tuples(pick(*STEMS), pick('.png', '.png', '.jpg')).map(list), 'files': names, 'slash': st.booleans(), 'other': names,
                                         'dir': pick('scripts', 'a.b', 'x[1]')}), quick=600, thorough=6000, rule="files of the plot beside those of others")
def similar(c):
    """Files with the plot's name, or the name given to its new version, and any extension; none else."""
    stem = c['plot'][0]
    with scratch() as d, quiet():
        here, there = os.path.join(d, c['dir']), os.path.join(d, 'elsewhere')
        put(here, c['files'])
        put(there, c['other'])
        put(d, c['other'])
        own = {n for n in c['files'] if n.startswith(stem + '_py.') or (n.startswith(stem + '.') and '.' not in n[len(stem) + 1:])}
        work(d, vp.delete_similar_files, here + tail(c['slash']), ''.join(c['plot']))
        left = set(os.listdir(here))
        expect(left == set(c['files']) - own, f"removing {''.join(c['plot'])} left {sorted(left)} of {sorted(c['files'])}")
        expect(set(os.listdir(there)) == set(c['other']), "files of another directory went")
        expect(set(os.listdir(d)) == set(c['other']) | {c['dir'], 'elsewhere'}, "files of the directory above went")
    return bool(own) and len(own) < len(c['files'])


@facet("naming", st.fixed_dictionaries({'stem': st.one_of(pick(*STEMS), st.text('ab._-1', min_size=1, max_size=8).filter(lambda s: s.strip('.'))), 'ext': pick('.png', '.xml', '.data', '.R'),
                                        'postfix': pick('py', 'thresh', 'x'), 'dir': pick('', '/a/b/', '/a.b/c/')}), quick=300, thorough=2000, rule="several dots in the name")
def naming(c):
    got = call(vp.replace_name, c['dir'] + c['stem'] + c['ext'], c['postfix'])
    if c['dir'] != '/a.b/c/':
        want = c['dir'] + c['stem'] + '_' + c['postfix'] + c['ext']
        expect(got == want, f"{c['dir'] + c['stem'] + c['ext']} with {c['postfix']} became {got}")
    expect(os.path.basename(got) == c['stem'] + '_' + c['postfix'] + c['ext'], f"{c['stem'] + c['ext']} with {c['postfix']} became {got}")
    return '.' in c['stem']


OUT = ['output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir']


@facet("cleaning", st.fixed_dictionaries({'files': st.lists(names, min_size=6, max_size=6), 'slash': st.booleans()}), quick=200, thorough=1000, rule="something to clean and something to keep")
def cleaning(c):
    """The four output directories are emptied and remain; the input and the original plots stay."""
    with scratch() as d, quiet():
        params = {}
        for k, files in zip(OUT + ['input_xml_dir', 'plots'], c['files']):
            put(os.path.join(d, k), files)
            params[k] = os.path.join(d, k) + tail(c['slash'])
        put(d, ['keep.txt'])
        work(d, vp.clean, params)
        for k in OUT:
            expect(os.path.isdir(params[k]) and not os.listdir(params[k]), f"{k} holds {os.listdir(params[k]) if os.path.isdir(params[k]) else 'nothing any more'}")
        for k, files in zip(['input_xml_dir', 'plots'], c['files'][4:]):
            expect(set(os.listdir(params[k])) == set(files), f"{k} was touched")
        expect(os.path.exists(os.path.join(d, 'keep.txt')), "a file beside the directories went")
    return any(c['files'][:4]) and any(c['files'][4:])


day0 = dt.date(2021, 1, 1)


@st.composite
def period(draw):
    # a moment of the day with its distance in days from the start
    files = draw(st.lists(st.tuples(pick(*STEMS), pick('.xml', '.xml', '.xml', '.png', '.XML', '.xml.bak', ''), ints(-2, 8), ints(0, 86399)), min_size=0, max_size=10, unique_by=lambda t: t[0] + t[1]))
    return {'files': [list(f) for f in files], 'start': draw(pick(None, 0, 0, 0, 3)), 'length': draw(st.one_of(st.none(), ints(-1, 6))), 'text': draw(st.booleans()), 'slash': draw(st.booleans()),
            'zone': draw(pick('', '', 'XXX-11', 'XXX+9'))}


@facet("selection", period(), quick=400, thorough=4000, rule="specifications on both sides of a limit of the period")
def selection(c):
    """The specification files last changed on a day of the period, both ends included, sorted; yesterday and today when no days are given."""
    with clock(c['zone']):
        return selected(c)


def selected(c):
    today = dt.datetime.now().date()
    if dt.datetime.now().hour == 23 and dt.datetime.now().minute == 59:
        return False
    start = None if c['start'] is None else day0 + dt.timedelta(c['start'])
    end = None if c['length'] is None else (start or today) + dt.timedelta(c['length'])
    params = {}
    if start:
        params['start_date'] = str(start) if c['text'] else start
    if end:
        params['end_date'] = str(end) if c['text'] else end
    lo, hi = start or today - dt.timedelta(1), end or today
    base = start or today
    with scratch() as d, quiet():
        put(os.path.join(d, 'xml'), [])
        want = []
        params['input_xml_dir'] = os.path.join(d, 'xml') + tail(c['slash'])
        for stem, ext, off, sec in c['files']:
            path = os.path.join(d, 'xml', stem + ext)
            put(os.path.join(d, 'xml'), [stem + ext])
            when = dt.datetime.combine(base + dt.timedelta(off), dt.time()) + dt.timedelta(seconds=sec)
            os.utime(path, (when.timestamp(), when.timestamp()))
            if ext == '.xml' and lo <= when.date() <= hi:
                want.append(path)
        if hi < lo:
            e = raises(vp.get_test_xml, params)
            expect(isinstance(e, KeyError), f"{e!r} for the period from {lo} to {hi}")
            return False
        got = call(vp.get_test_xml, params)
        expect(call(vp.get_testing_period, params) == (lo, hi), f"period {vp.get_testing_period(params)}, expected {lo} to {hi}")
        expect([os.path.normpath(g) for g in got] == sorted(want), f"{[os.path.basename(g) for g in got]} selected, expected {[os.path.basename(w) for w in sorted(want)]}")
        return bool(want) and len(want) < sum(f[1] == '.xml' for f in c['files'])


SPEC = """<plot_spec><connection><user>u</user><password>p</password></connection><folders><r_tmpl>t</r_tmpl><r_work>w</r_work><plots>{plots}</plots><data>d</data>
<scripts>s</scripts></folders><plot><plot_file>{stem}.png</plot_file><data_file>{stem}.data</data_file><r_file>{stem}.R</r_file></plot></plot_spec>"""

# a stand-in for the plotting program: puts in place what was prepared for the specification it is given
BATCH = """#!/bin/sh
cp "$1" "{d}/seen/"
n=$(basename "$1" .xml)
for k in plots data scripts; do
  if [ -d "{d}/prepared/$n/$k" ]; then cp "{d}/prepared/$n/$k/"* "{d}/out_$k/"; fi
done
"""


@st.composite
def campaign(draw):
    stems = draw(st.lists(pick('plot', 'plot_1', 'plot_10', 'plot.v1', 'a', 'ab'), min_size=1, max_size=3, unique=True))
    return {'plots': [[s, draw(pick('same', 'same', 'different', 'none', 'no_old', 'no_new', 'size'))] for s in stems], 'slash': draw(st.booleans()), 'old': draw(names)}


@facet("campaign", campaign(), quick=60, thorough=500, rule="a plot that matches beside one that does not")
def campaign_run(c):
    """Outputs of matching plots are removed, those of the others kept and a marked picture added."""
    r = np.random.default_rng(1)
    with scratch() as d:
        slash = tail(c['slash'])
        for k in ('xml_in', 'old', 'seen', 'out_xml', 'out_plots', 'out_data', 'out_scripts', 'home/bin'):
            os.makedirs(os.path.join(d, k))
        params = {'input_xml_dir': os.path.join(d, 'xml_in') + slash, 'output_xml_dir': os.path.join(d, 'out_xml') + slash, 'output_plots_dir': os.path.join(d, 'out_plots') + slash,
                  'output_data_dir': os.path.join(d, 'out_data') + slash, 'output_scripts_dir': os.path.join(d, 'out_scripts') + slash, 'mv_home': os.path.join(d, 'home') + slash,
                  'db_user': 'me', 'db_pass': 'secret', 'start_date': str(day0), 'end_date': str(day0)}
        put(os.path.join(d, 'out_data'), c['old'])
        batch = os.path.join(d, 'home/bin/mv_batch.sh')
        with open(batch, 'w', encoding='utf-8') as f:
            f.write(BATCH.format(d=d))
        os.chmod(batch, os.stat(batch).st_mode | stat.S_IXUSR)
        left = {k: set() for k in ('xml', 'plots', 'data', 'scripts')}
        for stem, how in c['plots']:
            spec = os.path.join(d, 'xml_in', stem + '.xml')
            with open(spec, 'w', encoding='utf-8') as f:
                f.write(SPEC.format(plots=os.path.join(d, 'old'), stem=stem))
            when = dt.datetime.combine(day0, dt.time(12)).timestamp()
            os.utime(spec, (when, when))
            new = stem + '_py'
            made = os.path.join(d, 'prepared', new)
            put(os.path.join(made, 'data'), [new + '.data'])
            put(os.path.join(made, 'scripts'), [new + '.R', new + '.agg_stat.info'])
            a = r.integers(0, 255, (20, 20, 3)).astype(np.uint8)
            b = a.copy()
            if how == 'different':
                b[5:15, 5:15] = 255 - b[5:15, 5:15]
            if how == 'size':
                b = np.pad(b, ((0, 2), (0, 0), (0, 0)))
            if how not in ('none', 'no_old'):
                cv2.imwrite(os.path.join(d, 'old', stem + '.png'), a)
            if how not in ('none', 'no_new'):
                os.makedirs(os.path.join(made, 'plots'))
                cv2.imwrite(os.path.join(made, 'plots', new + '.png'), b)
            if how not in ('same', 'none'):
                left['xml'].add(new + '.xml')
                left['data'].add(new + '.data')
                left['scripts'] |= {new + '.R', new + '.agg_stat.info'}
                if how != 'no_new':
                    left['plots'].add(new + '.png')
                if how == 'different':
                    left['plots'].add(stem + '_thresh.png')
        originals = sorted(os.listdir(os.path.join(d, 'old')))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            work(d, vp.main, params)
        for k, want in left.items():
            got = set(os.listdir(os.path.join(d, 'out_' + k)))
            expect(got == want, f"{c['plots']}: {k} directory holds {sorted(got)}, expected {sorted(want)}")
        expect(sorted(os.listdir(os.path.join(d, 'old'))) == originals, "original plots were touched")
        expect(sorted(os.listdir(os.path.join(d, 'xml_in'))) == sorted(s + '.xml' for s, _ in c['plots']), "original specifications were touched")
        said = out.getvalue().splitlines()
        for stem, how in c['plots']:
            about = [x for x in said if x.startswith(('SUCCESS', 'ERROR')) and f' {stem}.png ' in x.replace(':', ' : ')]
            expect(len(about) == 1 and about[0].startswith('SUCCESS' if how in ('same', 'none') else 'ERROR'), f"{about} reported for {stem}, prepared as {how}")
            doc = xml.dom.minidom.parse(os.path.join(d, 'seen', stem + '_py.xml'))
            for tag, want in (('plot_file', stem + '_py.png'), ('data_file', stem + '_py.data'), ('r_file', stem + '_py.R'), ('user', 'me'), ('password', 'secret'),
                              ('plots', params['output_plots_dir']), ('data', params['output_data_dir']), ('scripts', params['output_scripts_dir']),
                              ('r_tmpl', os.path.join(d, 'home', 'R_tmpl')), ('r_work', os.path.join(d, 'home', 'R_work'))):
                got = doc.getElementsByTagName(tag)[0].firstChild.nodeValue
                expect(os.path.normpath(got) == os.path.normpath(want), f"{tag} of the new specification is {got}")
    return len({how in ('same', 'none') for _, how in c['plots']}) > 1
