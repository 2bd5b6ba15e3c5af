"""Paired equivalence test: paired t test and two one-sided tests."""
import math

import numpy as np
from scipy import special, stats

from vh import call, decimals, expect, expect_near, facet, ints, is_missing, raises, st
from metcalcpy.util import tost_paired as stand_alone
from metcalcpy.util import utils

BOTH = {'shared': utils.tost_paired, 'stand-alone': stand_alone.tost_paired}
OUTCOMES = {(True, True): 'diff_eqv', (True, False): 'diff_no_eqv', (False, True): 'no_diff_eqv', (False, False): 'no_diff_no_eqv'}


@st.composite
def summary(draw):
    m1 = draw(decimals(-60, 60, 2))
    m2 = draw(st.one_of(decimals(-60, 60, 2), st.just(m1), st.builds(lambda d: round(m1 + d, 4), decimals(-1, 1, 3))))
    sd1 = draw(st.one_of(decimals(0.01, 30, 2), st.sampled_from([0.01, 1000.0])))
    sd2 = draw(st.one_of(decimals(0.01, 30, 2), st.just(sd1)))
    lo, hi = sorted([draw(decimals(-3, 3, 3)), draw(decimals(-3, 3, 3))])
    return {'n': draw(st.one_of(ints(2, 12), ints(2, 400), ints(2, 100000))), 'm1': m1, 'm2': m2, 'sd1': sd1, 'sd2': sd2,
            'r': draw(st.one_of(decimals(-1, 1, 3), st.sampled_from([-1.0, 0.0, 1.0, 0.999999]))), 'lo': lo, 'hi': hi,
            'alpha': draw(st.one_of(st.none(), decimals(0.001, 0.5, 3), st.sampled_from([0.05, 0.1, 0.9])))}


def upper(t, df):
    """P[T > t] from the incomplete beta function."""
    p = 0.5 * special.betainc(df / 2, 0.5, df / (df + t * t))
    return float(p if t >= 0 else 1 - p)


def quantile(p, df):
    return float(special.stdtrit(df, p))


def reference(c):
    a = c['alpha'] or 0.05
    sd = math.sqrt(max(0.0, (c['sd1'] - c['sd2']) ** 2 + 2 * (1 - c['r']) * c['sd1'] * c['sd2']))
    se = sd / math.sqrt(c['n'])
    df, d = c['n'] - 1, c['m1'] - c['m2']
    q1, q2 = quantile(1 - a, df), quantile(1 - a / 2, df)
    ref = {'se': se, 'df': df, 'dif': d, 'bounds': (c['lo'] * sd, c['hi'] * sd), 'ci_tost': (d - q1 * se, d + q1 * se),
           'ci_ttest': (d - q2 * se, d + q2 * se), 'alpha': a}
    if se:
        t, t1, t2 = d / se, (d - c['lo'] * sd) / se, (d - c['hi'] * sd) / se
        ref.update(t=(t1, t2), p=(upper(t1, df), upper(-t2, df)), pt=2 * upper(abs(t), df))
    return ref


def args(c):
    return c['n'], c['m1'], c['m2'], c['sd1'], c['sd2'], c['r'], c['lo'], c['hi'], c['alpha']


@facet("tests", summary(), quick=600, thorough=8000, rule="defined standard error and probabilities away from 0, 1 and the level")
def tests(c):
    ref = reference(c)
    degenerate = ref['se'] <= 1e-9 * max(c['sd1'], c['sd2'])
    hit = False
    for name, f in BOTH.items():
        got = call(f, *args(c))
        expect_near(got['dif'], ref['dif'], f"{name}: difference", 1e-9, 2e-7)
        expect(got['degrees_of_freedom'] == ref['df'], f"{name}: degrees of freedom {got['degrees_of_freedom']}")
        slack = 2e-7 + (1e-6 * max(c['sd1'], c['sd2']) * abs(quantile(1 - ref['alpha'] / 2, ref['df'])) if degenerate else 0)
        for k, w in (('ci_tost', ref['ci_tost']), ('ci_ttest', ref['ci_ttest']), ('eqbound', ref['bounds'])):
            for i in (0, 1):
                expect_near(got[k][i], w[i], f"{name}: {k}[{i}] of {c}", 1e-7, slack)
        expect(got['xlim'][0] <= min(got['ci_tost'][0], got['eqbound'][0]) + 1e-6 and
               got['xlim'][1] >= max(got['ci_tost'][1], got['eqbound'][1]) - 1e-6, f"{name}: axis limits {got['xlim']} cut off an interval")
        if degenerate:
            if is_missing(got['t'][0]):
                expect(got['combined_outcome'] == 'none', f"{name}: outcome {got['combined_outcome']} without a test")
            continue
        for i in (0, 1):
            expect_near(got['t'][i], ref['t'][i], f"{name}: t value {i}", 1e-6, 2e-7 * max(1, abs(ref['t'][i])))
            expect_near(got['p'][i], ref['p'][i], f"{name}: p value {i}", 1e-5, 2e-7)
        a, pt, ptost = ref['alpha'], ref['pt'], max(ref['p'])
        if abs(pt - a) > 1e-7 and abs(ptost - a) > 1e-7:
            expect(got['combined_outcome'] == OUTCOMES[pt < a, ptost < a], f"{name}: outcome {got['combined_outcome']} for p={pt}, {ptost} at {a}")
            expect(got['test_outcome'] == ('significant' if pt < a else 'non-significant'), f"{name}: test outcome {got['test_outcome']} p={pt}")
            expect(got['tost_outcome'] == ('significant' if ptost < a else 'non-significant'), f"{name}: equivalence {got['tost_outcome']} p={ptost}")
            hit = hit or 1e-6 < pt < 1 - 1e-6
    return hit


@facet("mirror", summary(), quick=300, thorough=3000, rule="defined standard error")
def mirror(c):
    """Exchanging the samples and mirroring the bounds mirrors the result."""
    d = dict(c, m1=c['m2'], m2=c['m1'], sd1=c['sd2'], sd2=c['sd1'], lo=-c['hi'], hi=-c['lo'])
    ref = reference(c)
    for name, f in BOTH.items():
        x, y = call(f, *args(c)), call(f, *args(d))
        expect_near(y['dif'], -x['dif'], f"{name}: difference", 1e-9, 3e-7)
        for k in ('ci_tost', 'ci_ttest', 'eqbound', 'xlim'):
            for i in (0, 1):
                expect_near(y[k][i], -x[k][1 - i], f"{name}: {k}", 1e-9, 3e-7)
        if is_missing(x['t'][0]) or is_missing(y['t'][0]):
            expect(is_missing(x['t'][0]) and is_missing(y['t'][0]), f"{name}: one side missing")
            continue
        for i in (0, 1):
            expect_near(y['t'][i], -x['t'][1 - i], f"{name}: t", 1e-7, 3e-7)
            expect_near(y['p'][i], x['p'][1 - i], f"{name}: p", 1e-7, 3e-7)
        a = ref['alpha']
        if min(abs(ref['pt'] - a), abs(max(ref['p']) - a)) > 1e-7:
            expect(y['combined_outcome'] == x['combined_outcome'], f"{name}: {x['combined_outcome']} became {y['combined_outcome']}")
    return ref['se'] > 0


@facet("boundary", summary(), quick=300, thorough=3000, rule="the level equals one of the probabilities")
def boundary(c):
    """A level exactly equal to a probability still gives one of the four outcomes."""
    ref = reference(c)
    if ref['se'] <= 1e-9 * max(c['sd1'], c['sd2']):
        return False
    sd = math.sqrt(c['sd1'] * c['sd1'] + c['sd2'] * c['sd2'] - 2 * c['r'] * c['sd1'] * c['sd2'])
    se = sd / math.sqrt(c['n'])
    d = c['m1'] - c['m2']
    df = c['n'] - 1
    levels = [2 * (1 - stats.t.cdf(abs(d / se), df)), 1 - stats.t.cdf((d - c['lo'] * sd) / se, df), float(stats.t.cdf((d - c['hi'] * sd) / se, df))]
    hit = False
    for a in levels:
        if not 1e-6 < a < 1 - 1e-6:
            continue
        for name, f in BOTH.items():
            got = call(f, *args(dict(c, alpha=float(a))))
            expect(got['combined_outcome'] in OUTCOMES.values(), f"{name}: outcome {got['combined_outcome']}")
            hit = True
    return hit


BAD = {'n': [1, 0], 'alpha': [1.5, 1.0, -0.1], 'sd1': [0.0, -1.0], 'sd2': [-2.0, 0.0], 'r': [1.25, -1.01]}


@facet("rejected", st.fixed_dictionaries({'s': summary(), 'how': st.sampled_from(sorted(BAD)), 'which': ints(0, 5)}), quick=100, thorough=500,
       rule="one argument outside its domain")
def rejected(c):
    bad = BAD[c['how']][c['which'] % len(BAD[c['how']])]
    for name, f in BOTH.items():
        expect(raises(f, *args(dict(c['s'], **{c['how']: bad}))), f"{name}: {c['how']}={bad} was accepted")
    return True


def shifted(q, df, nc):
    """P[(Z + nc) / sqrt(V / df) <= q] by the trapezium rule over log V."""
    lv = np.linspace(math.log(df) - 40 / math.sqrt(df), math.log(df) + 12 / math.sqrt(df), 20001)
    v = np.exp(lv)
    dens = np.exp(df / 2 * lv - v / 2 - df / 2 * math.log(2) - special.gammaln(df / 2))
    return float(np.trapz(dens * special.ndtr(q * np.sqrt(v / df) - nc), lv))


@facet("student", st.fixed_dictionaries({'q': decimals(-6, 6, 3), 'p': decimals(0.002, 0.998, 4), 'df': ints(1, 200), 'ncp': st.one_of(st.just(0), decimals(-3, 3, 2)),
                                         'lower': st.booleans()}), quick=300, thorough=3000, rule="a probability away from 0 and 1")
def student(c):
    """Distribution and quantile of Student's t, central and noncentral."""
    tol = 1e-6 if c['ncp'] else 1e-7
    low = shifted(c['q'], c['df'], c['ncp']) if c['ncp'] else 1 - upper(c['q'], c['df'])
    for name, m in (('shared', utils), ('stand-alone', stand_alone)):
        more = {} if c['ncp'] == 0 else {'ncp': c['ncp']}
        got = call(m.pt, c['q'], c['df'], lower_tail=c['lower'], **more)
        expect_near(got, low if c['lower'] else 1 - low, f"{name}: probability of {c}", 0, tol)
        if c['lower']:
            expect_near(call(m.pt, c['q'], c['df'], **more), low, f"{name}: default tail for {c}", 0, tol)
        x = call(m.qt, c['p'], c['df'], **more)
        back = shifted(float(x), c['df'], c['ncp']) if c['ncp'] else 1 - upper(float(x), c['df'])
        expect_near(back, c['p'], f"{name}: probability below the quantile {x} of {c}", 0, 10 * tol)
    return 1e-3 < low < 1 - 1e-3
