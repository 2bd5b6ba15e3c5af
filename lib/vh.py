"""Shared harness: facets, guards, comparison helpers, the search loop and the evidence writer."""
import contextlib
import hashlib
import importlib.machinery
import json
import logging
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)


class _ToolFinder:
    """Finds only Hypothesis and its dependency in the tools environment (its numpy must not shadow the project's)."""
    NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector")

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name in cls.NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


sys.meta_path.append(_ToolFinder)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.internal.conjecture.engine import ConjectureRunner  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import metcalcpy  # noqa: E402

if not os.path.abspath(metcalcpy.__file__).startswith(REPO + os.sep):
    raise RuntimeError("metcalcpy is not imported from " + REPO)

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "0"))
except ValueError:
    SEED = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)

CASE_LIMIT_S = 90
FACET_LIMIT_S = {"quick": 150, "thorough": 600}
SHRINK_LIMIT_S = 45
QUICK_FACTOR = int(os.environ.get("VERIF_QUICK_FACTOR", "3"))   # cases of the quick tier, per listed case
MUTATE_EVERY = 8


def _spread_out(runner):
    """Hypothesis follows every fresh case by about six variations of it, which leaves few fresh ones in a small budget.
    Varying one case in eight keeps the variations at under half of all cases."""
    plain = runner.generate_mutations_from

    def sometimes(self, data):
        self.vh_fresh = getattr(self, "vh_fresh", 0) + 1
        if self.vh_fresh % MUTATE_EVERY == 0:
            plain(self, data)
    runner.generate_mutations_from = sometimes


_spread_out(ConjectureRunner)


class Violation(Exception):
    """The property does not hold on this case."""


class _Stop(BaseException):
    """Ends the search early (time limits)."""


class _Timeout(BaseException):
    pass


FACETS = []


class Facet:
    def __init__(self, name, strategy, fn, quick, thorough, rule):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


def facet(name, strategy, quick, thorough=None, rule=""):
    """Registers fn(case) -> truthy when the case was non-trivial; raises Violation when the property is broken."""
    def deco(fn):
        FACETS.append(Facet(name, strategy, fn, quick, thorough or quick * 10, rule))
        return fn
    return deco


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def reset_state(salt=0):
    """The library sets warning filters and pandas options globally; every case starts from the same state."""
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.seterr(all="warn")
    np.random.seed(salt % (2 ** 32))
    random.seed(salt)
    pd.options.mode.chained_assignment = 'warn'


def _where(exc):
    for fr in reversed(traceback.extract_tb(exc.__traceback__)):
        if fr.filename.startswith(REPO):
            return f"{os.path.relpath(fr.filename, REPO)}:{fr.lineno}"
    return "?"


def call(fn, *args, **kw):
    """Calls the code under test where the property promises a value: any exception is a violation."""
    try:
        return fn(*args, **kw)
    except (_Timeout, _Stop, Violation):
        raise
    except (Exception, SystemExit) as exc:  # noqa: BLE001
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {type(exc).__name__}: {str(exc)[:300]} at {_where(exc)}")
    finally:
        warnings.resetwarnings()
        warnings.simplefilter("ignore")


def raises(fn, *args, **kw):
    """Returns the exception raised by the call, or None."""
    try:
        fn(*args, **kw)
    except (_Timeout, _Stop):
        raise
    except (Exception, SystemExit) as exc:  # noqa: BLE001
        return exc
    finally:
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
    return None


def is_missing(x):
    if x is None:
        return True
    try:
        return bool(x != x)
    except Exception:  # noqa: BLE001
        return False


def near(a, b, rel=1e-7, ab=1e-7):
    """Equal numbers within tolerance; missing matches only missing."""
    if is_missing(a) or is_missing(b):
        return is_missing(a) and is_missing(b)
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def expect_near(got, want, msg, rel=1e-7, ab=1e-7):
    if not near(got, want, rel, ab):
        raise Violation(f"{msg}: got {got!r}, expected {want!r}")


def expect_array(got, want, msg, rel=1e-7, ab=1e-9):
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f"{msg}: shape {g.shape}, expected {w.shape}")
    ok = np.isclose(g, w, rtol=rel, atol=ab, equal_nan=True)
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation(f"{msg}: at {i} got {g[i]!r}, expected {w[i]!r} ({int((~ok).sum())} differ)")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def clock(zone):
    """Local days are those of the given time zone."""
    old = os.environ.get('TZ')
    try:
        if zone:
            os.environ['TZ'] = zone
            time.tzset()
        yield
    finally:
        os.environ.pop('TZ', None)
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()


@contextlib.contextmanager
def quiet():
    """Silences prints of the code under test (stdout and stderr of this process are already redirected in a search)."""
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield


def _plain(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _alarm(_sig, _frm):
    raise _Timeout()


# raised while a result is read: it is absent, too short, lacks a name or holds something else than a number
UNREADABLE = (FileNotFoundError, LookupError, ValueError, ArithmeticError, TypeError)


def run_case(f, case):
    """One evaluation. Cases are plain JSON values, so a replay file reruns exactly this."""
    text = dumps(case)
    case = json.loads(text)
    salt = int(hashlib.sha256(text.encode()).hexdigest()[:8], 16)
    reset_state(salt)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        return f.fn(case)
    except _Timeout:
        raise Violation(f"no result within {CASE_LIMIT_S} s")
    except UNREADABLE as exc:
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(f"the result cannot be read: {type(exc).__name__}: {str(exc)[:300]} ({os.path.basename(where.filename)}, {where.name})") from exc
    finally:
        signal.alarm(0)


def run_facet(f, seed, tier):
    """Searches one facet. Returns a plain result dictionary."""
    n = min(f.quick * QUICK_FACTOR, max(f.quick, f.thorough)) if tier == "quick" else f.thorough
    fseed = int(hashlib.sha256(f"{seed}:{f.name}".encode()).hexdigest()[:12], 16)
    res = {"facet": f.name, "rule": f.rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": [],
           "violation": None, "error": None, "stopped": None}
    seen, start = set(), time.monotonic()
    limit = FACET_LIMIT_S[tier]
    best = {"case": None, "msg": None, "len": None, "first": None}

    def body(case):
        now = time.monotonic()
        if best["first"] is None:
            if now - start > limit:
                res["stopped"] = f"time limit {limit} s"
                raise _Stop()
        elif now - best["first"] > SHRINK_LIMIT_S:
            raise _Stop()
        try:
            nontrivial = run_case(f, case)
        except Violation as exc:
            text = dumps(case)
            if best["len"] is None or len(text) <= best["len"]:
                best.update(case=json.loads(text), msg=str(exc), len=len(text))
            if best["first"] is None:
                best["first"] = time.monotonic()
            raise
        if best["first"] is None:
            res["evaluations"] += 1
            if nontrivial:
                text = dumps(case)
                h = hashlib.sha256(text.encode()).digest()[:10]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 2 and len(text) < 1500 and len(seen) in (1, 5, 6, 7, 8, 9):
                        res["samples"].append(json.loads(text))

    test = hypothesis.seed(fseed)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False, verbosity=Verbosity.quiet,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck))(given(f.strategy)(body)))
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as exc:  # noqa: BLE001
        if best["case"] is None:
            res["error"] = "".join(traceback.format_exception(exc))[-4000:]
    if best["case"] is not None:
        res["violation"] = {"case": best["case"], "message": best["msg"]}
    res["distinct_nontrivial"] = len(seen)
    res["wall_s"] = round(time.monotonic() - start, 2)
    return res


def facet_child(f, seed, tier, out_path):
    """Runs in a forked child: silences output and writes the result as JSON."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    logging.disable(logging.CRITICAL)
    try:
        res = run_facet(f, seed, tier)
    except BaseException as exc:  # noqa: BLE001
        res = {"facet": f.name, "rule": f.rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": [],
               "violation": None, "error": "".join(traceback.format_exception(exc))[-4000:], "stopped": None, "wall_s": 0}
    with open(out_path + ".tmp", "w") as fh:
        json.dump(res, fh, default=_plain)
    os.rename(out_path + ".tmp", out_path)


# ---------------------------------------------------------------- strategy helpers

def ints(a, b):
    return st.integers(min_value=a, max_value=b)


def decimals(lo, hi, places=3):
    """Floats with few decimals: shrink well and avoid denormal noise."""
    k = 10 ** places
    return st.integers(min_value=int(lo * k), max_value=int(hi * k)).map(lambda i: i / k)


def pick(*opts):
    return st.sampled_from(list(opts))


def lists(s, lo, hi):
    return st.lists(s, min_size=lo, max_size=hi)
