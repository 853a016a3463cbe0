"""Registry of checks, case context and comparison helpers."""
import json
import os
import shutil
import tempfile
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VF_SCRATCH") or tempfile.gettempdir()
SUBS = {}  # property -> [Sub]


class Violation(Exception):
    """The code under test broke the property on this case."""


class Known(Exception):
    """The case hits a defect recorded in known_findings.txt."""

    def __init__(self, finding, text):
        super().__init__(text)
        self.finding = finding


class Skip(Exception):
    """The generated case is outside the domain (counted, not judged)."""


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, shards, rule, examples, hang):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.examples, self.hang = rule, examples, hang


def sub(prop, name, strategy, quick, thorough=None, shards=1, rule="", examples=(), hang=150):
    """Register a check function fn(case, ctx): raises Violation if the case breaks the property."""

    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 12, shards, rule, list(examples), hang)
        )
        return fn

    return deco


class Ctx:
    """What a check function may use while judging one case."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self._tmp = None

    def label(self, *names):
        self.labels.update(str(n) for n in names if n)

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=SCRATCH, prefix="case_")
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def _arr(x, what):
    try:
        a = np.asarray(x)
        if a.dtype == object:
            a = np.array(x, dtype=float)
        return a
    except Exception as e:
        raise Violation(f"{what}: not an array ({type(x).__name__}: {e})")


def same(actual, expected, what, tol=None, atol=0.0, dtype=None):
    """actual equals expected: same shape and, element by element, equal (tol None) or within
    tol * (largest expected magnitude) + atol. NaN equals NaN, infinities equal themselves."""
    a, e = _arr(actual, what), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if dtype is not None and a.dtype != np.dtype(dtype):
        raise Violation(f"{what}: dtype {a.dtype}, expected {dtype}")
    if a.size == 0:
        return
    if a.dtype.kind not in "biufc":
        raise Violation(f"{what}: dtype {a.dtype}")
    if tol is None and not atol:
        with np.errstate(all="ignore"):
            ok = (a == e) | ((a != a) & (e != e))
    else:
        af, ef = a.astype(float), e.astype(float)
        fin = np.isfinite(ef)
        scale = np.max(np.abs(ef[fin])) if fin.any() else 0.0
        lim = (tol or 0.0) * scale + atol
        with np.errstate(all="ignore"):
            ok = np.where(fin, np.abs(af - ef) <= lim, (af == ef) | ((af != af) & (ef != ef)))
            ok &= np.isfinite(af) | ~fin
    if not np.all(ok):
        idx = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
        raise Violation(
            f"{what}: at {tuple(int(i) for i in idx)} got {a[idx]!r}, expected {e[idx]!r}"
            f" ({int(np.sum(~ok))} of {ok.size} differ)"
        )


def close(actual, expected, what, rtol=1e-9, atol=0.0):
    """element-wise relative comparison"""
    a, e = _arr(actual, what).astype(float), np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    with np.errstate(all="ignore"):
        ok = (np.abs(a - e) <= rtol * np.abs(e) + atol) | (a == e) | ((a != a) & (e != e))
    if not np.all(ok):
        idx = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
        raise Violation(
            f"{what}: at {tuple(int(i) for i in idx)} got {a[idx]!r}, expected {e[idx]!r}"
            f" ({int(np.sum(~ok))} of {ok.size} differ)"
        )


def raises(types, fn, what):
    """fn() must raise one of the given exception types."""
    try:
        r = fn()
    except types:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {types}")
    raise Violation(f"{what}: returned {type(r).__name__} instead of raising {types}")


HARNESS_ERRORS = (MemoryError, ImportError, KeyboardInterrupt)


def judge(sub_, case, ctx):
    """Run one case; Violation/Skip/Known propagate, anything the code under test raises on a
    valid case is a violation too."""
    try:
        sub_.fn(case, ctx)
    except (Violation, Skip, Known):
        raise
    except HARNESS_ERRORS:
        raise
    except SystemExit as e:
        raise Violation(f"the code under test exited the process (code {e.code})")
    except OSError as e:
        if e.errno in (28, 24, 12, 11, 30):  # no space, files, memory, processes
            raise
        raise Violation("unexpected " + _short_tb(e))
    except Exception as e:
        raise Violation("unexpected " + _short_tb(e))


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    places = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:]
    return f"{type(e).__name__}: {str(e)[:300]} (at {' > '.join(places)})"


def canon(case):
    return json.dumps(case, sort_keys=True)
