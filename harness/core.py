"""What a check module is made of."""

import hashlib
import json
import math


class Violation(AssertionError):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


class Test:
    """A generator (strategy of JSON documents) and the function that judges pywr on one of them.

    cases: number of generated cases in the quick tier (over all shards); the thorough tier multiplies it.
    weight: share of the soft time budget."""

    def __init__(self, name, strategy, fn, cases, weight=1.0, thorough=12):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.cases, self.weight, self.thorough = cases, weight, thorough


class Ev:
    """What one case turned out to be: labels for the distribution, and whether it was non-trivial."""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def tag(self, *labels):
        self.labels.update(str(x) for x in labels)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def digest(spec):
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:12]


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def num(x):
    try:
        return float(x)
    except Exception:
        raise Violation("not a number: %r" % (x,))


def isclose(a, b, rtol=1e-7, atol=1e-7):
    a, b = num(a), num(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def req_close(what, got, want, rtol=1e-7, atol=1e-7):
    if not isclose(got, want, rtol, atol):
        raise Violation("%s: got %r, expected %r" % (what, num(got), num(want)))


def req_equal(what, got, want):
    ok = False
    try:
        ok = bool(got == want)
    except Exception:
        pass
    if not ok:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def req_arrays(what, got, want, rtol=1e-7, atol=1e-7):
    import numpy as np
    try:
        g = np.asarray(got, dtype=float)
    except Exception:
        raise Violation("%s: not numeric: %r" % (what, got))
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s: shape %r, expected %r" % (what, g.shape, w.shape))
    bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation("%s at %r: got %r, expected %r (%d of %d differ)"
                        % (what, i, float(g[i]), float(w[i]), int(bad.sum()), g.size))


def raises(exc, fn, what):
    """fn must raise exc (an Exception class or a tuple)."""
    try:
        fn()
    except exc as e:
        return e
    raise Violation("%s: expected an error, none was raised" % what)
