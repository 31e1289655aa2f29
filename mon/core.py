"""Shared machinery: trusted high precision evaluation, quadrature, comparison.

Everything here is independent of the code under test (it only uses mpmath).
"""
import functools
import math
import random
import signal
import zlib
from contextlib import contextmanager

import mpmath
from mpmath import mp

mpf = mp.mpf
INF = mp.inf
NINF = mp.ninf


class Inconclusive(Exception):
    """The oracle cannot decide this case (not the same as 'held')."""


class Hang(Exception):
    """A call into the code under test exceeded its step/time limit."""


def rng_for(*key):
    s = "|".join(str(k) for k in key)
    return random.Random(zlib.crc32(s.encode()) * 1000003 + len(s))


# ---------------------------------------------------------------- evaluation
def isnum(v):
    return isinstance(v, (int, float, mpmath.mpf))


def finite(v):
    return isnum(v) and mp.isfinite(v)


def relerr(got, ref):
    """|got-ref|/|ref| computed exactly enough; 0 if both equal (inf too)."""
    if got == ref:
        return mp.zero
    if not mp.isfinite(ref) or not mp.isfinite(got):
        return INF
    if ref == 0:
        return INF
    return abs((got - ref) / ref)


def hp(f, dps, cap=1500, factor=1.5, absfloor=None):
    """Evaluate the 0-argument reference f to `dps` significant digits.

    The working precision is raised until two evaluations agree to dps+2
    digits (or absolutely below `absfloor`); otherwise Inconclusive.
    """
    with mp.workdps(dps + 12):
        wp = dps + 12
        v0 = _safe(f)
        while True:
            wp = int(wp * factor) + 10
            if wp > cap:
                raise Inconclusive("reference did not converge")
            mp.dps = wp
            v1 = _safe(f)
            if v0 is not None and v1 is not None:
                if _agree(v0, v1, dps + 2, absfloor):
                    return v1
            v0 = v1


def _safe(f):
    try:
        return f()
    except (mpmath.libmp.NoConvergence, ZeroDivisionError, ValueError):
        return None


def _agree(a, b, digits, absfloor):
    if isinstance(a, (tuple, list)):
        return all(_agree(u, v, digits, absfloor) for u, v in zip(a, b))
    if a == b:
        return True
    if mp.isnan(a) and mp.isnan(b):
        return True
    if not (mp.isfinite(a) and mp.isfinite(b)):
        return False
    d = abs(a - b)
    if absfloor is not None and d < absfloor:
        return True
    return d <= abs(b) * mpf(10) ** (-digits)


# ---------------------------------------------------------------- quadrature
@functools.lru_cache(maxsize=64)
def _ts_nodes(dps, n):
    """tanh-sinh abscissae: list of (1-|x| complement q, weight) for t>0, and t=0."""
    with mp.workdps(dps + 10):
        h = mpf(1) / n
        nodes = []
        k = 0
        limit = mpf(10) ** (-(dps * 40 + 20))
        while True:
            t = h * k
            u = mp.pi / 2 * mp.sinh(t)
            # q = 1 - tanh(u) = 2/(1+exp(2u))
            q = 2 / (1 + mp.exp(2 * u))
            w = mp.pi / 2 * mp.cosh(t) / mp.cosh(u) ** 2 * h
            if q < limit or k > 12 * n:
                break
            nodes.append((q, w))
            k += 1
        return nodes


@functools.lru_cache(maxsize=64)
def _es_nodes(dps, n):
    """exp-sinh abscissae for (0, inf): (outward to the right, outward to the left)."""
    with mp.workdps(dps + 10):
        h = mpf(1) / n
        T = mp.asinh(2 / mp.pi * mp.log(mpf(10)) * (dps * 100 + 20))
        K = int(T / h) + 1

        def node(k):
            t = h * k
            x = mp.exp(mp.pi / 2 * mp.sinh(t))
            return (x, x * mp.pi / 2 * mp.cosh(t) * h)
        return [node(k) for k in range(0, K + 1)], [node(-k) for k in range(1, K + 1)]


def _outward(terms, s, eps):
    """Add terms until they have become negligible (4 in a row, decreasing)."""
    small = 0
    last = None
    for t in terms:
        s += t
        a = abs(t)
        if a <= eps * abs(s) and (last is None or a <= last):
            small += 1
            if small >= 4 and s != 0:
                break
        else:
            small = 0
        last = a
    return s


def _panel(f, a, b, dps, n, scale):
    """One panel; f(base, d) receives base end point and signed offset d>0 from a
    or d<0 from b so that end-point singularities keep relative accuracy."""
    eps = mpf(10) ** (-dps - 8)
    if mp.isinf(b) or mp.isinf(a):
        base, sg = (a, 1) if mp.isinf(b) else (b, -1)
        right, left = _es_nodes(dps, n)
        s = _outward((w * f(base, sg * x * scale) for x, w in right), mp.zero, eps)
        s = _outward((w * f(base, sg * x * scale) for x, w in left), s, eps)
        return s * scale
    half = (b - a) / 2
    nodes = _ts_nodes(dps, n)
    s = nodes[0][1] * f(a, half)
    s = _outward((w * f(a, half * q) for q, w in nodes[1:]), s, eps)
    s = _outward((w * f(b, -half * q) for q, w in nodes[1:]), s, eps)
    return s * half


def integrate(f, points, dps, scale=1, levels=(6, 12, 24, 48, 96), tol=None):
    """Integrate f(base, offset) over consecutive panels of `points`.

    Returns value; raises Inconclusive if successive levels do not agree to
    about `dps` digits (relative to the integral of |f|'s size or value)."""
    with mp.workdps(dps + 10):
        tol = mpf(10) ** (-dps) if tol is None else tol
        total = mp.zero
        parts = []
        for a, b in zip(points[:-1], points[1:]):
            prev = None
            for n in levels:
                v = _panel(f, a, b, dps, n, scale)
                if prev is not None and (abs(v - prev) <= tol * abs(v) or abs(v - prev) < mpf(10) ** (-3 * dps)):
                    break
                prev2, prev = prev, v
            else:
                parts.append((v, abs(v - prev2)))
                continue
            parts.append((v, mp.zero))
        total = mp.fsum(p[0] for p in parts)
        err = mp.fsum(p[1] for p in parts)
        if not mp.isfinite(total):
            raise Inconclusive("quadrature not finite")
        if err > 0 and err > tol * 100 * abs(total):
            raise Inconclusive("quadrature did not converge")
        return total


# ---------------------------------------------------------------- randomness
def short(rng, x, bits=None):
    """Round a float to a few significant bits (natural looking, exact)."""
    if x == 0 or math.isinf(x) or math.isnan(x):
        return x
    if bits is None:
        bits = rng.choice([4, 8, 12, 24, 53])
    m, e = math.frexp(x)
    return math.ldexp(round(m * 2.0**bits) / 2.0**bits, e) or x


def logu(rng, lo, hi):
    return short(rng, math.exp(rng.uniform(math.log(lo), math.log(hi))))


def unif(rng, lo, hi):
    v = short(rng, rng.uniform(lo, hi))
    return min(max(v, lo), hi)


# ---------------------------------------------------------------- time limit
@contextmanager
def time_limit(seconds):
    """Wall-clock watchdog; firing is inconclusive, never a verdict."""
    def handler(signum, frame):
        raise Hang("time limit")
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def show(v, n=17):
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(t, n) for t in v) + "]"
    if isinstance(v, mpmath.mpf):
        return mp.nstr(v, n)
    return repr(v)
