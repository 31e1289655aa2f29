"""C18: results do not depend on call history, nor on how an exact input is spelled.

History: sequences of calls (several functions of a module, repeated arguments, changing precision, failing calls in
between) run in one long-lived process; every result is compared with the same call made as the very first library call
of a fresh process (a grandchild forked from a zygote that has imported the library and never called it).
Spelling: the same exact values given as float, int, mpf (and list or tuple) must give the same result."""
import math
import os
import pickle
import random
import struct
import mpmath
from mpmath import mp
from ..engine import Subject, Exc
from ..core import time_limit, Hang, Inconclusive
from .. import catalog
from .c16 import flat, scale_of, UNIT, LOST, DEFLOST, QUAD
from .c01 import ABS
from .c17 import JUNK

RULE = ("distinct_nontrivial = distinct combinations of (decision sites, outcomes) executed; evaluations = results compared with a "
        "fresh process or with another spelling of the same values")
ASSUMPTIONS = ["mpmath's own caches (constants, quadrature nodes) may change results by rounding errors of the working precision only",
               "a forked process that has imported but never called the library behaves like a fresh interpreter"]
DPS = [15, 20, 30, 50, 75]


# ------------------------------------------------------------------ fresh processes
class Zygote:
    def __init__(self):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.close(self.w)
            try:
                self.serve(cr, cw)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.owner = os.getpid()

    @staticmethod
    def _read(fd):
        b = b""
        while len(b) < 4:
            t = os.read(fd, 4 - len(b))
            if not t:
                return None
            b += t
        n = struct.unpack("I", b)[0]
        b = b""
        while len(b) < n:
            t = os.read(fd, n - len(b))
            if not t:
                return None
            b += t
        return pickle.loads(b)

    @staticmethod
    def _write(fd, v):
        b = pickle.dumps(v)
        b = struct.pack("I", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, cr, cw):
        while True:
            req = self._read(cr)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self._write(cw, run(req))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        self._write(self.w, req)
        v = self._read(self.r)
        if v is None:
            raise Inconclusive("fresh process ended without an answer")
        return v


_Z = []


def zygote():
    if not _Z or _Z[0].owner != os.getpid():
        _Z[:] = [Zygote()]
    return _Z[0]


_E = {}


def entry(group, fn):
    if not _E:
        for e in catalog.build():
            _E[e.group, e.name] = e
    return _E[group, fn]


def run(req):
    """execute one call; answer ('ok', numbers) | ('exc', type) | ('hang',)"""
    group, fn, a, k, d = req
    e = entry(group, fn)
    mp.dps = d
    try:
        with time_limit(20):
            r = e.fn(*(e.prep(a) if e.prep else a), **k)
            return "ok", [enc(t) for t in flat(r)]
    except Hang:
        return ("hang",)
    except Exception as ex:       # noqa: BLE001
        return "exc", type(ex).__name__
    finally:
        mp.dps = 15


def enc(t):
    return ("m", t._mpf_) if isinstance(t, mpmath.mpf) else ("p", t)


def dec(t):
    return mp.make_mpf(t[1]) if t[0] == "m" else mp.mpf(t[1])


def differ(group, f, args, A, B, d):
    """None, or a description of the first difference beyond rounding"""
    if A[0] == "hang" or B[0] == "hang":
        return None
    if A[0] != B[0]:
        return f"{A!r:.80} versus {B!r:.80}"
    if A[0] == "exc":
        return None if A[1] == B[1] else f"raised {A[1]} versus {B[1]}"
    if len(A[1]) != len(B[1]):
        return "results of different lengths"
    with mp.workdps(d + 30):
        a, b = [dec(t) for t in A[1]], [dec(t) for t in B[1]]
        unit = any(u in f for u in UNIT) or group == "vonmises"
        fin = [abs(t) for t in b if mp.isfinite(t)]
        big = max(fin) if fin else 0
        s = scale_of(args)
        tol = mp.mpf(10) ** -(d - LOST.get((group, f), DEFLOST))
        if f in ("mle", "boxcox_mle", "yeojohnson_mle", "mom"):
            tol = mp.mpf(10) ** -(mp.mpf(d) / 2 - 3)
        for i, (u, v) in enumerate(zip(a, b)):
            if u == v or (mp.isnan(u) and mp.isnan(v)):
                continue
            floor = abs(v)
            if f"{group}.{f}" in ABS or group in QUAD or unit:
                floor = max(floor, 1)
            elif f not in ("pdf", "pmf", "cdf", "sf", "interval_prob"):
                floor = max(floor, s / 100)
            if len(b) > 1:
                floor = max(floor, big / 1000)
            if not (mp.isfinite(u) and mp.isfinite(v)) or abs(u - v) > tol * floor:
                return f"component {i}: {mp.nstr(u, d + 2)} versus {mp.nstr(v, d + 2)}"
    return None


HEAVY = {"genhyperbolic", "geninvgauss", "ncf", "exponweib"}


class Hist(Subject):
    guided = False

    def __init__(self, group, entries, tier):
        self.name, self.group = group + ".history", group
        self.names = sorted(e.name for e in entries)
        n = len(entries)
        self.quick = max(6, n) if group not in HEAVY | {"fun", "stats"} else 3 if group in HEAVY else 2 * n
        self.thorough = 15 * n if group not in HEAVY else 2 * n
        self.cost = n * (4 if group in HEAVY else 1)

    def gen(self, rng):
        seq = []
        base = []
        for _ in range(rng.randint(2, 3)):
            f = rng.choice(self.names)
            if self.group in QUAD | HEAVY and f in ("cdf", "sf", "mle") and rng.random() < .93:
                f = rng.choice([t for t in self.names if t not in ("cdf", "sf")])
            a, k = entry(self.group, f).gen(rng)
            base.append((f, list(a), dict(k)))
        dl = DPS if self.group not in QUAD | HEAVY else [15, 20, 25]
        for _ in range(rng.randint(4, 7)):
            f, a, k = rng.choice(base)
            r = rng.random()
            if r < .2 and a:
                a = list(a)
                a[rng.randrange(len(a))] = "junk%d" % rng.randrange(len(JUNK))
            elif r < .35 and entry(self.group, f).ints != "all" and entry(self.group, f).prep is None:
                a = [int(t) if isinstance(t, float) and t.is_integer() else float(t) if isinstance(t, int) and self.group in catalog.cdist.D else t for t in a]
            seq.append([f, a, k, rng.choice(dl)])
        return dict(seq=seq, _s="history")

    def observe(self, case, call):
        o = []
        for f, a, k, d in case["seq"]:
            junk = any(isinstance(t, str) and t.startswith("junk") for t in a)
            a = [JUNK[int(t[4:])] if isinstance(t, str) and t.startswith("junk") else t for t in a]
            req = (self.group, f, a, k, d)
            call.n += 1
            o.append((junk, req, run(req), None if junk else zygote().ask(req)))
        return o

    def judge(self, case, obs):
        out, n = [], 0
        for i, (junk, req, warm, cold) in enumerate(obs):
            if junk:
                continue
            n += 1
            w = differ(self.group, req[1], req[2], warm, cold, req[4])
            if w:
                out.append((req[1], f"call {i} of the history, {req[1]}(*{req[2]!r}, **{req[3]!r}) at {req[4]} digits: in this process / in a fresh process: {w}"))
        return n, out


class Spell(Subject):
    guided = False

    def __init__(self, group, entries, tier):
        self.name, self.group = group + ".spelling", group
        self.names = sorted(e.name for e in entries if e.ints != "all" and e.prep is None)
        n = len(self.names)
        self.quick = (14 if group in ("fun", "stats") else 4) * n if group not in HEAVY else n
        self.thorough = 60 * n if group not in HEAVY else 4 * n
        self.cost = n * (4 if group in HEAVY else 1)
        self.i = 0

    def gen(self, rng):
        self.i += 1
        f = self.names[self.i % len(self.names)]
        if self.group in QUAD | HEAVY and f in ("cdf", "sf") and rng.random() < .6:
            f = rng.choice([t for t in self.names if t not in ("cdf", "sf")])
        e = entry(self.group, f)
        a, k = e.gen(rng)
        full = rng.random() < .7 and self.group not in ("dirichlet",) and f not in ("chisquare", "gtest")

        def fill(t, root=False):
            # use all 53 bits, without leaving the neighbourhood of a valid value
            if isinstance(t, float) and full and math.isfinite(t) and t != 0 and not (t * 4096).is_integer() or (isinstance(t, float) and full and abs(t) > 2 and f not in ()):
                return t * (1 + rng.randint(1, 2 ** 20) * 2.0 ** -40)
            if isinstance(t, float) and full and 0 < abs(t):
                return t * (1 - rng.randint(1, 2 ** 20) * 2.0 ** -45)
            if isinstance(t, list):
                return [fill(u) for u in t]
            return t
        if full:
            a = [t if i in (e.ints or ()) else fill(t) for i, t in enumerate(a)]
            k = {p: (fill(v) if p == "weights" else v) for p, v in k.items()}
        return dict(dps=rng.choice([15, 30, 50] if self.group not in QUAD | HEAVY else [15, 20]), fn=f, a=list(a), k=dict(k), mix=rng.getrandbits(16), _s="full" if full else "short")

    def observe(self, case, call):
        f, d = case["fn"], case["dps"]
        e = entry(self.group, f)

        def conv(t, how, top=None):
            if isinstance(t, bool) or t is None or isinstance(t, str):
                return t
            if isinstance(t, list):
                r = [conv(u, how) for u in t]
                return tuple(r) if how == "tuple" else r
            if isinstance(t, float):
                if how == "mpf":
                    mp.dps = 60
                    return mp.mpf(t)
                if how == "int" and math.isfinite(t) and t.is_integer():
                    return int(t)
                return t
            if isinstance(t, int):
                if how == "mpf":
                    return mp.mpf(t)
                if how == "float":
                    return float(t)
            return t
        o = {}
        rng = random.Random(case["mix"])
        for how in ("given", "mpf", "float", "int", "tuple", "mixed"):
            ints = set(e.ints or ())
            if self.group == "fun":
                ints |= {i for i, t in enumerate(case["a"]) if isinstance(t, int)}      # orders and degrees
            if self.group == "stats" and f in ("pearsonr_ci",):
                ints.add(1)
            a = [t if i in ints else conv(t, rng.choice(["mpf", "float", "int"]) if how == "mixed" else how) for i, t in enumerate(case["a"])]
            k = {p: (conv(v, how) if p == "weights" else v) for p, v in case["k"].items()}
            if how == "mixed" and any(isinstance(t, list) for t in case["a"]):
                a = [[conv(u, rng.choice(["mpf", "float", "int"])) for u in t] if isinstance(t, list) else t for t in a]
            call.n += 1
            o[how] = run((self.group, f, a, k, d))
        return o

    def judge(self, case, obs):
        out, n = [], 0
        f, d = case["fn"], case["dps"]
        for how, r in obs.items():
            if how == "mpf":
                continue
            n += 1
            w = differ(self.group, f, case["a"], r, obs["mpf"], d)
            if w:
                out.append((f, f"{f}(*{case['a']!r}, **{case['k']!r}) at {d} digits, spelled '{how}' / spelled as mpf: {w}"))
                break
        return n, out


def subjects(tier):
    by = {}
    for e in catalog.build():
        by.setdefault(e.group, []).append(e)
    out = [Hist(g, es, tier) for g, es in by.items()]
    return out + [Spell(g, es, tier) for g, es in by.items() if any(e.ints != "all" and e.prep is None for e in es)]
