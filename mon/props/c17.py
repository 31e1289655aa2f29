"""C17: a call leaves the mpmath context and its arguments as it found them, whether it returns or raises.

Monitors around every call: the context (precision, rounding, trap_complex, pretty), the identity and the value of every
argument (deep snapshot), the state of the random module, and the process-wide state a caller may own.  Calls are made
with valid arguments, with junk, and with faults injected in the middle of the library code (an exception raised at
the n-th comparison, or by the n-th call of an mpmath function from library code).  Containers returned to the caller are
then overwritten by the caller and the call repeated: it must not notice."""
import copy
import inspect
import os
import random
import signal
import sys
import warnings
import mpmath
from mpmath import mp
from ..engine import Subject, Exc
from ..core import time_limit, Hang
from .. import catalog, instr
from .c16 import flat, QUAD

RULE = ("distinct_nontrivial = distinct combinations of (decision sites, outcomes) executed; evaluations = snapshots compared "
        "(context, arguments, repeated results)")
ASSUMPTIONS = ["mpmath itself restores its context when an exception passes through findroot, quad, nsum, diff and gammainc",
               "faults are injected at comparisons of the library and at its calls into mpmath; both are places where a real "
               "call can raise (invalid operand types, non-convergence)"]
JUNK = [None, "x", float("nan"), -1, -0.5, 0, [], {}, 1e300, 2.5, "1.5", float("inf"), -float("inf"), 1j, (1,)]
PRECS = [53, 54, 61, 67, 100, 113, 169, 200]
FUNCS = ("log", "exp", "sqrt", "gamma", "loggamma", "beta", "betainc", "gammainc", "quad", "findroot", "power", "fsum", "erfc", "erf", "log1p",
         "expm1", "powm1", "nsum", "mpf", "inf", "cosh", "besselk", "besseli", "psi", "polyval", "hyp2f1", "ncdf", "npdf", "mpmathify", "matrix",
         "det", "inverse", "diff", "taylor", "fprod", "binomial", "factorial", "zeta", "polylog", "sinh", "tan", "atan", "floor", "ceil")


class MFault(Exception):
    pass


ROOT = os.path.join(instr.REPO, "mpsci") + os.sep


class mpfault:
    """the n-th call of an mpmath function made directly by library code raises"""

    def __init__(self, n):
        self.left = n

    def __enter__(self):
        self.saved = {}
        for f in FUNCS:
            if f in ("inf",) or not hasattr(mp, f) or inspect.isclass(getattr(mp, f)):
                continue
            orig = getattr(mp, f)
            self.saved[f] = (f in mp.__dict__, orig)
            setattr(mp, f, self.wrap(orig))
        return self

    def wrap(self, orig):
        def g(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(ROOT):
                self.left -= 1
                if self.left == 0:
                    raise MFault("injected")
            return orig(*a, **k)
        return g

    def __exit__(self, *a):
        for f, (own, orig) in self.saved.items():
            if own:
                setattr(mp, f, orig)
            else:
                delattr(mp, f)


def context():
    return dict(prec=mp.prec, dps=mp.dps, prec_rounding=tuple(mp._prec_rounding), trap_complex=mp.trap_complex, pretty=mp.pretty)


def snap(v, seen=None):
    """a value snapshot that notices type changes as well"""
    if isinstance(v, mpmath.matrix):
        return ("matrix", v.rows, v.cols, tuple(snap(v[i, j]) for i in range(v.rows) for j in range(v.cols)))
    if isinstance(v, mpmath.mpf):
        return ("mpf", v._mpf_)
    if isinstance(v, mpmath.mpc):
        return ("mpc", v._mpc_)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snap(t) for t in v))
    if isinstance(v, dict):
        return ("dict", tuple((snap(k), snap(t)) for k, t in v.items()))
    return (type(v).__name__, repr(v))


def idents(v):
    if isinstance(v, (list, tuple)):
        return (id(v), tuple(idents(t) for t in v))
    return id(v)


def deface(v, depth=0):
    """overwrite every mutable container of a result, as its owner may"""
    n = 0
    if depth > 4:
        return 0
    if isinstance(v, mpmath.matrix):
        for i in range(v.rows):
            for j in range(v.cols):
                v[i, j] = mp.mpf(-99)
        return 1
    if isinstance(v, list):
        for t in v:
            n += deface(t, depth + 1)
        v[:] = [mp.mpf(-99)] * len(v)
        v.append("defaced")
        return n + 1
    if isinstance(v, dict):
        v.clear()
        return 1
    if isinstance(v, tuple):
        return sum(deface(t, depth + 1) for t in v)
    return 0


class G(Subject):
    guided = False

    def __init__(self, group, entries, tier):
        self.name, self.e = group, {e.name: e for e in entries}
        self.names = sorted(self.e)
        n = len(entries)
        self.quick = 16 * n if group not in QUAD | {"genhyperbolic", "geninvgauss"} else 6 * n
        self.thorough = 300 * n if self.quick == 16 * n else 60 * n
        self.cost = n
        self.i = 0

    def gen(self, rng):
        self.i += 1
        e = self.e[self.names[self.i % len(self.names)]]
        a, k = e.gen(rng)
        mode = ["plain", "junk", "fault", "mpfault", "junk", "mpfault", "fault", "list"][(self.i // len(self.names)) % 8]
        return dict(prec=rng.choice(PRECS), fn=e.name, a=list(a), k=dict(k), mode=mode, at=rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 20]),
                    pos=rng.randint(0, 6), junk=rng.randrange(len(JUNK)), spell=rng.choice(["float", "mpf", "tuple"]), _s=mode)

    def args(self, e, case):
        a, k = copy.deepcopy(case["a"]), copy.deepcopy(case["k"])
        mp.prec = 53
        if case["spell"] == "mpf" and e.ints != "all":
            a = [mp.mpf(t) if isinstance(t, float) else [mp.mpf(u) if isinstance(u, float) else u for u in t] if isinstance(t, list) else t for t in a]
        if case["spell"] == "tuple":
            a = [tuple(t) if isinstance(t, list) and e.prep is None and not any(isinstance(u, list) for u in t) else t for t in a]
        if e.prep:
            a = e.prep(a)
        if case["mode"] == "junk" and a:
            p = case["pos"] % len(a)
            j = JUNK[case["junk"]]
            if isinstance(a[p], list) and a[p] and case["pos"] % 2:
                a[p][case["at"] % len(a[p])] = j
            else:
                a[p] = j
        return a, k

    def observe(self, case, call):
        e = self.e[case["fn"]]
        a, k = self.args(e, case)
        o = dict(viol=[], n=0)

        def once(label, guard=None):
            mp.prec = case["prec"]
            st = random.getstate()
            wf = list(warnings.filters)
            c0, s0, i0 = context(), (snap(a), snap(k)), (idents(a), [idents(v) for v in k.values()])
            r = None
            sig = signal.getsignal(signal.SIGALRM)
            try:
                with time_limit(4 if case["mode"] in ("junk", "fault", "mpfault") else 15):
                    if guard == "fault":
                        instr.FAULT[0] = case["at"]
                        r = e.fn(*a, **k)
                    elif guard == "mpfault":
                        with mpfault(case["at"]):
                            r = e.fn(*a, **k)
                    else:
                        r = e.fn(*a, **k)
            except Hang:
                instr.FAULT[0] = 0
                mp.prec = 53
                raise
            except Exception as ex:       # noqa: BLE001
                r = Exc(ex)
            finally:
                instr.FAULT[0] = 0
            c1, s1, i1 = context(), (snap(a), snap(k)), (idents(a), [idents(v) for v in k.values()])
            mp.prec = case["prec"]
            mp.trap_complex = c0["trap_complex"]
            mp.pretty = c0["pretty"]
            o["n"] += 2
            how = f"{label}: {'raised ' + r.type if isinstance(r, Exc) else 'returned'}"
            if c1 != c0:
                d = {t: (c0[t], c1[t]) for t in c0 if c0[t] != c1[t]}
                o["viol"].append(("context", f"{how} and left the mpmath context changed: {d}"))
            if s1 != s0 or i1 != i0:
                o["viol"].append(("arguments", f"{how} and changed its arguments: {s0!r:.150} -> {s1!r:.150}"))
            if random.getstate() != st or list(warnings.filters) != wf:
                o["viol"].append(("context", f"{how} and changed the state of random/warnings"))
            return r
        if case["mode"] in ("fault", "mpfault"):
            once(f"fault injected at {case['at']}", case["mode"])
            # the failed call must not poison the next one
            r2 = once("call after a fault")
            r3 = once("second call after a fault")
            o["n"] += 1
            if not isinstance(r3, Exc) and not isinstance(r2, Exc) and snap(flat(r2)) != snap(flat(r3)):
                o["viol"].append(("repeat", "two calls after a fault disagree"))
        elif case["mode"] == "junk":
            once("junk argument")
        else:
            r1 = once("call")
            keep = snap(flat(r1)) if not isinstance(r1, Exc) else None
            if keep is not None:
                m = deface(r1)
                r2 = once("repeated call")
                o["n"] += 1
                if isinstance(r2, Exc) or snap(flat(r2)) != keep:
                    o["viol"].append(("aliased" if m else "repeat", f"the result of a repeated call changed{' after the caller overwrote the first result' if m else ''}: "
                                      f"{keep!r:.120} -> {snap(flat(r2)) if not isinstance(r2, Exc) else r2!r:.120}"))
        mp.prec = 53
        return o

    def judge(self, case, obs):
        what = f"{case['fn']}(*{case['a']!r}, **{case['k']!r}) mode={case['mode']} pos={case['pos']} junk={JUNK[case['junk']]!r} prec={case['prec']}"
        return obs["n"], [(t, f"{what}: {m}") for t, m in obs["viol"][:1]]


def subjects(tier):
    by = {}
    for e in catalog.build():
        by.setdefault(e.group, []).append(e)
    return [G(g, es, tier) for g, es in by.items()]
