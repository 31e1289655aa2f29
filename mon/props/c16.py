"""C16: results are accurate to the caller's working precision, at any precision.

Two monitors, both independent of any model of the function:

* precision ladder: the call at d digits against the same call at a much higher precision;
* local linearity: at 60 digits, the response to relative perturbations of one argument by 1e-22 and 1e-20 must
  give the same derivative.  A computation that passes through double precision anywhere (a float literal, math.log,
  a rounded intermediate) answers such perturbations with 0 or with a jump 1e6 times too large - and is invisible
  to the ladder, because it loses the same digits at every precision."""
import math
import mpmath
from mpmath import mp
from ..engine import Subject, Exc
from .. import catalog
from .c01 import ABS, QUAD

RULE = ("distinct_nontrivial = distinct combinations of (decision sites, outcomes) executed; evaluations = numbers compared "
        "between precisions plus derivative pairs")
ASSUMPTIONS = ["mpmath elementary and special functions are accurate to a few ulp at the working precision",
               "arguments are short dyadic numbers, exactly representable at every precision used",
               "generated points are in the body of the distribution; tails are covered by C01-C04"]
DPS = [15, 16, 18, 20, 25, 30, 40, 50, 75, 100]
# results on an absolute scale (logs, differences of order-one quantities)
UNIT = ("log", "entropy", "skewness", "kurtosis", "nll", "llf", "debye", "hermite", "digamma", "xlog", "box", "yeo", "inv", "vonmises", "mean", "var",
        "pearsonr", "spherical", "roots")
NOLIN = {"mode", "support"}
# numerically inverted or integrated results: only as accurate as the documented method
LOOSE = {}


def flat(v, out=None, depth=0):
    out = [] if out is None else out
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return out
    if isinstance(v, (int, float, mpmath.mpf)):
        out.append(v)
    elif isinstance(v, mpmath.mpc):
        out += [v.real, v.imag]
    elif isinstance(v, mpmath.matrix):
        out += [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    elif isinstance(v, dict):
        for k in v:
            flat(k, out)
            flat(v[k], out)
    elif isinstance(v, range):
        out += [v.start, v.stop]
    elif depth < 4 and hasattr(v, "__iter__") and hasattr(v, "__len__"):
        for t in v:
            flat(t, out, depth + 1)
    return out


def scale_of(args):
    s = [abs(t) for t in flat(list(args)) if mp.isfinite(t)]
    return max(s) if s else 1


class G(Subject):
    guided = False
    frozen = ()

    def __init__(self, group, entries, tier):
        self.name, self.e = group, {e.name: e for e in entries}
        self.names = sorted(self.e)
        slow = any(e.slow for e in entries)
        n = len(entries)
        self.quick = max(8, 4 * n) if not slow else max(8, 3 * n)
        self.thorough = 60 * n if not slow else 30 * n
        self.cost = 5 if group in QUAD | {"genhyperbolic", "geninvgauss", "tukeylambda"} else n / 20
        self.i = 0

    def gen(self, rng):
        self.i += 1
        e = self.e[self.names[self.i % len(self.names)]]
        if self.i >= len(self.names) and self.heavy(e.name) and rng.random() < .7:
            e = self.e[rng.choice([n for n in self.names if not self.heavy(n)])]
        a, k = e.gen(rng)
        return dict(dps=rng.choice(DPS), fn=e.name, a=list(a), k=dict(k), pick=rng.randint(0, 20), sub=rng.randint(0, 10), _s="body")

    def absolute(self, f):
        key = f"{self.name}.{f}"
        return key in ABS or self.name in QUAD

    def heavy(self, f):
        return (self.name in QUAD and f in ("cdf", "sf")) or (self.name in ("chi2", "argus") and f in ("invcdf", "invsf"))

    def slowfn(self, f):
        return (self.name in QUAD and f in ("cdf", "sf")) or (self.name, f) in SLOW or f in ("mle", "boxcox_mle", "yeojohnson_mle", "odds_ratio_ci")

    def observe(self, case, call):
        e = self.e[case["fn"]]
        a, k, d = case["a"], case["k"], case["dps"]
        f = case["fn"]
        if self.slowfn(f):
            d = min(d, 30)
        if self.name in QUAD and f in ("cdf", "sf"):
            d = min(d, 20)
        o = {}
        hi = int(1.6 * d) + 25 if d > 20 else d + 22
        with mp.workdps(d):
            call.dps = d
            o["d"] = d
            o["lo"] = call(e.fn, *a, **k)
            call.dps = hi
            mp.dps = hi
            o["hi"] = call(e.fn, *a, **k)
            call.dps = 15
        o["lin"] = None
        if f not in NOLIN and not self.slowfn(f) and e.ints != "all" and self.name not in QUAD and not self.absolute(f):
            pos = [(i, None) for i, t in enumerate(a) if isinstance(t, (int, float)) and i not in e.ints and t != 0 and math.isfinite(t)
                   and not (isinstance(t, int) and self.name == "fun")]
            pos += [(i, j) for i, t in enumerate(a) if isinstance(t, list) and self.name not in ("dirichlet", "multivariate_t")
                    for j in range(len(t)) if isinstance(t[j], (int, float)) and t[j] != 0]
            if f in ("unique_counts", "chisquare", "gtest", "roots_legendre"):
                pos = []
            if pos:
                i, j = pos[case["pick"] % len(pos)]
                vals = {}
                call.dps = mp.dps = 58
                for key, dl in ((0, 0), (1, "1e-22"), (-1, "-1e-22"), (2, "1e-20"), (-2, "-1e-20"), (3, "1e-9"), (-3, "-1e-9")):
                    b = list(a)
                    fac = 1 + mp.mpf(dl)
                    if j is None:
                        b[i] = mp.mpf(b[i]) * fac
                    else:
                        b[i] = list(b[i])
                        b[i][j] = mp.mpf(b[i][j]) * fac
                    vals[key] = call(e.fn, *b, **k)
                mp.dps = call.dps = 15
                o["lin"] = ((i, j), vals)
        return o

    def judge(self, case, obs):
        f, d = case["fn"], obs["d"]
        out, n = [], 0
        lo, hi = obs["lo"], obs["hi"]
        what = f"{f}(*{case['a']!r}, **{case['k']!r})"
        if isinstance(hi, Exc):
            if f.endswith("mle") or f == "mom":
                return 0, []
            if isinstance(lo, Exc) and lo.type == hi.type:
                return 0, []
            return 1, [(f, f"{what}: {hi!r:.80} at high precision, {lo!r:.60} at {d} digits")]
        if isinstance(lo, Exc):
            if f.endswith("mle") or f == "mom":
                return 0, []
            return 1, [(f, f"{what}: {lo!r:.80} at {d} digits, a value at high precision")]
        A, B = flat(lo), flat(hi)
        if len(A) != len(B):
            return 1, [(f, f"{what}: results have different lengths at different precisions")]
        lost = LOST.get((self.name, f), LOST.get(f, DEFLOST))
        with mp.workdps(2 * d + 40):
            s = scale_of(case["a"])
            unit = any(u in f for u in UNIT) or self.name in ("vonmises",)
            big = max([abs(b) for b in B if mp.isfinite(b)] or [0])
            tol = mp.mpf(10) ** -(d - lost)
            if f in ("mle", "boxcox_mle", "yeojohnson_mle", "mom") or (self.name, f) in HALF:
                tol = mp.mpf(10) ** -(mp.mpf(d) / 2 - 3)
            for i, (u, v) in enumerate(zip(A, B)):
                n += 1
                u, v = mp.mpf(u), mp.mpf(v)
                if u == v or (mp.isnan(u) and mp.isnan(v)):
                    continue
                floor = abs(v)
                if self.absolute(f):
                    floor = max(floor, 1)
                if unit:
                    floor = max(floor, 1)
                elif f not in ("pdf", "pmf", "cdf", "sf", "interval_prob"):
                    floor = max(floor, s / 100)
                if len(B) > 1:
                    floor = max(floor, big / 1000)
                if not (mp.isfinite(u) and mp.isfinite(v)) or abs(u - v) > tol * floor:
                    out.append((f, f"{what} component {i}: at {d} digits {mp.nstr(u, d)}, at high precision {mp.nstr(v, d)} "
                                   f"(relative difference {mp.nstr(abs(u - v) / floor, 3) if floor else '-'})"))
                    break
        if obs["lin"]:
            (i, j), vals = obs["lin"]
            if not any(isinstance(t, Exc) for t in vals.values()):
                F = {k: flat(t) for k, t in vals.items()}
                if len({len(t) for t in F.values()}) == 1:
                    with mp.workdps(70):
                        for c in range(len(F[0])):
                            w = {k: mp.mpf(F[k][c]) for k in F}
                            if not all(mp.isfinite(t) for t in w.values()):
                                continue
                            D = {k: (w[k] - w[-k]) / (2 * mp.mpf(h)) for k, h in ((1, "1e-22"), (2, "1e-20"), (3, "1e-9"))}
                            # a kink or a jump at this very point is not smooth: one-sided slopes differ
                            r, l = (w[2] - w[0]) * 10**20, (w[0] - w[-2]) * 10**20
                            noise = mp.mpf(10) ** -30 * max(abs(w[0]), 1)
                            if abs(r - l) > mp.mpf(10) ** -6 * (abs(r) + abs(l)) + noise and abs(D[1] - D[2]) <= mp.mpf(10) ** -6 * abs(D[2]) + noise:
                                continue
                            n += 1
                            ref = abs(D[3])
                            tol = mp.mpf(10) ** -5 * max(ref, abs(D[2])) + mp.mpf(10) ** -10 * abs(w[0]) + mp.mpf(10) ** -30
                            if abs(D[1] - D[2]) > tol or abs(D[2] - D[3]) > mp.mpf(10) ** -3 * ref + mp.mpf(10) ** -8 * abs(w[0]) + mp.mpf(10) ** -30:
                                out.append((f + ":digits", f"{what}: response to relative perturbations of argument {i if j is None else (i, j)} by 1e-22, 1e-20, 1e-9 "
                                                           f"at 58 digits has slopes {mp.nstr(D[1], 6)}, {mp.nstr(D[2], 6)}, {mp.nstr(D[3], 6)}: digits are lost"))
                                break
        return n, out


SLOW = {("ncf", "cdf"), ("fun", "wright_bessel"), ("fun", "marcumq"), ("fun", "cmarcumq"), ("fun", "betaincinv"), ("argus", "invcdf"), ("argus", "invsf")}
LOST = {("truncnorm", "skewness"): 10, ("truncnorm", "kurtosis"): 10, ("truncnorm", "var"): 8}
DEFLOST = 3
HALF = set()


def subjects(tier):
    by = {}
    for e in catalog.build():
        by.setdefault(e.group, []).append(e)
    return [G(g, es, tier) for g, es in by.items()]
