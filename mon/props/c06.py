"""C06: support, mode and median locate the distribution."""
from mpmath import mp
from .. import cdist
from ..cont import ContSubject, bad_number
from ..core import mpf, show, hp, INF, Inconclusive
from ..engine import Exc

RULE = ("one fact = one support interval compared with the model's, one mode shown to be a maximum of the model density "
        "(locally to working precision, globally on a grid reaching both ends), or one median with exact probability 1/2; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath elementary and special functions are correct to their working precision",
               "reference densities in mon/cdist.py state the documented distributions",
               "the global mode check uses a finite grid, the local one is exact up to the working precision"]
GRID = [mpf(10) ** -k for k in (40, 20, 10, 6, 4, 3, 2, 1)] + [mpf(k) / 4 for k in (1, 2, 3, 5, 7, 9, 12, 16, 24, 48, 100, 400)]


class S(ContSubject):
    fns = ("support", "mode", "median")
    quick = 150
    thorough = 3000
    tshards = 2

    def __init__(self, name, tier):
        super().__init__(name)
        self.gbudget = 300 if tier == "quick" else 3000
        self.gtime = 8 if tier == "quick" else 120
        if self.d.slow:
            self.quick, self.thorough = 40, 600
        if self.have == ["support"]:
            self.quick //= 4

    def fill(self, rng, case, p):
        case["_s"] = "random"
        return case

    def observe(self, case, call):
        p = self.params(case)
        return {f: call(getattr(self.m, f), *p) for f in self.have}

    def judge(self, case, obs):
        d, p, dps = self.d, self.params(case), case["dps"]
        out, facts = [], 0
        with mp.workdps(dps + 20):
            loc, scale, shape = d.std(*p)
            a, b = d.supp_z(shape)
            A = a if mp.isinf(a) else loc + scale * a
            B = b if mp.isinf(b) else loc + scale * b
            eps = mpf(10) ** (3 - dps)
            for f in self.have:
                v = obs[f]
                facts += 1
                ctx = f"{f}{p!r} at dps={dps}"
                if f == "support":
                    if isinstance(v, Exc):
                        out.append((f, f"{ctx}: raised {v.type}: {v.msg}"))
                        continue
                    try:
                        lo, hi = v
                        lo, hi = mpf(lo), mpf(hi)
                    except Exception:
                        out.append((f, f"{ctx} = {v!r} is not an interval"))
                        continue
                    for got, want, z in ((lo, A, a), (hi, B, b)):
                        if mp.isinf(want):
                            ok = got == want
                        else:
                            ok = abs(got - want) <= eps * (abs(loc) + abs(scale * z))
                        if not ok:
                            out.append((f, f"{ctx} = ({show(lo)}, {show(hi)}), the density lives on ({show(A)}, {show(B)})"))
                            break
                    continue
                bad = bad_number(v)
                if not bad and mp.isinf(v):
                    bad = "infinite"
                if bad:
                    out.append((f, f"{ctx}: {bad}"))
                    continue
                v = mpf(v)
                if f == "median":
                    c, w = d.typ(shape)
                    dens = scale * 0 + d.pdf(v, *p)
                    r = hp(lambda: d.cdf(v, *p), dps)
                    if not mp.isfinite(dens) or not abs(r - mpf(1) / 2) <= eps * (1 + dens * (abs(v) + abs(loc) + abs(v - loc))):
                        out.append((f, f"{ctx} = {show(v)} has probability {show(r)} below it"))
                    continue
                if self.name in ("beta", "kumaraswamy") and shape[0] < 1 and shape[1] < 1:
                    if v != 0:       # unbounded at both ends: documented to be 0
                        out.append((f, f"{ctx} = {show(v)}, documented to be 0 when the density is unbounded at both ends"))
                    continue
                msg = self.check_mode(v, loc, scale, shape, a, b, dps)
                if msg:
                    out.append((f, f"{ctx} = {show(v)}: {msg}"))
        return facts, out

    def check_mode(self, v, loc, scale, shape, a, b, dps):
        d = self.d
        with mp.workdps(3 * dps + 60):
            z = (v - loc) / scale
            c, w = d.typ(shape)
            slack = mpf(10) ** (4 - dps) * (abs(loc) / scale + abs(z) + w * mpf(10) ** -3)

            def lp(t):
                r = d.logpdf_z(t, *shape)
                if isinstance(r, mp.mpc):
                    r = r.real
                return r
            if z < a - slack or z > b + slack:
                return f"is outside the support ({show(a)}, {show(b)}) of (x - loc)/scale"
            tiny = mpf(10) ** (-2 * dps - 40) * w
            end = None
            if mp.isfinite(a) and abs(z - a) <= slack:
                end, top = a, lp(a + tiny)
            elif mp.isfinite(b) and abs(z - b) <= slack:
                end, top = b, lp(b - tiny)
            else:
                top = lp(z)
            if end is not None:      # z is within rounding of the end: every point that close is as good
                for t in (z, end + slack, end - slack):
                    if a < t < b:
                        top = max(top, lp(t))
            if mp.isnan(top):
                raise Inconclusive("reference density nan")
            # global: nothing on the grid is higher
            pts = []
            for base, sg in ((a, 1), (b, -1), (c, 1), (c, -1), (z, 1), (z, -1)):
                if mp.isfinite(base):
                    pts += [base + sg * g * w for g in GRID]
            for t in pts:
                if a < t < b:
                    q = lp(t)
                    if mp.isnan(q):
                        continue
                    if q > top + mpf(10) ** (8 - 2 * dps):
                        # a rounding-size displacement of z explains tiny differences near the peak
                        if abs(t - z) <= 4 * slack:
                            continue
                        if end is not None:
                            near = lp(t) - top
                            if near < mpf(10) ** (4 - dps):
                                continue
                        elif q - max(lp(min(max(z + s, a + tiny), b - tiny)) for s in (slack, -slack)) <= 0:
                            continue
                        elif self.flips(z, shape, dps):
                            continue
                        return (f"the log density there is {show(top)} but {show(q)} at x = {show(loc + scale * t)}")
            if end is not None:
                return None
            # local: the density falls off on both sides
            for s in (1, -1):
                t = z + s * slack
                if not a < t < b:
                    continue
                if lp(t) > top + abs(top) * mpf(10) ** (-2 * dps - 50):
                    # the maximum is further away than rounding allows, unless it is that sensitive to the parameters
                    if self.flips(z, shape, dps):
                        continue
                    return (f"the density is still increasing at distance {mp.nstr(slack * scale, 3)} "
                            f"(log density {show(lp(t))} > {show(top)})")
        return None

    def flips(self, z, shape, dps):
        """does the slope of the density at z change sign within rounding of the shape parameters?"""
        d = self.d
        h = abs(z) * mpf(10) ** (-2 * dps - 20) + mpf(10) ** (-2 * dps - 30)
        signs = set()
        e = mpf(10) ** (2 - dps)
        for i in range(len(shape)):
            for s in (1, -1):
                sh = list(shape)
                sh[i] = sh[i] * (1 + s * e)
                try:
                    r = d.logpdf_z(z + h, *sh) - d.logpdf_z(z - h, *sh)
                    signs.add(1 if r > 0 else -1 if r < 0 else 0)
                except Exception:
                    continue
        return len(signs) > 1


def subjects(tier):
    return [s for s in (S(n, tier) for n in cdist.D) if s.have]
