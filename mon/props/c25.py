"""C25: odds_ratio estimates and confidence intervals match their definitions."""
import fractions
import math
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short
from ..engine import Subject, Exc
from ..fbase import fun

RULE = ("one fact = one estimate or interval end whose two neighbours at the working precision were inserted into the exact (integer "
        "coefficient) conditional mean or tail probability and found to enclose the observed count or alpha, one p-value compared with "
        "the exact enumeration or the normal approximation, one limit case, or one invalid argument rejected; distinct = distinct sets "
        "of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's erfc and erfinv are correct to their working precision"]
F = fractions.Fraction
ALT = ["two-sided", "less", "greater"]


class Odds(Subject):
    quick = 120
    thorough = 1500
    shards = 2
    tshards = 4

    def __init__(self, tier, kind):
        self.f = fun("stats.odds_ratio")
        self.kind = kind
        self.name = "odds_ratio:" + kind
        self.have = True
        self.gbudget = 100 if tier == "quick" else 2000

    def gen(self, rng):
        top = rng.choice([3, 10, 10, 25])
        t = [rng.randrange(0, top + 1) for _ in range(4)]
        r = rng.random()
        if r < 0.15:
            t[rng.randrange(4)] = 0
        elif r < 0.22:
            i, j = rng.choice([(0, 1), (2, 3), (0, 2), (1, 3)])
            t[i] = t[j] = 0
        elif r < 0.32:
            t = [1, rng.randrange(10, 40), rng.randrange(10, 40), 1]
            if rng.random() < 0.5:
                t = t[1:] + t[:1]
        lev = rng.choice([0.95, 0.9, 0.99, 0.5, 0.999, unif(rng, 0.02, 0.999), 1 - logu(rng, 1e-9, 0.1), 0.75])
        if rng.random() < 0.08:
            lev = rng.choice([0, 0.0, 1, 1.0])
        c = {"t": t, "alt": rng.choice(ALT), "level": lev, "dps": rng.choice([15, 15, 15, 20, 30]), "bad": ""}
        if rng.random() < 0.08:
            c["bad"] = rng.choice(["kind", "alt", "shape", "neg", "level<0", "level>1"])
        return c

    def valid(self, c):
        return (isinstance(c["t"], list) and len(c["t"]) == 4 and all(isinstance(x, int) and 0 <= x <= 40 for x in c["t"])
                and c["alt"] in ALT and 0 <= c["level"] <= 1 and (c["level"] == 0 or c["level"] >= 0.01)
                and (c["level"] == 1 or c["level"] < 1 - 1e-11) and 10 <= c["dps"] <= 60)

    def observe(self, c, call):
        a, b, cc, d = c["t"]
        tb = [[a, b], [cc, d]]
        bad = c["bad"]
        kind, alt, lev = self.kind, c["alt"], c["level"]
        if bad == "kind":
            kind = "unconditional"
        if bad == "alt":
            alt = "both"
        if bad == "shape":
            tb = [[a, b, 1], [cc, d, 1]] if a % 2 else [[a, b]]
        if bad == "neg":
            tb[a % 2][b % 2] = -1
        if bad == "level<0":
            lev = -0.25
        if bad == "level>1":
            lev = 1.0009765625
        v = call(self.f, tb, kind=kind, alternative=alt)
        o = {"v": v}
        if not isinstance(v, Exc):
            o["ci"] = call(v.odds_ratio_ci, lev)
            o["attr"] = (v.table == tb, v.kind == kind, v.alternative == alt)
            o["or"], o["p"] = v.odds_ratio, v.pvalue
        return o

    def judge(self, c, obs):
        a, b, cc, d = c["t"]
        dps, alt, lev = c["dps"], c["alt"], c["level"]
        what = f"odds_ratio([[{a}, {b}], [{cc}, {d}]], {self.kind!r}, {alt!r}) at dps={dps}"
        bad, v = c["bad"], obs["v"]
        if bad in ("kind", "alt", "shape", "neg"):
            return 1, [] if isinstance(v, Exc) and v.type == "ValueError" else [("domain", f"{what}: invalid {bad} gave {v!r}")]
        if isinstance(v, Exc):
            return 1, [("raised", f"{what}: {v!r}")]
        ci = obs["ci"]
        if bad:
            return 1, [] if isinstance(ci, Exc) and ci.type == "ValueError" else [("domain", f"{what}: confidence {bad} gave {ci!r}")]
        vio = []
        if obs["attr"] != (True, True, True):
            vio.append(("attributes", f"{what}: table, kind, alternative are not stored: {obs['attr']}"))
        orr, p = obs["or"], obs["p"]
        if (a == b == 0) or (cc == d == 0) or (a == cc == 0) or (b == d == 0):
            if not (mp.isnan(orr) and p == 1):
                vio.append(("zero", f"{what}: odds ratio {orr!r}, p {p!r}; should be nan, 1"))
            if isinstance(ci, Exc) or not (ci.low == 0 and ci.high == mp.inf):
                vio.append(("zero", f"{what}: interval {ci!r}, should be (0, inf)"))
            return 3, vio
        lost = 3
        with mp.workdps(dps + 30):
            if self.kind == "conditional":
                return self.conditional(c, obs, vio, what)
            n, m = a * d, b * cc
            want = mpf(n) / m if m else mp.inf
            if not (orr == want or abs(orr - want) <= mpf(10) ** (lost - dps) * want):
                vio.append(("odds", f"{what}: {show(orr)}, should be {show(want)}"))
            if 0 in c["t"]:
                return 1, vio
            L, se = mp.log(want), mp.sqrt(mpf(1) / a + mpf(1) / b + mpf(1) / cc + mpf(1) / d)
            z = L / se
            dz = mpf(10) ** (2 - dps) * (abs(z) + mpf(10) ** -2)

            def ncdf(t):
                return mp.erfc(-t / mp.sqrt(2)) / 2
            g = {"two-sided": lambda t: 2 * ncdf(-abs(t)), "less": ncdf, "greater": lambda t: ncdf(-t)}[alt]
            ends = sorted([g(z - dz), g(z + dz), g(z)])
            if isinstance(p, (int, float)) or not ends[0] * (1 - mpf(10) ** (lost - dps)) <= p <= ends[2] * (1 + mpf(10) ** (lost - dps)) or p > 1:
                vio.append(("pvalue", f"{what}: p = {show(p)}, should be {show(g(z))}"))
            ctx = f"{what}.odds_ratio_ci({lev!r})"
            if isinstance(ci, Exc):
                return 2, vio + [("interval", f"{ctx}: {ci!r}")]
            lv = mpf(lev)
            with mp.extradps(30):
                q = lv if alt != "two-sided" else (lv + 1) / 2
                h = mp.inf if q == 1 else mp.ninf if q == 0 else mp.sqrt(2) * mp.erfinv(2 * q - 1) * se
            lo = mp.zero if alt == "less" else mp.exp(L - h)
            hi = mp.inf if alt == "greater" else mp.exp(L + h)
            for nm, got, w in (("low", ci.low, lo), ("high", ci.high, hi)):
                tol = mpf(10) ** (lost - dps) * w * (1 + abs(h) + abs(L)) if mp.isfinite(w) and mp.isfinite(h) else 0
                if not (got == w or abs(got - w) <= tol):
                    vio.append(("interval", f"{ctx}: {nm} = {show(got)}, should be {show(w)}"))
            return 4, vio

    def conditional(self, c, obs, vio, what):
        a, b, cc, d = c["t"]
        dps, alt, lev = c["dps"], c["alt"], c["level"]
        r0, r1, c0 = a + b, cc + d, a + cc
        lo_k, hi_k = max(0, c0 - r1), min(r0, c0)
        co = {k: math.comb(r0, k) * math.comb(r1, c0 - k) for k in range(lo_k, hi_k + 1)}
        tot = sum(co.values())
        pick = {"two-sided": lambda k: co[k] <= co[a], "less": lambda k: k <= a, "greater": lambda k: k >= a}[alt]
        p = F(sum(n for k, n in co.items() if pick(k)), tot)
        if obs["p"] != p:
            vio.append(("pvalue", f"{what}: p = {obs['p']}, should be {p}"))
        orr, ci = obs["or"], obs["ci"]
        facts = 2

        def mean(nc):
            w = [n * nc ** (k - lo_k) for k, n in co.items()]
            return mp.fsum(k * t for k, t in zip(co, w)) / mp.fsum(w)

        def tail(nc, upper):
            w = {k: n * nc ** (k - lo_k) for k, n in co.items()}
            return mp.fsum(t for k, t in w.items() if (k >= a if upper else k <= a)) / mp.fsum(w.values())
        e = mpf(10) ** (4 - dps)
        if a == lo_k or a == hi_k:
            want = mp.zero if a == lo_k else mp.inf
            if orr != want:
                vio.append(("odds", f"{what}: {show(orr)}, should be {want}"))
        elif not (mp.isfinite(orr) and orr > 0 and mean(orr * (1 - e)) < a < mean(orr * (1 + e))):
            vio.append(("odds", f"{what}: {show(orr)} is not where the conditional mean is {a}" +
                        (f" (mean {show(mean(orr))})" if mp.isfinite(orr) and orr > 0 else "")))
        ctx = f"{what}.odds_ratio_ci({lev!r})"
        if isinstance(ci, Exc):
            return facts, vio + [("interval", f"{ctx}: {ci!r}")]
        al = (1 - mpf(lev)) / (2 if alt == "two-sided" else 1)
        ea = mpf(10) ** (3 - dps)          # 1 - level is rounded
        facts += 2
        for nm, got, up in (("low", ci.low, True), ("high", ci.high, False)):
            lim = mp.zero if up else mp.inf
            if (alt == "less" if up else alt == "greater") or (a == lo_k if up else a == hi_k) or al == 0:
                if got != lim:
                    vio.append(("interval", f"{ctx}: {nm} = {show(got)}, should be {lim}"))
                continue
            if al == 1:
                want = mp.inf if up else mp.zero
                if got != want:
                    vio.append(("interval", f"{ctx}: {nm} = {show(got)}, should be {want}"))
                continue
            if not (mp.isfinite(got) and got > 0):
                vio.append(("interval", f"{ctx}: {nm} = {show(got)}"))
                continue
            t0, t1 = sorted([tail(got * (1 - e), up), tail(got * (1 + e), up)])
            if not t0 * (1 - ea) <= al <= t1 * (1 + ea):
                vio.append(("interval", f"{ctx}: {nm} = {show(got)}, where the tail probability is {show(tail(got, up))}, not {show(al)}"))
        return facts, vio


def subjects(tier):
    return [Odds(tier, "conditional"), Odds(tier, "sample")]
