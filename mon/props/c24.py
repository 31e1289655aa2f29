"""C24: hypothesis tests return the statistic and p-value of their definition."""
import fractions
import math
from mpmath import mp
import mpmath
from ..core import mpf, show, hp, logu, unif, short, relerr
from ..engine import Subject, Exc
from ..fbase import fun, DPS

RULE = ("one fact = one statistic, p-value or interval end compared with its definition (exact rational enumeration of all tables for "
        "Fisher's test, exact rational sums and incomplete gamma / beta functions at adaptive precision for the others), one "
        "reordering of the data that must not change the result, or one invalid argument rejected; distinct = distinct sets of "
        "(comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's incomplete gamma and beta functions are correct to their working precision",
               "p-values may move as much as rounding the statistic at the working precision moves them"]
F = fractions.Fraction
ALT = ["two-sided", "less", "greater"]


def exc(v, t="ValueError"):
    return isinstance(v, Exc) and v.type == t


def qm(q):
    return mpf(q.numerator) / q.denominator


def badp(v):
    return isinstance(v, Exc) or not isinstance(v, (mpmath.mpf, F)) or not 0 <= v <= 1


class T(Subject):
    quick = 150
    thorough = 12000

    def __init__(self, tier):
        self.f = fun(self.path)
        self.have = True
        self.gbudget = 150 if tier == "quick" else 3000


def table(rng, top=None):
    top = top or rng.choice([3, 8, 15, 40])
    return [rng.randrange(0, top + 1) for _ in range(4)]


class Fisher(T):
    name, path = "fisher_exact", "stats.fisher_exact"
    quick = 1500
    thorough = 20000

    def gen(self, rng):
        t = table(rng)
        if rng.random() < 0.15:
            t[rng.randrange(4)] = 0
        return {"t": t, "alt": rng.choice(ALT * 5 + ["two sided"]), "dps": 15, "form": rng.choice(["list", "tuple"])}

    def valid(self, c):
        return isinstance(c["t"], list) and len(c["t"]) == 4 and all(isinstance(t, int) and 0 <= t <= 80 for t in c["t"]) and c["dps"] == 15

    def observe(self, c, call):
        a, b, c_, d = c["t"]
        tb = [[a, b], [c_, d]] if c["form"] == "list" else ((a, b), (c_, d))
        o = {"v": call(self.f, tb, alternative=c["alt"]) if c["alt"] != "two-sided" or a % 2 else call(self.f, tb)}
        if c["alt"] in ALT:
            swap = {"two-sided": "two-sided", "less": "greater", "greater": "less"}[c["alt"]]
            o["tr"] = call(self.f, [[a, c_], [b, d]], alternative=c["alt"])
            o["rows"] = call(self.f, [[c_, d], [a, b]], alternative=swap)
            o["cols"] = call(self.f, [[b, a], [d, c_]], alternative=swap)
        return o

    def judge(self, c, obs):
        a, b, c_, d = c["t"]
        what = f"fisher_exact([[{a}, {b}], [{c_}, {d}]], {c['alt']!r})"
        v = obs["v"]
        if c["alt"] not in ALT:
            return 1, [] if exc(v) else [("domain", f"{what}: invalid alternative gave {v!r}")]
        r0, r1, c0 = a + b, c_ + d, a + c_
        pm = {k: math.comb(r0, k) * math.comb(r1, c0 - k) for k in range(max(0, c0 - r1), min(r0, c0) + 1)}
        tot = math.comb(r0 + r1, c0)
        pick = {"two-sided": lambda k: pm[k] <= pm[a], "less": lambda k: k <= a, "greater": lambda k: k >= a}[c["alt"]]
        p = F(sum(n for k, n in pm.items() if pick(k)), tot)
        vio = []
        for key, orr in (("v", (a, d, b, c_)), ("tr", (a, d, c_, b)), ("rows", (c_, b, d, a)), ("cols", (b, c_, a, d))):
            g = obs[key]
            if isinstance(g, Exc):
                vio.append(("value", f"{what} [{key}]: {g!r}"))
                continue
            if not isinstance(g[1], F) or g[1] != p:
                vio.append(("pvalue", f"{what} [{key}]: p = {g[1]} = {float(g[1]):.17g}, the definition gives {p} = {float(p):.17g}"))
            n, m = orr[0] * orr[1], orr[2] * orr[3]
            want = F(n, m) if m else math.inf if n else math.nan
            if not (g[0] == want or want != want and g[0] != g[0]):
                vio.append(("odds", f"{what} [{key}]: odds ratio {g[0]}, should be {want}"))
        return 8, vio


class GoF(T):
    quick = 700

    def __init__(self, tier, name):
        self.name, self.path = name, "stats." + name
        super().__init__(tier)

    def gen(self, rng):
        n = rng.choice([2, 2, 3, 4, 5, 8])
        top = rng.choice([3, 20, 20, 300, 10 ** 6])
        obs = [rng.randrange(0, top + 1) for _ in range(n)]
        if sum(obs) == 0:
            obs[0] = 1
        kind = rng.choice(["w", "w", "near", "bad", "tol"])
        w = [rng.randrange(1, 20) for _ in range(n)]
        if kind == "near":
            w = [max(1, o * 1000 + rng.randrange(-20, 21)) for o in obs]
        if rng.random() < 0.05:
            obs = [o + 1 for o in obs]
            w = list(obs)
        return {"obs": obs, "w": w, "kind": kind, "dps": rng.choice(DPS)}

    def valid(self, c):
        return (isinstance(c["obs"], list) and isinstance(c["w"], list) and 2 <= len(c["obs"]) <= 10 and len(c["w"]) == len(c["obs"])
                and all(isinstance(t, int) and 0 <= t <= 10 ** 7 for t in c["obs"]) and sum(c["obs"]) > 0
                and all(isinstance(t, int) and 0 < t <= 10 ** 11 for t in c["w"]) and 10 <= c["dps"] <= 120)

    def expected(self, c):
        with mp.workdps(c["dps"]):
            N, W = sum(c["obs"]), sum(c["w"])
            e = [mpf(N) * w / W for w in c["w"]]
            if c["kind"] in ("bad", "tol"):
                e[0] *= mpf(10001) / 10000
                e = [t + mpf(1) / 1000 for t in e]
            return e

    def observe(self, c, call):
        e = self.expected(c)
        kw = {"sum_rel_tol": 0.5} if c["kind"] == "tol" else {}
        o = {"v": call(self.f, list(c["obs"]), e, **kw)}
        if c["kind"] != "bad":
            o["r"] = call(self.f, tuple(c["obs"][::-1]), e[::-1], **kw)
        return o

    def judge(self, c, obs):
        e = self.expected(c)
        dps = c["dps"]
        what = f"{self.name}({c['obs']}, {[show(t) for t in e]}) at dps={dps}"
        if c["kind"] == "bad":
            with mp.workdps(dps + 30):
                d = abs(mp.fsum(e) / sum(c["obs"]) - 1)
                if d < mpf(10) ** (2 - dps) * 10:
                    return 0, []
            v = obs["v"]
            return 1, [] if exc(v) else [("domain", f"{what}: sums differ, expected ValueError, got {v!r}")]
        n = len(e)

        def ref():
            ts = []
            for o, x in zip(c["obs"], e):
                ts.append((o - x) ** 2 / x if self.name == "chisquare" else 2 * o * mp.log(o / x) if o else mp.zero)
            s = mp.fsum(ts)
            # the given sums differ by rounding, so the formula may come out slightly negative
            s = max(s, mp.zero)
            return s, mp.fsum(abs(t) for t in ts)
        with mp.workdps(dps + 40):
            stat, size = ref()
            df = mpf(n - 1)
            vio = []
            err = mpf(10) ** (2 - dps) * stat + mpf(10) ** (-2 * dps)
            if self.name == "chisquare":        # o - x is rounded
                err += mpf(10) ** (1 - dps) * mp.fsum(2 * abs(o - x) for o, x in zip(c["obs"], e))
            lo, hi = max(stat - err, 0), stat + err
            plo, phi = [mp.re(mp.gammainc(df / 2, t / 2, regularized=True)) for t in (hi, lo)]
            slack = mpf(10) ** (3 - dps)
            for key in ("v", "r"):
                g = obs[key]
                if isinstance(g, Exc):
                    vio.append(("value", f"{what} [{key}]: {g!r}"))
                    continue
                s, p = g
                if isinstance(s, mpmath.mpc) or not abs(s - stat) <= err * 10:
                    vio.append(("stat", f"{what} [{key}]: statistic {show(s)}, the definition gives {show(stat)}"))
                if isinstance(p, mpmath.mpc) or not 0 <= p <= 1 + mpf(10) ** (2 - dps):
                    vio.append(("prange", f"{what} [{key}]: p = {show(p)} is not in [0, 1]"))
                elif not plo * (1 - slack) <= p <= phi * (1 + slack):
                    vio.append(("pvalue", f"{what} [{key}]: p = {show(p)}, the definition gives {show(phi)}"))
        return 4, vio


def data(rng, n):
    s = rng.choice([1, 1, 10, 1000, 1e-3])
    off = rng.choice([0, 0, 0, 5, 100, -30]) * s
    return [short(rng, off + unif(rng, -s, s), rng.choice([6, 12, 20])) for _ in range(n)]


class Pearson(T):
    name, path = "pearsonr", "stats.pearsonr"
    quick = 900

    def gen(self, rng):
        n = rng.choice([3, 3, 4, 5, 6, 8, 12, 30])
        x = data(rng, n)
        r = rng.random()
        if r < 0.5:
            y = data(rng, n)
        elif r < 0.6:
            y = [3 * t + 1 for t in x] if rng.random() < 0.5 else [-t for t in x]
        elif r < 0.65:
            y = [1.5] * n
        elif r < 0.7:
            x, y = [rng.randrange(-5, 6) for _ in range(n)], [rng.randrange(-5, 6) for _ in range(n)]
        else:
            e = rng.choice([0.3, 0.01, 1e-5])
            y = [t + short(rng, unif(rng, -e, e), 10) for t in x]
        c = {"x": x, "y": y, "alt": rng.choice(ALT * 6 + ["Less"]), "dps": rng.choice(DPS)}
        if rng.random() < 0.04:
            c["y"] = c["y"][:-1] + ([1.0, 2.0] if rng.random() < 0.5 else [])
        return c

    def valid(self, c):
        return (isinstance(c["x"], list) and isinstance(c["y"], list) and 3 <= len(c["x"]) <= 40
                and all(isinstance(t, (int, float)) and math.isfinite(t) and (t == 0 or 1e-12 < abs(t) < 1e9) for t in c["x"] + c["y"]) and 10 <= c["dps"] <= 120)

    def observe(self, c, call):
        o = {"v": call(self.f, c["x"], c["y"], alternative=c["alt"])}
        if len(c["x"]) == len(c["y"]):
            o["sw"] = call(self.f, tuple(c["y"]), tuple(c["x"]), alternative=c["alt"])
            o["rev"] = call(self.f, c["x"][::-1], c["y"][::-1], alternative=c["alt"])
        return o

    def judge(self, c, obs):
        x, y, dps, alt = c["x"], c["y"], c["dps"], c["alt"]
        what = f"pearsonr({x}, {y}, {alt!r}) at dps={dps}"
        v = obs["v"]
        if len(x) != len(y) or alt not in ALT:
            return 1, [] if exc(v) else [("domain", f"{what}: expected ValueError, got {v!r}")]
        n = len(x)
        fx, fy = [F(t) for t in x], [F(t) for t in y]
        mx, my = sum(fx) / n, sum(fy) / n
        sxx, syy = sum((t - mx) ** 2 for t in fx), sum((t - my) ** 2 for t in fy)
        sxy = sum((s - mx) * (t - my) for s, t in zip(fx, fy))
        vio = []
        if not sxx or not syy:
            for k in ("v", "sw", "rev"):
                if isinstance(obs[k], Exc) or not (mp.isnan(obs[k][0]) and mp.isnan(obs[k][1])):
                    vio.append(("constant", f"{what} [{k}] = {obs[k]!r}, should be nan, nan for constant data"))
            return 3, vio
        with mp.workdps(dps + 60):
            r = qm(sxy) / mp.sqrt(qm(sxx) * qm(syy))
            # rounding of the means: relative perturbation of the centred values
            cond = 1 + max(max(abs(t) for t in x) / mp.sqrt(qm(sxx) / n), max(abs(t) for t in y) / mp.sqrt(qm(syy) / n)) / 10
            dr = mpf(10) ** (2 - dps) * cond
            a = mpf(n) / 2 - 1

            def P(q):
                q = max(-mp.one, min(mp.one, q))
                if alt == "two-sided":
                    u = (1 - abs(q)) / 2
                elif alt == "less":
                    u = (1 + q) / 2
                else:
                    u = (1 - q) / 2
                return mp.betainc(a, a, 0, u, regularized=True) * (2 if alt == "two-sided" else 1)
            if alt == "two-sided":
                ps = [P(min(abs(r) + dr, 1)), P(max(abs(r) - dr, 0))]
            else:
                ps = sorted([P(r - dr), P(r + dr)])
            for k in ("v", "sw", "rev"):
                g = obs[k]
                if isinstance(g, Exc):
                    vio.append(("value", f"{what} [{k}]: {g!r}"))
                    continue
                gr, gp = g
                if isinstance(gr, mpmath.mpc) or not abs(gr - r) <= dr or abs(gr) > 1:
                    vio.append(("r", f"{what} [{k}]: r = {show(gr)}, should be {show(r)}"))
                if badp(gp) and not (gp > 1 and gp - 1 < mpf(10) ** (2 - dps)):
                    vio.append(("prange", f"{what} [{k}]: p = {gp!r}"))
                elif not ps[0] * (1 - mpf(10) ** (3 - dps)) <= gp <= ps[1] * (1 + mpf(10) ** (3 - dps)):
                    vio.append(("pvalue", f"{what} [{k}]: p = {show(gp)}, should be {show(P(r))}"))
        return 6, vio


class PearsonCI(T):
    name, path = "pearsonr_ci", "stats.pearsonr_ci"
    quick = 700

    def gen(self, rng):
        r = rng.choice([unif(rng, -1, 1), unif(rng, -1, 1), 0.0, 1 - logu(rng, 1e-10, 0.5), -1 + logu(rng, 1e-10, 0.5), 0.5])
        n = rng.choice([4, 5, 6, 10, 25, 100, 1000, rng.randrange(4, 50)])
        al = rng.choice([0.05, 0.01, 0.1, 0.5, unif(rng, 0, 1), logu(rng, 1e-15, 0.5), 1 - logu(rng, 1e-6, 0.4)])
        return {"r": short(rng, r), "n": n, "alpha": al, "alt": rng.choice(ALT * 6 + ["both"]), "dps": rng.choice(DPS)}

    def valid(self, c):
        return isinstance(c["n"], int) and 4 <= c["n"] <= 10 ** 6 and -1 < c["r"] < 1 and 1e-18 < c["alpha"] < 1 and 10 <= c["dps"] <= 120

    def observe(self, c, call):
        return {"v": call(self.f, c["r"], c["n"], c["alpha"], c["alt"]) if c["n"] % 2 else
                call(self.f, c["r"], n=c["n"], alpha=c["alpha"], alternative=c["alt"])}

    def judge(self, c, obs):
        v, dps, alt = obs["v"], c["dps"], c["alt"]
        what = f"pearsonr_ci({c['r']!r}, {c['n']}, {c['alpha']!r}, {alt!r}) at dps={dps}"
        if alt not in ALT:
            return 1, [] if exc(v) else [("domain", f"{what}: expected ValueError, got {v!r}")]
        if isinstance(v, Exc):
            return 1, [("value", f"{what}: {v!r}")]
        r, n, al = mpf(c["r"]), c["n"], mpf(c["alpha"])

        def ref():
            with mp.extradps(25):
                q = al / 2 if alt == "two-sided" else al
                h = mp.sqrt(2) * mp.erfinv(1 - 2 * q) / mp.sqrt(mpf(n) - 3)
                z = mp.atanh(r)
                return (-mp.one if alt == "less" else mp.tanh(z - h)), (mp.one if alt == "greater" else mp.tanh(z + h))
        want = hp(ref, dps + 5, absfloor=mpf(10) ** (-dps - 8))
        vio = []
        with mp.workdps(dps + 20):
            for i in (0, 1):
                tol = mpf(10) ** (3 - dps) * (abs(want[i]) + mpf(10) ** -2)
                if not abs(v[i] - want[i]) <= tol:
                    vio.append(("interval", f"{what}: end {i} = {show(v[i])}, should be {show(want[i])}"))
            # the distance to +-1 is what Fisher's transformation preserves; keep its relative accuracy as far as the value can carry it
        return 2, vio


class Anova(T):
    name, path = "anova_oneway", "stats.anova_oneway"
    quick = 500

    def gen(self, rng):
        k = rng.choice([2, 2, 3, 4, 5])
        g = [data(rng, rng.choice([1, 2, 3, 4, 7])) for _ in range(k)]
        s = rng.choice([0, 1, 10, 1000])
        base = rng.choice([0, 0, 100])
        g = [[short(rng, base + t / 50 + s * i, 20) for t in q] for i, q in enumerate(g)]
        if rng.random() < 0.15:
            g = [[rng.randrange(0, 9) for _ in q] for q in g]
        if sum(map(len, g)) <= k:
            g[0] = g[0] + [g[0][0] + 1.5]
        return {"g": g, "dps": rng.choice([15, 15, 15, 20, 30])}

    def valid(self, c):
        g = c["g"]
        if not (isinstance(g, list) and 2 <= len(g) <= 6 and all(isinstance(q, list) and q for q in g) and sum(map(len, g)) > len(g)):
            return False
        if not all(isinstance(t, (int, float)) and math.isfinite(t) and (t == 0 or 1e-9 < abs(t) < 1e7) for q in g for t in q):
            return False
        return any(t != q[0] for q in g for t in q) and 10 <= c["dps"] <= 60

    def observe(self, c, call):
        g = c["g"]
        return {"v": call(self.f, *g), "r": call(self.f, *[tuple(q[::-1]) for q in g[1:] + g[:1]])}

    def judge(self, c, obs):
        g, dps = c["g"], c["dps"]
        what = f"anova_oneway(*{g}) at dps={dps}"
        fr = [[F(t) for t in q] for q in g]
        k, n = len(g), sum(map(len, g))
        gm = sum(map(sum, fr)) / n
        ms = [sum(q) / len(q) for q in fr]
        vb = sum(len(q) * (m - gm) ** 2 for q, m in zip(fr, ms))
        vw = sum((t - m) ** 2 for q, m in zip(fr, ms) for t in q)
        vio = []
        with mp.workdps(dps + 40):
            Fs = qm(vb) / (k - 1) / (qm(vw) / (n - k))
            big = max(abs(t) for q in g for t in q)
            # rounding of the means (5 guard digits) relative to the spread
            rel = mpf(10) ** (3 - dps) + mpf(10) ** (-dps - 3) * big / mp.sqrt(qm(vw) / n)
            err = rel * Fs + mpf(10) ** (-dps - 3) * big * mp.sqrt(qm(vb) + qm(vw)) / qm(vw) * n
            a, b = mpf(n - k) / 2, mpf(k - 1) / 2

            def P(s):
                s = max(s, 0)
                d1, d2 = k - 1, n - k
                return mp.betainc(a, b, 0, d2 / (d2 + d1 * s), regularized=True)
            lo, hi = P(Fs + err), P(Fs - err)
            for key in ("v", "r"):
                v = obs[key]
                if isinstance(v, Exc):
                    vio.append(("value", f"{what} [{key}]: {v!r}"))
                    continue
                if not abs(v.f - Fs) <= err:
                    vio.append(("F", f"{what} [{key}]: F = {show(v.f)}, should be {show(Fs)}"))
                if not (0 <= v.p <= 1):
                    vio.append(("prange", f"{what} [{key}]: p = {v.p!r}"))
                elif not lo * (1 - mpf(10) ** (3 - dps)) <= v.p <= hi * (1 + mpf(10) ** (3 - dps)):
                    vio.append(("pvalue", f"{what} [{key}]: p = {show(v.p)}, should be {show(P(Fs))}"))
        return 4, vio


def subjects(tier):
    return [Fisher(tier), GoF(tier, "chisquare"), GoF(tier, "gtest"), Pearson(tier), PearsonCI(tier), Anova(tier)]
