"""C19: multivariate and circular distributions are coherent."""
import fractions
import itertools
import math
from mpmath import mp
import mpmath
from ..cont import lib
from ..core import mpf, show, hp, logu, unif, short
from ..engine import Subject, Exc

RULE = ("one fact = one density, mass, mean, covariance entry, circular moment, entropy or support compared with its definition "
        "(exact rational enumeration of all points for the hypergeometric case, gamma-function and periodic-trapezoid formulas at "
        "adaptive precision otherwise), one permutation of the components, one reduction to the univariate module, or one invalid "
        "argument rejected; distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["mpmath's gamma and digamma functions are correct to their working precision",
               "a density computed as exp(logpdf) inherits the rounding of logpdf",
               "multivariate_t documents that the scale matrix is not checked; only positive definite matrices are given"]
F = fractions.Fraction
DPS = [15, 15, 15, 20, 30, 50]


def qm(q):
    return mpf(q.numerator) / q.denominator


class MV(Subject):
    quick = 400
    thorough = 8000
    tshards = 2

    def __init__(self, tier):
        self.m = lib(self.name)
        self.have = True
        self.only = ("distributions/", "fun/")
        self.gbudget = 200 if tier == "quick" else 3000

    def facts(self):
        self.n, self.vio = 0, []

    def near(self, tag, what, got, want, tol):
        """want and tol are evaluated by the caller at a higher precision"""
        self.n += 1
        if isinstance(got, Exc):
            self.vio.append((tag, f"{what}: {got!r}"))
        elif not isinstance(got, mpmath.mpf):
            self.vio.append((tag, f"{what} returned {got!r}"))
        elif mp.isinf(want) or mp.isinf(got) or mp.isnan(got):
            if got != want:
                self.vio.append((tag, f"{what} = {show(got)}, should be {show(want)}"))
        elif not abs(got - want) <= tol:
            self.vio.append((tag, f"{what} = {show(got)}, should be {show(want)}"))

    def same(self, tag, what, got, want, ok):
        self.n += 1
        if not ok:
            self.vio.append((tag, f"{what}: {got!r}, should be {want}"))


class Dirichlet(MV):
    name = "dirichlet"

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        al = [short(rng, rng.choice([logu(rng, 0.05, 1000), unif(rng, 0.2, 5), 1.0, 2.0]), 12) for _ in range(n)]
        if rng.random() < 0.3:
            al = [float(max(1, round(a))) for a in al]
        w = [rng.choice([rng.randrange(1, 40), rng.randrange(1, 40), 0, 10 ** rng.randrange(0, 7)]) for _ in range(n)]
        if sum(w) == 0:
            w[0] = 1
        return {"al": al, "w": w, "dps": rng.choice(DPS), "bad": rng.choice([""] * 12 + ["len", "sum", "neg", "alpha0", "alphaneg"]),
                "rot": rng.randrange(1, 6)}

    def valid(self, c):
        al, w = c["al"], c["w"]
        if not (isinstance(al, list) and isinstance(w, list) and 1 <= len(al) <= 8 and len(al) == len(w) and 10 <= c["dps"] <= 80):
            return False
        if not all(isinstance(a, float) and 0.02 <= a <= 5000 for a in al) or not all(isinstance(t, int) and 0 <= t <= 10 ** 8 for t in w):
            return False
        signs = {(-1 if a > 1 else 1) for a, t in zip(al, w) if t == 0 and a != 1}
        return sum(w) > 0 and len(signs) <= 1 and isinstance(c["rot"], int)

    def xs(self, c):
        with mp.workdps(c["dps"]):
            return [mpf(t) / sum(c["w"]) for t in c["w"]]

    def observe(self, c, call):
        m, al, x = self.m, list(c["al"]), self.xs(c)
        bad = c["bad"]
        if bad:
            if bad == "len":
                al = al + [1.5]
            elif bad == "sum":
                with mp.workdps(c["dps"]):
                    x = [t * (1 + mpf(10) ** (3 - c["dps"])) for t in x]
            elif bad == "neg":
                x = x + [mpf(1) / 4, mpf(-1) / 4]
                al = al + [1.5, 2.5]
            elif bad == "alpha0":
                al[c["rot"] % len(al)] = 0.0
            else:
                al[c["rot"] % len(al)] = -1.5
            o = {f: call(getattr(m, f), x, al) for f in ("logpdf", "pdf")}
            if bad.startswith("alpha"):
                o.update({f: call(getattr(m, f), al) for f in ("mean", "cov", "entropy")})
            return o
        o = {f: call(getattr(m, f), x, al) for f in ("logpdf", "pdf")}
        o.update({f: call(getattr(m, f), al) for f in ("mean", "cov", "entropy")})
        r = c["rot"] % len(al)
        o["rlogpdf"] = call(m.logpdf, x[r:] + x[:r], al[r:] + al[:r])
        if len(al) == 2:
            b = lib("beta")
            o["beta"] = call(b.logpdf, x[0], *al) if x[0] not in (0, 1) else None
            o["bent"] = call(b.entropy, *al)
        return o

    def judge(self, c, obs):
        dps = c["dps"]
        al, x = c["al"], self.xs(c)
        n = len(al)
        what = lambda f: f"dirichlet.{f}(x={[show(t) for t in x]}, alpha={al}, {c['bad']}) at dps={dps}"
        self.facts()
        if c["bad"]:
            for f, v in obs.items():
                self.same("domain", what(f), v, "ValueError", isinstance(v, Exc) and v.type == "ValueError")
            return self.n, self.vio
        a0 = sum(F(a) for a in al)
        with mp.workdps(dps + 30):
            lg = [mp.loggamma(mpf(a)) for a in al]
            g0 = mp.loggamma(qm(a0))
            terms = [(mpf(a) - 1) * mp.log(t) if t else (mp.zero if a == 1 else mp.ninf if a > 1 else mp.inf)
                     for a, t in zip(al, x)]
            size = mp.fsum([abs(t) for t in lg] + [abs(g0)] + [abs(t) for t in terms if mp.isfinite(t)]) + 1
            lp = g0 - mp.fsum(lg) + mp.fsum(terms)
            e = mpf(10) ** -dps
            tol = e * (100 * abs(lp) + size / 100) if mp.isfinite(lp) else 0
            self.near("logpdf", what("logpdf"), obs["logpdf"], lp, tol)
            self.near("logpdf", what("logpdf of rotated arguments"), obs["rlogpdf"], lp, tol)
            p = mp.exp(lp)
            self.near("pdf", what("pdf"), obs["pdf"], p, p * (e * 1000 + tol) if mp.isfinite(lp) else 0)
            mean, cov, ent = obs["mean"], obs["cov"], obs["entropy"]
            if isinstance(mean, Exc) or len(mean) != n:
                self.same("mean", what("mean"), mean, f"{n} numbers", False)
            else:
                for i in range(n):
                    w = F(al[i]) / a0
                    self.near("mean", what(f"mean[{i}]"), mean[i], qm(w), qm(w) * e * 100)
            if isinstance(cov, Exc) or (cov.rows, cov.cols) != (n, n):
                self.same("cov", what("cov"), cov, "a matrix", False)
            else:
                for i in range(n):
                    for j in range(n):
                        r, s = F(al[i]) / a0, F(al[j]) / a0
                        w = (r * (1 - r) if i == j else -r * s) / (a0 + 1)
                        self.near("cov", what(f"cov[{i}, {j}]"), cov[i, j], qm(w), abs(qm(w)) * e * 100 + qm(r) * e / 1000)
            w = mp.fsum(lg) - g0 + (qm(a0) - n) * mp.digamma(qm(a0)) - mp.fsum((mpf(a) - 1) * mp.digamma(mpf(a)) for a in al)
            size += (qm(a0) + n) * (1 + abs(mp.digamma(qm(a0)))) + mp.fsum((mpf(a) + 1) * (abs(mp.digamma(mpf(a))) + 1) for a in al)
            etol = e * (100 * abs(w) + size / 100)
            self.near("entropy", what("entropy"), ent, w, etol)
            if n == 2:
                if obs["beta"] is not None:
                    # 1 - x is rounded in x[1]
                    self.near("beta", what("logpdf vs beta.logpdf"), obs["beta"], lp, tol * 2 + 100 * e * (1 + abs(al[1]) / (x[1] or 1)))
                self.near("beta", what("entropy vs beta.entropy"), obs["bent"], w, 2 * etol + 10 * e)
        return self.n, self.vio


class MultiT(MV):
    name = "multivariate_t"
    quick = 400

    def gen(self, rng):
        n = rng.choice([1, 1, 2, 2, 3, 4])
        L = [short(rng, unif(rng, -2, 2), 8) for _ in range(n * n)]
        for i in range(n):
            L[i * n + i] = short(rng, rng.choice([unif(rng, 0.3, 3), 1.0, logu(rng, 0.05, 20)]), 8)
        if rng.random() < 0.3:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        L[i * n + j] = 0.0
        loc = [short(rng, rng.choice([0.0, unif(rng, -5, 5)]), 10) for _ in range(n)]
        x = [short(rng, l + unif(rng, -4, 4) * rng.choice([1, 1, 0.1, 10]), 12) for l in loc]
        if rng.random() < 0.08:
            x = list(loc)
        return {"L": L, "loc": loc, "x": x, "nu": short(rng, rng.choice([logu(rng, 0.3, 3000), unif(rng, 0.5, 10), 1.0, 3.0])),
                "inv": rng.random() < 0.3, "dps": rng.choice(DPS), "perm": rng.randrange(0, 4)}

    def valid(self, c):
        n = len(c["loc"]) if isinstance(c["loc"], list) else 0
        if not (1 <= n <= 4 and isinstance(c["L"], list) and len(c["L"]) == n * n and isinstance(c["x"], list) and len(c["x"]) == n
                and all(isinstance(t, (int, float)) and abs(t) <= 1000 for t in c["L"] + c["loc"] + c["x"])
                and isinstance(c["nu"], (int, float)) and 0.2 <= c["nu"] <= 5000 and 10 <= c["dps"] <= 80 and isinstance(c["perm"], int)):
            return False
        return all(0.04 <= c["L"][i * n + i] for i in range(n))

    def scale(self, c, perm=None):
        """L L^T, exact in fractions; entries are short binary numbers, so they are exact at every precision used"""
        n = len(c["loc"])
        L = [[F(c["L"][i * n + j]) if j <= i else F(0) for j in range(n)] for i in range(n)]
        A = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
        p = perm or list(range(n))
        return [[A[p[i]][p[j]] for j in range(n)] for i in range(n)], L

    def mat(self, A):
        n = len(A)
        m = mp.matrix(n, n)
        for i in range(n):
            for j in range(n):
                m[i, j] = qm(A[i][j])
        return m

    def solve(self, L, b):
        y = []
        for i in range(len(b)):
            y.append((b[i] - sum(L[i][k] * y[k] for k in range(i))) / L[i][i])
        return y

    def observe(self, c, call):
        m = self.m
        A, L = self.scale(c)
        with mp.workdps(80):
            M = self.mat(A)
            inv = mp.inverse(M) if c["inv"] else None
        n = len(A)
        p = list(itertools.permutations(range(n)))[(c["perm"] * 7 + 1) % math.factorial(n)]
        with mp.workdps(80):
            P = self.mat(self.scale(c, p)[0])
        args = (c["x"], c["nu"], c["loc"])
        o = {}
        for f in ("logpdf", "pdf"):
            o[f] = call(getattr(m, f), *args, M, inv) if c["inv"] else call(getattr(m, f), *args, M)
        o["perm"] = call(m.logpdf, [c["x"][i] for i in p], c["nu"], [c["loc"][i] for i in p], P)
        o["entropy"] = call(m.entropy, c["nu"], c["loc"], M)
        if n == 1 and L[0][0] == 1 and c["loc"][0] == 0:
            t = lib("studentt")
            o["t"] = call(t.logpdf, c["x"][0], c["nu"])
            o["tent"] = call(t.entropy, c["nu"])
        return o

    def judge(self, c, obs):
        dps = c["dps"]
        A, L = self.scale(c)
        n = len(A)
        self.facts()
        what = lambda f: f"multivariate_t.{f}(x={c['x']}, nu={c['nu']}, loc={c['loc']}, scale={[[float(t) for t in r] for r in A]}, scale_inv given={c['inv']}) at dps={dps}"
        y = self.solve(L, [F(a) - F(b) for a, b in zip(c["x"], c["loc"])])
        q = sum(t * t for t in y)
        with mp.workdps(dps + 30):
            # |L^-1|^2 |L|^2 bounds the condition number
            inv = [self.solve(L, [F(int(i == j)) for i in range(n)]) for j in range(n)]
            cond = qm(sum(t * t for r in inv for t in r)) * qm(sum(t * t for r in L for t in r))
            e = mpf(10) ** -dps
            nu = mpf(c["nu"])
            h = (nu + n) / 2
            ld = mp.fsum(mp.log(qm(L[i][i])) for i in range(n))
            g = [mp.loggamma(h), mp.loggamma(nu / 2), mpf(n) / 2 * mp.log(nu), mpf(n) / 2 * mp.log(mp.pi), ld, h * mp.log1p(qm(q) / nu)]
            lp = g[0] - g[1] - g[2] - g[3] - g[4] - g[5]
            size = mp.fsum(abs(t) for t in g) + 1
            tol = e * (100 * abs(lp) + size / 100 + h * min(1, qm(q) / nu) * cond / 1000 + cond / 1000)
            if cond > mpf(10) ** 9:
                return 0, []
            self.near("logpdf", what("logpdf"), obs["logpdf"], lp, tol)
            self.near("logpdf", what("logpdf with permuted components"), obs["perm"], lp, tol)
            p = mp.exp(lp)
            self.near("pdf", what("pdf"), obs["pdf"], p, p * (e * 1000 + tol))
            w = -g[0] + g[1] + g[2] + g[3] + h * (mp.digamma(h) - mp.digamma(nu / 2)) + ld
            etol = e * (100 * abs(w) + size / 100 + h * (2 + abs(mp.digamma(h))) / 100 + cond / 1000)
            self.near("entropy", what("entropy"), obs["entropy"], w, etol)
            if "t" in obs:
                self.near("t", what("logpdf vs studentt.logpdf"), obs["t"], lp, 2 * tol)
                self.near("t", what("entropy vs studentt.entropy"), obs["tent"], w, 2 * etol + 100 * e * h / 100)
        return self.n, self.vio


class MHG(MV):
    name = "multivariate_hypergeometric"
    quick = 500

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        top = {1: 30, 2: 30, 3: 9, 4: 5, 5: 3}[n]
        co = [rng.randrange(0, top + 1) for _ in range(n)]
        s = sum(co)
        ns = rng.choice([rng.randrange(0, s + 1), rng.randrange(0, s + 1), min(s, 1), 0, s])
        return {"co": co, "ns": ns, "dps": rng.choice(DPS), "form": rng.choice(["list", "tuple"]), "k": [rng.randrange(-1, top + 2) for _ in range(n)],
                "bad": rng.choice([""] * 12 + ["neg", "big"])}

    def valid(self, c):
        return (isinstance(c["co"], list) and 1 <= len(c["co"]) <= 5 and all(isinstance(t, int) and 0 <= t <= 40 for t in c["co"])
                and math.prod(t + 1 for t in c["co"]) <= 2500
                and isinstance(c["ns"], int) and 0 <= c["ns"] <= sum(c["co"]) and isinstance(c["k"], list) and len(c["k"]) == len(c["co"])
                and all(isinstance(t, int) for t in c["k"]) and 10 <= c["dps"] <= 80)

    def observe(self, c, call):
        m = self.m
        co, ns = list(c["co"]), c["ns"]
        if c["bad"]:
            if c["bad"] == "neg":
                co[len(co) // 2] = -1
                ns = 0
            else:
                ns = sum(co) + 1
            o = {f: call(getattr(m, f), co, ns) for f in ("mean", "cov", "entropy", "support")}
            o.update({f: call(getattr(m, f), c["k"], co, ns) for f in ("pmf", "logpmf")})
            return o
        co = co if c["form"] == "list" else tuple(co)
        o = {f: call(getattr(m, f), co, ns) for f in ("mean", "cov", "entropy")}
        o["support"] = call(lambda a, b: [list(t) for t in m.support(a, b)], co, ns)
        sup = o["support"]
        pts = []
        if not isinstance(sup, Exc):
            pts = sup if len(sup) <= 12 else sup[:3] + sup[::len(sup) // 6][:6] + sup[-2:]
        pts = list(pts) + [list(c["k"])]
        o["p"] = [(t, call(m.pmf, t, co, ns), call(m.logpmf, tuple(t), co, ns)) for t in pts]
        if len(co) == 2:
            h = lib("hypergeometric")
            o["h"] = [call(h.logpmf, t[0], sum(co), co[0], ns) for t in pts[:-1]]
        r = [list(pts[0][::-1]), list(co[::-1]), ns]
        o["rev"] = call(m.logpmf, *r)
        return o

    def judge(self, c, obs):
        co, ns, dps = c["co"], c["ns"], c["dps"]
        self.facts()
        what = lambda f: f"multivariate_hypergeometric.{f}(colors={co}, nsample={ns}, {c['bad']}) at dps={dps}"
        if c["bad"]:
            for f, v in obs.items():
                self.same("domain", what(f), v, "ValueError", isinstance(v, Exc) and v.type == "ValueError")
            return self.n, self.vio
        n = len(co)
        pts = [list(t) for t in itertools.product(*[range(k + 1) for k in co]) if sum(t) == ns]
        tot = math.comb(sum(co), ns)
        w = lambda t: math.prod(math.comb(a, b) for a, b in zip(co, t)) if all(0 <= b <= a for a, b in zip(co, t)) and sum(t) == ns else 0
        sup = obs["support"]
        self.same("support", what("support"), sup, pts, not isinstance(sup, Exc) and sup == pts)
        with mp.workdps(dps + 30):
            e = mpf(10) ** -dps
            # logbinomial is computed from loggamma values of this size
            size = mp.fsum(mp.loggamma(k + 2) for k in co) + mp.loggamma(sum(co) + 2) + 1
            for idx, (t, p, lp) in enumerate(obs["p"]):
                v = mpf(w(t)) / tot
                lv = mp.log(v) if v else mp.ninf
                tol = e * (100 * abs(lv) + size / 100) if v else 0
                self.near("logpmf", what(f"logpmf at {t}"), lp, lv, tol)
                self.near("pmf", what(f"pmf at {t}"), p, v, v * (1000 * e + tol) if v else 0)
                if "h" in obs and idx < len(obs["h"]):
                    self.near("hypergeometric", what(f"hypergeometric.logpmf at {t}"), obs["h"][idx], lv, 2 * tol + 100 * e)
                if idx == 0:
                    self.near("logpmf", what(f"reversed logpmf at {t}"), obs["rev"], lv, tol)
            W = [(t, F(w(t), tot)) for t in pts]
            mu = [sum(p * t[i] for t, p in W) for i in range(n)]
            mean, cov, ent = obs["mean"], obs["cov"], obs["entropy"]
            if isinstance(mean, Exc) or len(mean) != n:
                self.same("mean", what("mean"), mean, f"{n} numbers", False)
            else:
                for i in range(n):
                    self.near("mean", what(f"mean[{i}]"), mean[i], qm(mu[i]), qm(mu[i]) * 100 * e)
            if isinstance(cov, Exc) or len(cov) != n or any(len(r) != n for r in cov):
                self.same("cov", what("cov"), cov, "a matrix", False)
            else:
                for i in range(n):
                    for j in range(i, n):
                        x = qm(sum(p * t[i] * t[j] for t, p in W) - mu[i] * mu[j])
                        self.near("cov", what(f"cov[{i}][{j}]"), cov[i][j], x, abs(x) * 100 * e)
                        self.near("cov", what(f"cov[{j}][{i}]"), cov[j][i], x, abs(x) * 100 * e)
            x = -mp.fsum(qm(p) * mp.log(qm(p)) for t, p in W)
            self.near("entropy", what("entropy"), ent, x, e * (100 * x + size / 10))
        return self.n, self.vio


class VonMises(MV):
    name = "vonmises"
    quick = 600

    def gen(self, rng):
        k = rng.choice([unif(rng, 0, 10), logu(rng, 1e-4, 3000), logu(rng, 0.1, 100), 0.0, 1.0])
        mu = rng.choice([0.0, 0.0, unif(rng, -3, 3), unif(rng, -40, 40), None])
        x = (mu or 0.0) + rng.choice([unif(rng, -math.pi, math.pi), unif(rng, -1, 1) / math.sqrt(1 + k), unif(rng, -30, 30), 0.0])
        return {"k": short(rng, k), "mu": None if mu is None else short(rng, mu), "x": short(rng, x), "dps": rng.choice(DPS)}

    def valid(self, c):
        ok = lambda v: isinstance(v, (int, float))
        return (ok(c["k"]) and (c["k"] == 0 or 1e-5 <= c["k"] <= 5000) and (c["mu"] is None or ok(c["mu"]) and abs(c["mu"]) <= 100)
                and ok(c["x"]) and abs(c["x"]) <= 300 and 10 <= c["dps"] <= 80)

    def observe(self, c, call):
        m = self.m
        a = (c["k"],) if c["mu"] is None else (c["k"], c["mu"])
        o = {f: call(getattr(m, f), c["x"], *a) for f in ("pdf", "logpdf")}
        o.update({f: call(getattr(m, f), *a) for f in ("circmean", "circvar", "entropy", "support")})
        with mp.workdps(c["dps"] + 10):
            y = c["x"] + 2 * mp.pi
        o["per"] = call(m.logpdf, y, *a)
        return o

    def circ(self, k):
        """exp(-k) I0(k) and 1 - I1/I0 by the periodic trapezoidal rule"""
        N = int(8 + 1.3 * mp.dps + 2.5 * math.sqrt((float(k) + 1) * (mp.dps + 5)))
        s = c = mp.zero
        for j in range(N):
            u = 2 * mp.sin(mp.pi * j / N) ** 2        # 1 - cos(t)
            w = mp.exp(-k * u)
            s += w
            c += w * u
        return s / N, c / s

    def judge(self, c, obs):
        dps = c["dps"]
        self.facts()
        what = lambda f: f"vonmises.{f}(x={c['x']}, kappa={c['k']}, mu={c['mu']}) at dps={dps}"
        with mp.workdps(dps + 25):
            e = mpf(10) ** -dps
            k, mu, x = mpf(c["k"]), mpf(c["mu"] or 0), mpf(c["x"])
            i0, cv = self.circ(k)
            ln = mp.log(2 * mp.pi * i0)                         # log of the normalisation, times exp(-k)
            d = x - mu
            lp = -2 * k * mp.sin(d / 2) ** 2 - ln
            # kappa*cos(x - mu) is rounded, x - mu as well
            tol = e * (100 * abs(lp) + k * (1 + abs(x) + abs(mu)) / 100 + mpf(1) / 100)
            self.near("logpdf", what("logpdf"), obs["logpdf"], lp, tol)
            self.near("period", what("logpdf at x + 2 pi"), obs["per"], lp, tol)
            p = mp.exp(lp)
            self.near("pdf", what("pdf"), obs["pdf"], p, p * (1000 * e + tol))
            self.near("circvar", what("circvar"), obs["circvar"], cv, e * (100 * cv + mpf(1) / 100))
            w = k * cv + ln
            self.near("entropy", what("entropy"), obs["entropy"], w, e * (100 * abs(w) + k / 100 + mpf(1) / 100))
            cm, sup = obs["circmean"], obs["support"]
            self.near("circmean", what("circmean"), cm, mu, 0)
            if isinstance(sup, Exc) or len(sup) != 2:
                self.same("support", what("support"), sup, "two numbers", False)
            else:
                for s, sg in zip(sup, (-1, 1)):
                    self.near("support", what("support"), s, sg * mp.pi + mu, e * 100 * (4 + abs(mu)))
        return self.n, self.vio


def subjects(tier):
    return [Dirichlet(tier), MultiT(tier), MHG(tier), VonMises(tier)]
