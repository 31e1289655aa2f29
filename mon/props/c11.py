"""C11: nll is minus the sum of log densities; derivatives and counts agree with it."""
import math
from mpmath import mp
from .. import cdist, ddist
from ..cont import ContSubject, bad_number, tol_of, lib, cap_ok, DPS, sens
from ..core import mpf, show, hp
from ..engine import Subject, Exc

RULE = ("one fact = one nll / nll_grad / nll_hess / nll_invhess value compared with the sum of reference log densities (or its "
        "numerical derivatives), or one counts= call compared with the repeated data; distinct = distinct sets of "
        "(comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = ["reference densities in mon/cdist.py and mon/ddist.py state the documented distributions",
               "data strictly inside the support (a density of zero or infinity has no finite likelihood)"]


def data_len(rng):
    return rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])


class S(ContSubject):
    fns = ("nll", "nll_grad", "nll_hess", "nll_invhess")
    quick = 260
    thorough = 3000
    tshards = 2

    def __init__(self, name, tier):
        super().__init__(name)
        self.gbudget = 250 if tier == "quick" else 3000
        self.gtime = 10 if tier == "quick" else 120

    def interior(self, x, p):
        d = self.d
        if not (isinstance(x, (int, float)) and math.isfinite(x)):
            return False
        with mp.workdps(40):
            a, b = d.support(*p)
            if not a < x < b:
                return False
        return cap_ok(d, p, x)

    def fill(self, rng, case, p):
        n = data_len(rng)
        xs = []
        for _ in range(40 * n):
            x, lab = cdist.gen_x(rng, self.d, p)
            if self.interior(x, p):
                xs.append(x)
            if len(xs) == n:
                break
        if not xs:
            loc, scale, shape = self.d.std(*p)
            c, w = self.d.typ(shape)
            xs = [float(loc + scale * c)]
        if rng.random() < 0.3:
            xs = xs + [rng.choice(xs)]
        case["x"] = xs
        case["_s"] = f"n={len(xs)}" if len(xs) < 4 else "n>=4"
        return case

    def valid(self, case):
        c = dict(case)
        xs = c.pop("x")
        return len(xs) > 0 and super().valid(c) and all(self.interior(x, self.params(case)) for x in xs)

    def observe(self, case, call):
        p = self.params(case)
        return {f: call(getattr(self.m, f), list(case["x"]), *p) for f in self.have}

    def judge(self, case, obs):
        d, p, xs, dps = self.d, self.params(case), case["x"], case["dps"]
        out, facts = [], 0

        def lp(x, *q):
            loc, scale, shape = d.std(*q)
            return d.logpdf_z((mpf(x) - loc) / scale, *shape) - mp.log(scale)
        uniq = {}
        for x in xs:
            uniq[x] = uniq.get(x, 0) + 1
        tot = sz = mp.zero
        vals = {x: hp(lambda: lp(x, *p), dps, absfloor=mpf(10) ** (-dps - 5)) for x in uniq}
        with mp.workdps(dps + 30):
            n = len(xs)
            par = sum(abs(mpf(t)) * (1 + abs(mp.log(abs(mpf(t))))) if t else 0 for t in p)
            loc, scale, shape = d.std(*p)
            size = n * (1 + par + abs(mp.log(scale)))
            for x, c in uniq.items():
                tot += c * vals[x]
                z = (mpf(x) - loc) / scale
                a, b = d.support(*p)
                lx = sum(abs(mp.log(abs(mpf(t)))) for t in (z, x, mpf(x) - a, b - mpf(x)) if t and mp.isfinite(t))
                size += c * (abs(vals[x]) + (1 + par) * lx + abs(z) * (1 + par)
                             + sens(d, lp, x, p, dps) * mpf(10) ** dps)
            tol = tol_of(dps, 3)
        facts += 1
        v = obs["nll"]
        ctx = f"nll({xs!r}, *{p!r}) at dps={dps}"
        bad = bad_number(v)
        if bad:
            out.append(("nll", f"{ctx}: {bad}"))
        else:
            with mp.workdps(dps + 20):
                if not abs(v + tot) <= tol * size:
                    out.append(("nll", f"{ctx} = {show(v)}, minus the sum of log densities is {show(-tot)}"))
        if "nll_grad" in self.have:
            f2, o2 = self.derivs(case, obs, lp, uniq, size)
            facts += f2
            out += o2
        return facts, out

    def derivs(self, case, obs, lp, uniq, size):
        p, dps = self.params(case), case["dps"]
        out, facts = [], 0
        w = 6 * dps + 60
        with mp.workdps(w):
            q = [mpf(t) for t in p]
            h = [max(abs(t), mpf(1) / 1000) * mpf(10) ** (-(w // 4)) for t in q]
            if "loc" in self.d.params:
                i = self.d.params.index("loc")
                gap = min(abs(mpf(x) - q[i]) for x in uniq)
                h[i] = min(h[i], gap * mpf(10) ** (-(w // 4)))

            def F(*t):
                return -mp.fsum(c * lp(x, *t) for x, c in uniq.items())

            def at(*idx):
                """central difference, 2nd order in h"""
                if len(idx) == 1:
                    i, = idx
                    a, b = list(q), list(q)
                    a[i] += h[i]
                    b[i] -= h[i]
                    return (F(*a) - F(*b)) / (2 * h[i])
                i, j = idx
                s = 0
                if i == j:
                    a, b = list(q), list(q)
                    a[i] += h[i]
                    b[i] -= h[i]
                    return (F(*a) - 2 * F(*q) + F(*b)) / h[i] ** 2
                for si in (1, -1):
                    for sj in (1, -1):
                        a = list(q)
                        a[i] += si * h[i]
                        a[j] += sj * h[j]
                        s += si * sj * F(*a)
                return s / (4 * h[i] * h[j])
            m = len(p)
            tol = mpf(10) ** (4 - dps)
            g = obs["nll_grad"]
            facts += 1
            sc = [min(abs(t), 1) if n not in ("loc",) else None for t, n in zip(q, self.d.params)]
            for i, n in enumerate(self.d.params):
                if sc[i] is None:
                    sc[i] = gap
            ref = [at(i) for i in range(m)]
            got = self.flat(g)
            if got is None or len(got) != m:
                out.append(("nll_grad", f"nll_grad({case['x']!r}, *{p!r}) at dps={dps}: {g!r:.120}"))
            else:
                for i in range(m):
                    if not abs(got[i] - ref[i]) <= tol * (abs(ref[i]) + size / sc[i]):
                        out.append(("nll_grad", f"nll_grad({case['x']!r}, *{p!r})[{i}] at dps={dps} = {show(got[i])}, derivative of nll is {show(ref[i])}"))
            if "nll_hess" in self.have:
                H = mp.matrix(m, m)
                for i in range(m):
                    for j in range(m):
                        H[i, j] = at(i, j)
                for f in ("nll_hess", "nll_invhess"):
                    facts += 1
                    if f == "nll_invhess":
                        det = H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0]
                        cond = (abs(H[0, 0] * H[1, 1]) + abs(H[0, 1] * H[1, 0])) / abs(det) if det else mp.inf
                        if cond > mpf(10) ** (dps // 2):
                            continue
                        R = H ** -1
                        amp = cond ** 2
                        # trigamma cancellation k*psi1(k) - 1
                    else:
                        R, amp = H, 1
                    got = self.flat(obs[f])
                    if got is None or len(got) != m * m:
                        out.append((f, f"{f}({case['x']!r}, *{p!r}) at dps={dps}: {obs[f]!r:.120}"))
                        continue
                    for i in range(m):
                        for j in range(m):
                            if f == "nll_hess":
                                lim = tol * (abs(R[i, j]) + size / (sc[i] * sc[j]))
                            else:
                                big = max(abs(R[k, l]) / (sc[k] * sc[l]) for k in range(m) for l in range(m))
                                lim = tol * amp * (abs(R[i, j]) + big * sc[i] * sc[j])
                            if not abs(got[i * m + j] - R[i, j]) <= lim:
                                out.append((f, f"{f}({case['x']!r}, *{p!r})[{i}][{j}] at dps={dps} = {show(got[i * m + j])}, should be {show(R[i, j])}"))
        return facts, out

    def flat(self, v):
        if isinstance(v, Exc):
            return None
        try:
            r = []
            for t in (v.tolist() if hasattr(v, "tolist") else v):
                if isinstance(t, (list, tuple)):
                    r += t
                elif hasattr(t, "rows"):
                    r += list(t)
                else:
                    r.append(t)
            if any(bad_number(t) for t in r):
                return None
            return r
        except TypeError:
            return None


class DS(Subject):
    quick = 400
    thorough = 4000
    samelen = {"x": ("c",), "c": ("x",)}

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, ddist.D[name], lib(name)
        self.only = (f"distributions/{name}.py", "_common", "stats/_basic", "_logsumexp")
        self.intgenes = ("x", "c") + tuple("p_" + n for n in self.d.params if n == "n")
        self.gbudget = 250 if tier == "quick" else 3000
        self.gtime = 10 if tier == "quick" else 120

    def params(self, case):
        return tuple(case["p_" + n] for n in self.d.params)

    def gen(self, rng):
        for _ in range(100):
            p = self.d.gen(rng)
            xs = [ddist.gen_k(rng, self.d, p) for _ in range(4 * data_len(rng))]
            xs = [k for k in xs if 0 <= k < 300 and not self.d.pmf_zero(k, p) and hp(lambda: self.d.pmf(k, *p), 5) > 0]
            xs = xs[:data_len(rng)]
            if xs:
                break
        case = {"p_" + n: v for n, v in zip(self.d.params, p)}
        case.update(dps=rng.choice(DPS), x=xs, c=[rng.choice([0, 1, 1, 2, 3, 7]) for _ in xs], _s="random")
        if not any(case["c"]):
            case["c"][0] = 2
        return case

    def valid(self, case):
        p = self.params(case)
        xs, c = case["x"], case["c"]
        if not xs or len(xs) != len(c) or not self.d.ok(*p):
            return False
        if not all(isinstance(t, int) and 0 <= t < 300 for t in xs) or not all(isinstance(t, int) and 0 <= t < 100 for t in c):
            return False
        return any(c) and all(not self.d.pmf_zero(k, p) and hp(lambda: self.d.pmf(k, *p), 5) > 0 for k in xs)

    def observe(self, case, call):
        p, x, c = self.params(case), case["x"], case["c"]
        o = {"plain": call(self.m.nll, list(x), *p), "counts": call(self.m.nll, list(x), *p, counts=list(c)),
             "none": call(self.m.nll, list(x), *p, counts=None)}
        return o

    def judge(self, case, obs):
        d, p, xs, c, dps = self.d, self.params(case), case["x"], case["c"], case["dps"]
        out, facts = [], 0
        with mp.workdps(dps + 20):
            l = {k: mp.log(hp(lambda: d.pmf(k, *p), dps + 8)) for k in set(xs)}
            par = sum(abs(mpf(t)) * (1 + abs(mp.log(abs(mpf(t))))) + (abs(mp.log(abs(mpf(t)))) if t else 0) if t else 0 for t in p)
            if d.params[-1] == "p" and p[-1] not in (0, 1):
                par += abs(mp.log1p(-mpf(p[-1])))
            for which, w in (("plain", [1] * len(xs)), ("counts", c), ("none", [1] * len(xs))):
                facts += 1
                want = -mp.fsum(wi * l[k] for k, wi in zip(xs, w))
                size = sum(wi * (1 + abs(l[k]) + (k + 1) * (1 + par) * (1 + abs(mp.log(k + 1)))) for k, wi in zip(xs, w))
                v = obs[which]
                ctx = f"nll({xs!r}, *{p!r}{', counts=%r' % (c,) if which == 'counts' else ''}) at dps={dps}"
                bad = bad_number(v)
                if bad:
                    out.append((which, f"{ctx}: {bad}"))
                elif not abs(v - want) <= tol_of(dps, 3) * size:
                    out.append((which, f"{ctx} = {show(v)}, minus the log likelihood is {show(want)}"))
        return facts, out


CONT = ["benini", "benktander1", "benktander2", "beta", "betaprime", "burr12", "gamma", "genpareto", "gompertz", "gumbel_max",
        "gumbel_min", "hypsecant", "kumaraswamy", "loggamma", "logistic", "lognormal", "nakagami", "normal", "pareto",
        "weibull_max", "weibull_min"]
DISC = ["betabinomial", "binomial", "logseries", "negative_binomial", "poisson"]


def subjects(tier):
    from . import c09          # noqa: F401  (installs pmf_zero)
    return [S(n, tier) for n in CONT] + [DS(n, tier) for n in DISC]
