"""Independent models of the discrete distributions (elementary products, no special functions)."""
import math
from fractions import Fraction
from mpmath import mp
from .core import mpf, logu, unif, INF


def comb(n, k):
    return math.comb(n, k) if 0 <= k <= n else 0


def rf(a, k):
    r = mp.one
    for i in range(k):
        r *= a + i
    return r


def frac(q):
    return mpf(q.numerator) / q.denominator


class M:
    def __init__(self, name, params, gen, supp, pmf, ok, inf=False, weights=None):
        self.name, self.params, self.gen, self.supp, self.pmf, self.ok, self.inf = name, params, gen, supp, pmf, ok, inf


D = {}


def add(*a, **k):
    D[a[0]] = M(*a, **k)


def isint(*v):
    return all(isinstance(t, int) and not isinstance(t, bool) for t in v)


def g_n(rng):
    return rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 10, 12, 15, 20, 31, 50, rng.randint(0, 60), rng.randint(50, 140)])


def g_p(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0, 1, 0.0, 1.0])
    if r < 0.4:
        return rng.choice([0.5, 0.25, 0.75, 0.125, 0.1, 0.2, 0.3, 0.9])
    if r < 0.55:
        return logu(rng, 1e-8, 0.1)
    if r < 0.65:
        return 1 - 2.0 ** -rng.choice([3, 5, 10, 20])
    return unif(rng, 0.01, 0.99)


def g_ab(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice([1, 2, 3, 0.5, 1.5, 5, 10])
    return logu(rng, 0.05, 40)


# ---- binomial
add("binomial", ("n", "p"), lambda rng: (g_n(rng), g_p(rng)), lambda n, p: (0, n),
    lambda k, n, p: comb(n, k) * mpf(p) ** k * (1 - mpf(p)) ** (n - k),
    lambda n, p: isint(n) and 0 <= n <= 300 and 0 <= p <= 1)
# ---- beta-binomial
add("betabinomial", ("n", "a", "b"), lambda rng: (min(g_n(rng), 80), g_ab(rng), g_ab(rng)), lambda n, a, b: (0, n),
    lambda k, n, a, b: comb(n, k) * rf(mpf(a), k) * rf(mpf(b), n - k) / rf(mpf(a) + mpf(b), n),
    lambda n, a, b: isint(n) and 0 <= n <= 120 and 0.02 <= a <= 80 and 0.02 <= b <= 80)


# ---- hypergeometric
def g_hg(rng):
    r = rng.random()
    if r < 0.15:
        N = rng.choice([0, 1, 2])
    else:
        N = rng.choice([3, 4, 5, 8, 10, 12, 20, 30, rng.randint(3, 80), rng.randint(60, 200)])
    return (N, rng.choice([0, N, rng.randint(0, N), rng.randint(0, N)]), rng.choice([0, N, rng.randint(0, N), rng.randint(0, N)]))


def hg_ok(N, g, s):
    return isint(N, g, s) and 0 <= g <= N <= 300 and 0 <= s <= N


add("hypergeometric", ("ntotal", "ngood", "nsample"), g_hg, lambda N, g, s: (max(0, s - (N - g)), min(s, g)),
    lambda k, N, g, s: frac(Fraction(comb(g, k) * comb(N - g, s - k), comb(N, s))), hg_ok)


# ---- negative hypergeometric
def g_nhg(rng):
    N, g, _ = g_hg(rng)
    return N, g, rng.choice([0, N - g, rng.randint(0, N - g), rng.randint(0, N - g)])


def nhg_pmf(k, N, K, r):
    if r == 0:
        return mpf(1 if k == 0 else 0)
    return frac(Fraction(comb(k + r - 1, k) * comb(N - r - k, K - k), comb(N, K)))


add("negative_hypergeometric", ("ntotal", "ngood", "untilnbad"), g_nhg, lambda N, K, r: (0, 0 if r == 0 else K), nhg_pmf,
    lambda N, K, r: isint(N, K, r) and 0 <= K <= N <= 300 and 0 <= r <= N - K)


# ---- Fisher's noncentral hypergeometric
def fn_pmf(k, nc, N, g, s):
    lo, hi = max(0, s - (N - g)), min(s, g)
    if not lo <= k <= hi:
        return mp.zero
    nc = mpf(nc)
    tot = mp.fsum(comb(g, j) * comb(N - g, s - j) * nc ** (j - lo) for j in range(lo, hi + 1))
    return comb(g, k) * comb(N - g, s - k) * nc ** (k - lo) / tot


add("fishers_noncentral_hypergeometric", ("nc", "ntotal", "ngood", "nsample"),
    lambda rng: (rng.choice([1, 1.0, 2, 0.5, 2.5, logu(rng, 1e-4, 1e4), logu(rng, 0.05, 20)]),) + g_hg(rng),
    lambda nc, N, g, s: (max(0, s - (N - g)), min(s, g)), fn_pmf,
    lambda nc, N, g, s: 1e-6 <= nc <= 1e6 and hg_ok(N, g, s))
# ---- negative binomial
add("negative_binomial", ("r", "p"),
    lambda rng: (rng.choice([1, 2, 3, 5, 10, 0.5, 1.5, logu(rng, 0.05, 60)]), min(g_p(rng), 0.96875)),
    lambda r, p: (0, None),
    lambda k, r, p: rf(mpf(r), k) / math.factorial(k) * (1 - mpf(p)) ** mpf(r) * mpf(p) ** k,
    lambda r, p: 0.02 <= r <= 80 and 0 <= p <= 0.97, inf=True)
# ---- Poisson
add("poisson", ("lam",), lambda rng: (rng.choice([1, 2, 3, 10, 0.5, 0.1, 88.0, 17.25, logu(rng, 1e-4, 120)]),),
    lambda lam: (0, None), lambda k, lam: mpf(lam) ** k * mp.exp(-mpf(lam)) / math.factorial(k),
    lambda lam: 1e-6 <= lam <= 200, inf=True)
# ---- log-series
add("logseries", ("p",), lambda rng: (min(max(g_p(rng), 1e-30), 0.96875),) if rng.random() < .8 else (logu(rng, 1e-25, 1e-3),), lambda p: (1, None),
    lambda k, p: -mpf(p) ** k / (k * mp.log(1 - mpf(p))) if k >= 1 else mp.zero,
    lambda p: 1e-32 <= p <= 0.97, inf=True)


# ---- truncated discrete exponential
def tde_pmf(k, lam, n):
    if not 0 <= k < n:
        return mp.zero
    lam = mpf(lam)
    if lam == 0:
        return mpf(1) / n
    return mp.exp(-lam * k) * (1 - mp.exp(-lam)) / (1 - mp.exp(-lam * n))


add("trunc_discrete_exp", ("lam", "n"),
    lambda rng: (rng.choice([0, 0.0, 1, 0.5, logu(rng, 1e-6, 1), logu(rng, 1e-30, 1), logu(rng, 0.01, 12), 40.0]), max(1, g_n(rng))),
    lambda lam, n: (0, n - 1), tde_pmf, lambda lam, n: isint(n) and 1 <= n <= 200 and (lam == 0 or 1e-32 <= lam <= 60))
# ---- Gauss-Kuzmin
add("gauss_kuzmin", (), lambda rng: (), lambda: (1, None),
    lambda k: -mp.log(1 - 1 / mpf(k + 1) ** 2) / mp.log(2) if k >= 1 else mp.zero, lambda: True, inf=True)


def cdf(d, k, p):
    lo, hi = d.supp(*p)
    if d.name == "gauss_kuzmin":
        return 1 - sf(d, k, p)
    if k < lo:
        return mp.zero
    if hi is not None and k >= hi:
        return mp.one
    return mp.fsum(d.pmf(j, *p) for j in range(lo, k + 1))


def sf(d, k, p):
    lo, hi = d.supp(*p)
    if k < lo:
        return mp.one
    if d.name == "gauss_kuzmin":
        return mp.log((mpf(k) + 2) / (mpf(k) + 1)) / mp.log(2)
    if hi is not None:
        if k >= hi:
            return mp.zero
        return mp.fsum(d.pmf(j, *p) for j in range(k + 1, hi + 1))
    v = 1 - cdf(d, k, p)
    if v > mpf(10) ** (-mp.dps // 2):
        return v
    # beyond the mode: the ratio of successive terms is below 1 and tends to at most 0.97
    s, j = mp.zero, k + 1
    t = d.pmf(j, *p)
    eps = mpf(10) ** (-mp.dps - 5)
    while t:
        s += t
        r = ratio(d, j, p)
        if r < mpf("0.99") and t * r / (1 - r) < eps * s:
            break
        t *= r
        j += 1
    return s


def ratio(d, k, p):
    """pmf(k+1)/pmf(k) for the infinite supports"""
    if d.name == "poisson":
        return mpf(p[0]) / (k + 1)
    if d.name == "negative_binomial":
        return mpf(p[1]) * (mpf(p[0]) + k) / (k + 1)
    return mpf(p[0]) * k / (k + 1)


def gen_k(rng, d, p):
    lo, hi = d.supp(*p)
    r = rng.random()
    if hi is None:
        if d.name == "gauss_kuzmin":
            return rng.choice([-1, 0, 1, 2, 3, 5, 10, 100, 1000, 10 ** 6, rng.randint(1, 50)])
        if d.name == "poisson":
            m, s = p[0], math.sqrt(p[0])
        elif d.name == "negative_binomial":
            m, s = p[0] * p[1] / (1 - p[1]), math.sqrt(p[0] * p[1]) / (1 - p[1])
        else:
            m, s = 1, 1 / (1 - p[0])
        if r < 0.3:
            return rng.choice([-2, -1, 0, 1, 2, 3])
        return min(max(-1, int(m + rng.gauss(0, 1) * (s + 1) * rng.choice([0.5, 1, 3]))), 400)
    if r < 0.4:
        return rng.choice([lo - 2, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, hi + 2])
    if r < 0.45:
        return rng.choice([-5, hi + 7])
    return rng.randint(lo, hi)
