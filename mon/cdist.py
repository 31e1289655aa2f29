"""Independent textbook models of the continuous univariate distributions.

Each model is written in standardised form: X = loc + scale*Z, where the shape
vector determines the law of Z.  `std(*params)` maps the library's parameter
vector to (loc, scale, shape).  Formulas come from the literature (Wikipedia,
Johnson-Kotz, SciPy docs), not from the code under test; where possible a
different but equivalent form is used.
"""
from mpmath import mp
from .core import Inconclusive, mpf, INF, NINF, logu, unif, short, rng_for
import math

SQ2PI = lambda: mp.sqrt(2 * mp.pi)


def xl(a, z):
    """a*log(z) with 0*log(0) = 0."""
    if a == 0:
        return mp.zero
    if z == 0:
        return NINF if a > 0 else INF
    return a * mp.log(z)


def lg(x):
    return mp.loggamma(x)


def P(a, x):
    """regularised lower incomplete gamma"""
    if x <= 0:
        return mp.zero
    if mp.isinf(x):
        return mp.one
    return mp.gammainc(a, 0, x, regularized=True)


def Q(a, x):
    if x <= 0:
        return mp.one
    if mp.isinf(x):
        return mp.zero
    return mp.gammainc(a, x, mp.inf, regularized=True)


def I(a, b, x):
    if x <= 0:
        return mp.zero
    if x >= 1:
        return mp.one
    return mp.betainc(a, b, 0, x, regularized=True)


def I2(a, b, u, v):
    """I(a, b, u) given v = 1 - u accurately (u may be 1 to working precision)."""
    if v <= 0:
        return mp.one
    if mp.mag(v) < -mp.prec // 3:
        return 1 - I(b, a, v)
    return I(a, b, u)


def Phi(z):
    return mp.erfc(-z / mp.sqrt(2)) / 2


def lphi(z):
    return -z * z / 2 - mp.log(2 * mp.pi) / 2


def _compl(g):
    """1 - g() to full relative accuracy (more precision when g() is close to 1)."""
    d = mp.dps
    for k in (1, 3, 9, 27):
        with mp.workdps(d * k):
            v = 1 - g()
            if v > mpf(10) ** (-(d * k - d)):
                return v
            if k == 1 and v > mpf(10) ** (-d // 3):
                return v
    raise Inconclusive("complement too small")


class C:
    def __init__(self, name, params, gen, supp, logpdf, cdf=None, sf=None, typ=None,
                 std=None, loc=None, scale=None, breaks=(), maxmom=None, slow=False,
                 single=None, ninvalid=None):
        self.name = name
        self.params = params          # names, library order
        self.gen = gen                # gen(rng, tier) -> tuple of python numbers
        self._supp = supp             # supp(*shape) -> (a, b)
        self.logpdf_z = logpdf        # logpdf(z, *shape) for z inside the support
        self.cdf_z = cdf
        self.sf_z = sf
        self._typ = typ               # typ(*shape) -> (centre, width)
        self.locname = loc
        self.scalename = scale
        self._std = std
        self.breaks = breaks
        self._maxmom = maxmom         # E|X|^n finite iff n < maxmom(*shape)
        self.slow = slow

    # -- parameter handling
    def std(self, *p):
        p = [mpf(t) for t in p]
        if self._std is not None:
            return self._std(*p)
        loc = mp.zero
        scale = mp.one
        shape = []
        for n, v in zip(self.params, p):
            if n == self.locname:
                loc = v
            elif n == self.scalename:
                scale = v
            else:
                shape.append(v)
        return loc, scale, tuple(shape)

    def supp_z(self, shape):
        return self._supp(*shape)

    def support(self, *p):
        loc, scale, shape = self.std(*p)
        a, b = self._supp(*shape)
        return loc + scale * a, loc + scale * b

    def typ(self, shape):
        if self._typ is None:
            return (mp.zero, mp.one)
        c, w = self._typ(*shape)
        return mpf(c), mpf(w)

    def maxmom(self, shape):
        return INF if self._maxmom is None else self._maxmom(*shape)

    # -- reference functions of x (current precision)
    def logpdf(self, x, *p):
        loc, scale, shape = self.std(*p)
        if mp.isinf(x):
            return NINF
        z = (x - loc) / scale
        a, b = self._supp(*shape)
        if z < a or z > b:
            return NINF
        return self.logpdf_z(z, *shape) - mp.log(scale)

    def pdf(self, x, *p):
        v = self.logpdf(x, *p)
        return mp.zero if v == NINF else mp.exp(v)

    def _tail(self, x, p, which):
        loc, scale, shape = self.std(*p)
        a, b = self._supp(*shape)
        z = x if mp.isinf(x) else (x - loc) / scale
        if z <= a:
            return mp.zero if which == 'cdf' else mp.one
        if z >= b:
            return mp.one if which == 'cdf' else mp.zero
        f, g = (self.cdf_z, self.sf_z) if which == 'cdf' else (self.sf_z, self.cdf_z)
        if f is not None:
            return f(z, *shape)
        if g is not None:
            return _compl(lambda: g(z, *shape))
        raise NotImplementedError

    def cdf(self, x, *p):
        return self._tail(x, p, 'cdf')

    def sf(self, x, *p):
        return self._tail(x, p, 'sf')

    @property
    def has_cdf(self):
        return self.cdf_z is not None or self.sf_z is not None


# ------------------------------------------------------------- generators
def g_pos(rng, lo=0.1, hi=30.0, specials=(1, 2, 0.5, 3)):
    r = rng.random()
    if r < 0.45:
        return logu(rng, lo, hi)
    if r < 0.65:
        s = [t for t in specials if lo <= t <= hi]
        if s:
            return rng.choice(s)
    if r < 0.8:
        s = [t for t in specials if lo <= t <= hi]
        if s:
            k = rng.choice([4, 10, 20, 30, 40])
            return rng.choice(s) * (1 + rng.choice([-1, 1]) * 2.0**-k)
    if r < 0.92:
        c = [t for t in range(1, 21) if lo <= t <= hi]
        if c:
            return rng.choice(c)
    return logu(rng, lo, hi)


def g_scale(rng):
    r = rng.random()
    if r < 0.3:
        return 1
    if r < 0.5:
        return rng.choice([2, 0.5, 3, 10, 0.25])
    return logu(rng, 1e-3, 1e3)


def g_loc(rng):
    r = rng.random()
    if r < 0.3:
        return 0
    if r < 0.5:
        return rng.choice([1, -1, 2, -3, 10, -0.5])
    return short(rng, rng.choice([-1, 1]) * logu(rng, 1e-3, 1e3))


def g_real(rng, lim=20.0, specials=(0, 1, -1, 0.5, -0.5)):
    r = rng.random()
    if r < 0.25:
        return rng.choice(specials)
    if r < 0.4:
        return rng.choice(specials) + rng.choice([-1, 1]) * 2.0**-rng.choice([6, 12, 20, 30])
    return short(rng, rng.choice([-1, 1]) * logu(rng, 1e-3, lim))


def mk(*gens):
    def gen(rng):
        return tuple(g(rng) for g in gens)
    return gen


def pos(lo=0.1, hi=30.0, specials=(1, 2, 0.5, 3)):
    return lambda rng: g_pos(rng, lo, hi, specials)


half = lambda: mpf(1) / 2
R01 = lambda *s: (mp.zero, mp.one)
RP = lambda *s: (mp.zero, INF)
RR = lambda *s: (NINF, INF)

D = {}


def add(name, params, gen, supp, logpdf, **kw):
    D[name] = C(name, params.split(), gen, supp, logpdf, **kw)


# ------------------------------------------------------------- models
def _psi2(chi):   # 2*Psi(chi) of the ARGUS distribution
    return P(mpf(3) / 2, chi * chi / 2)


def argus_lp(z, chi):
    w = (1 - z) * (1 + z)
    if chi == 0:
        return mp.log(3) + xl(1, z) + xl(half(), w)
    return (3 * mp.log(chi) + mp.log(2) - mp.log(2 * mp.pi) / 2 - mp.log(_psi2(chi))
            + xl(1, z) + xl(half(), w) - chi * chi * w / 2)


def argus_sf(z, chi):
    w = (1 - z) * (1 + z)
    if chi == 0:
        return w ** (mpf(3) / 2)
    return _psi2(chi * mp.sqrt(w)) / _psi2(chi)


add('argus', 'chi scale', mk(lambda r: 0 if r.random() < .15 else g_pos(r, 0.05, 8), g_scale),
    R01, argus_lp, sf=argus_sf, scale='scale', typ=lambda chi: (0.7, 0.25))

add('benini', 'alpha beta scale', mk(pos(0.05, 10), pos(0.02, 10), g_scale),
    lambda a, b: (mp.one, INF),
    lambda z, a, b: -a * mp.log(z) - b * mp.log(z) ** 2 + mp.log(a + 2 * b * mp.log(z)) - mp.log(z),
    sf=lambda z, a, b: mp.exp(-a * mp.log(z) - b * mp.log(z) ** 2), scale='scale',
    typ=lambda a, b: (1 + mp.expm1(1 / (a + mp.sqrt(b))), 1 / (a + mp.sqrt(b))))


def g_bk1(rng):
    a = g_pos(rng, 0.2, 12)
    top = a * (a + 1) / 2
    r = rng.random()
    if r < 0.1:
        a = round(a * 16) / 16 or 1
        top = b = a * (a + 1) / 2
    elif r < 0.3:
        # around the mode threshold a(a+2)/6
        b = min(a * (a + 2) / 6 * (1 + rng.choice([-1, 1, 0]) * 2.0**-rng.choice([1, 3, 10, 20])), top * 0.999)
    else:
        b = short(rng, top * unif(rng, 0.02, 0.999))
        b = min(b, top * 0.999)
    return a, b


def bk1_sf(z, a, b):
    L = mp.log(z)
    return (1 + 2 * b / a * L) * mp.exp(-(a + 1 + b * L) * L)


def bk1_lp(z, a, b):
    L = mp.log(z)
    c = ((1 + 2 * b * L / a) * (1 + a + 2 * b * L) - 2 * b / a)
    return (NINF if c == 0 else mp.log(c)) - (2 + a + b * L) * L


add('benktander1', 'a b', g_bk1, lambda a, b: (mp.one, INF), bk1_lp, sf=bk1_sf,
    typ=lambda a, b: (1 + 1 / a, 1 / (a + 0.5)))


def g_bk2(rng):
    a = g_pos(rng, 0.1, 12)
    r = rng.random()
    b = 1 if r < 0.2 else (0.5 if r < 0.3 else unif(rng, 0.05, 0.999))
    return a, b


add('benktander2', 'a b', g_bk2, lambda a, b: (mp.one, INF),
    lambda z, a, b: a / b * (1 - z ** b) + (b - 2) * mp.log(z) + mp.log(a * z ** b + 1 - b),
    sf=lambda z, a, b: mp.exp((b - 1) * mp.log(z) + a / b * (1 - z ** b)),
    typ=lambda a, b: (1 + 1 / a, 1 / (a + 0.5)))


def lbeta(a, b):
    return lg(a) + lg(b) - lg(a + b)


add('beta', 'a b', mk(pos(0.1, 40), pos(0.1, 40)), R01,
    lambda z, a, b: xl(a - 1, z) + xl(b - 1, 1 - z) - lbeta(a, b),
    cdf=lambda z, a, b: I(a, b, z), sf=lambda z, a, b: I2(b, a, 1 - z, z),
    typ=lambda a, b: (a / (a + b), mp.sqrt(a * b / (a + b + 1)) / (a + b)))

add('betaprime', 'a b scale', mk(pos(0.1, 30), pos(0.1, 30, (1, 2, 3, 4, 0.5)), g_scale), RP,
    lambda z, a, b: xl(a - 1, z) - (a + b) * mp.log1p(z) - lbeta(a, b),
    cdf=lambda z, a, b: I2(a, b, z / (1 + z), 1 / (1 + z)), sf=lambda z, a, b: I2(b, a, 1 / (1 + z), z / (1 + z)),
    scale='scale', typ=lambda a, b: (a / b, mp.sqrt(a * (a + b)) / b / mp.sqrt(b)), maxmom=lambda a, b: b)

add('burr12', 'c d scale', mk(pos(0.2, 12), pos(0.1, 12), g_scale), RP,
    lambda z, c, d: mp.log(c * d) + xl(c - 1, z) - (d + 1) * mp.log1p(z ** c),
    sf=lambda z, c, d: mp.exp(-d * mp.log1p(z ** c)),
    cdf=lambda z, c, d: -mp.expm1(-d * mp.log1p(z ** c)),
    scale='scale', typ=lambda c, d: ((mpf(2) ** (1 / d) - 1) ** (1 / c), (mpf(2) ** (1 / d) - 1) ** (1 / c) / max(c, 1)),
    maxmom=lambda c, d: c * d)

add('cauchy', 'loc scale', mk(g_loc, g_scale), RR,
    lambda z: -mp.log(mp.pi) - mp.log(1 + z * z),
    cdf=lambda z: half() + mp.atan(z) / mp.pi, sf=lambda z: half() - mp.atan(z) / mp.pi,
    loc='loc', scale='scale', maxmom=lambda: mp.one)

add('chi', 'k', mk(pos(0.2, 60)), RP,
    lambda z, k: xl(k - 1, z) - z * z / 2 - (k / 2 - 1) * mp.log(2) - lg(k / 2),
    cdf=lambda z, k: P(k / 2, z * z / 2), sf=lambda z, k: Q(k / 2, z * z / 2),
    typ=lambda k: (mp.sqrt(k), 0.7))

add('chi2', 'k', mk(pos(0.2, 80)), RP,
    lambda z, k: xl(k / 2 - 1, z) - z / 2 - k / 2 * mp.log(2) - lg(k / 2),
    cdf=lambda z, k: P(k / 2, z / 2), sf=lambda z, k: Q(k / 2, z / 2),
    typ=lambda k: (k, mp.sqrt(2 * k)))

add('cosine', '', mk(), lambda: (-mp.pi, +mp.pi),
    lambda z: mp.log((1 + mp.cos(z)) / (2 * mp.pi)) if abs(z) < mp.pi else NINF,
    cdf=lambda z: (mp.pi + z + mp.sin(z)) / (2 * mp.pi), sf=lambda z: (mp.pi - z - mp.sin(z)) / (2 * mp.pi),
    typ=lambda: (0, 1.1))

add('exponweib', 'a c scale', mk(pos(0.2, 12), pos(0.2, 8), g_scale), RP,
    lambda z, a, c: (mp.log(a * c) + (xl(a - 1, -mp.expm1(-z ** c))) - z ** c + xl(c - 1, z)) if z > 0 else
    (NINF if a * c > 1 else INF if a * c < 1 else mp.zero + mp.log(a * c)),
    cdf=lambda z, a, c: (-mp.expm1(-z ** c)) ** a,
    sf=lambda z, a, c: -mp.expm1(a * (mp.log1p(-mp.exp(-z ** c)) if z > 1 else mp.log(-mp.expm1(-z ** c)))),
    scale='scale', typ=lambda a, c: (mp.log(1 + a) ** (1 / c), 1 / c))


def f_std(a, b):
    return mp.zero, b / a, (a / 2, b / 2)


add('f', 'dfn dfd', mk(pos(0.3, 60), pos(0.3, 60, (1, 2, 3, 4, 5))), RP,
    lambda z, a, b: xl(a - 1, z) - (a + b) * mp.log1p(z) - lbeta(a, b),
    cdf=lambda z, a, b: I2(a, b, z / (1 + z), 1 / (1 + z)), sf=lambda z, a, b: I2(b, a, 1 / (1 + z), z / (1 + z)),
    std=f_std, typ=lambda a, b: (a / b, mp.sqrt(a * (a + b)) / b / mp.sqrt(b)), maxmom=lambda a, b: b)


def g_fn(rng):
    return g_real(rng, 8), g_scale(rng)


add('folded_normal', 'mu sigma', lambda r: (lambda s: (short(r, g_real(r, 6) * s), s))(g_scale(r)), RP,
    lambda z, m: lphi(z) - m * m / 2 + mp.log(2 * mp.cosh(m * z)),
    cdf=lambda z, m: Phi(z - m) - Phi(-z - m), sf=lambda z, m: Phi(m - z) + Phi(-z - m),
    std=lambda mu, s: (mp.zero, s, (mu / s,)), scale='sigma*', typ=lambda m: (abs(m) + 0.5, 1))

add('gamma', 'k scale', mk(pos(0.1, 60), g_scale), RP,
    lambda z, k: xl(k - 1, z) - z - lg(k),
    cdf=lambda z, k: P(k, z), sf=lambda z, k: Q(k, z), scale='scale',
    typ=lambda k: (k, mp.sqrt(k)))


def gg_lp(z, c, beta):
    return mp.log(c) + z + c * mp.log(beta) - (c + 1) * mp.log(beta - 1 + mp.exp(z))


add('gamma_gompertz', 'c beta scale', mk(pos(0.1, 12), pos(0.05, 30, (1, 2, 0.5)), g_scale), RP, gg_lp,
    sf=lambda z, c, beta: mp.exp(c * (mp.log(beta) - mp.log(beta - 1 + mp.exp(z)))), scale='scale',
    typ=lambda c, beta: (mp.log1p(beta * (mpf(2) ** (1 / c) - 1)), 1 / c + mp.log1p(beta * (mpf(2) ** (1 / c) - 1)) / 3))

add('genexpon', 'a b c loc scale', mk(pos(0.1, 10), pos(0.1, 10), pos(0.1, 10), g_loc, g_scale), RP,
    lambda z, a, b, c: mp.log(a + b * (1 - mp.exp(-c * z))) - (a + b) * z + b / c * (1 - mp.exp(-c * z)),
    sf=lambda z, a, b, c: mp.exp(-(a + b) * z + b / c * (1 - mp.exp(-c * z))),
    loc='loc', scale='scale', typ=lambda a, b, c: (1 / (a + b), 1 / (a + b)))


def gev_supp(xi):
    if xi == 0:
        return NINF, INF
    if xi > 0:
        return -1 / xi, INF
    return NINF, -1 / xi


def gev_t(z, xi):
    return mp.exp(-z) if xi == 0 else (1 + xi * z) ** (-1 / xi)


def gev_lp(z, xi):
    if xi == 0:
        return -z - mp.exp(-z)
    u = 1 + xi * z
    if u == 0:
        if xi > 0:
            return NINF
        return INF if xi < -1 else (mp.zero if xi == -1 else NINF)
    return -(1 + 1 / xi) * mp.log(u) - u ** (-1 / xi)


def g_xi(rng, lo=-2.0, hi=2.0):
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.35:
        return rng.choice([t for t in (1, -1, 0.5, -0.5, 1 / 3, 0.25, -0.25, 2, -2) if lo <= t <= hi])
    if r < 0.5:
        return rng.choice([-1, 1]) * 2.0**-rng.choice([3, 7, 12, 20])
    return unif(rng, lo, hi)


add('genextreme', 'xi mu sigma', mk(g_xi, g_loc, g_scale), gev_supp, gev_lp,
    cdf=lambda z, xi: mp.exp(-gev_t(z, xi)), sf=lambda z, xi: -mp.expm1(-gev_t(z, xi)),
    loc='mu', scale='sigma', typ=lambda xi: (0.2, 1), maxmom=lambda xi: 1 / xi if xi > 0 else INF)


_kc = {}


def _cached(key, fn):
    k = key + (mp.prec,)
    v = _kc.get(k)
    if v is None:
        if len(_kc) > 500:
            _kc.clear()
        v = _kc[k] = fn()
    return v


def gh_lp(z, p, a, b):
    s = mp.sqrt(1 + z * z)
    lc = _cached(("gh", p, a, b), lambda: _gh_lc(p, a, b))
    return (lc - mp.log(2 * mp.pi) / 2 + b * z + mp.log(mp.besselk(p - half(), a * s))
            + (p - half()) * (mp.log(s) - mp.log(a)))


def _gh_lc(p, a, b):
    g = mp.sqrt((a + b) * (a - b))
    if g == 0:
        # limit of (g**p/K_p(g)) for p < 0: 2**(1-|p|) g**(-|p|)... -> K ~ Gamma(|p|)/2 (2/g)^|p|
        q = -p
        lc = -(lg(q) + (q - 1) * mp.log(2))
    else:
        lc = p * mp.log(g) - mp.log(mp.besselk(p, g))
    return lc


def g_gh(rng):
    p = rng.choice([0.5, -0.5, 1, 0, 2, -1.5]) if rng.random() < .5 else short(rng, unif(rng, -2.5, 2.5), 8)
    a = g_pos(rng, 0.3, 6)
    b = 0 if rng.random() < .2 else short(rng, a * unif(rng, -0.9, 0.9), 10)
    return p, a, b, g_loc(rng), g_scale(rng)


def gh_typ(p, a, b):
    g = mp.sqrt((a + b) * (a - b))
    return b / g * (1 + abs(p)) / max(g, 1), 1 + 1 / g


add('genhyperbolic', 'p a b loc scale', g_gh, RR, gh_lp, loc='loc', scale='scale', typ=gh_typ, slow=True)


def gig_lp(z, p, b):
    if z == 0:
        return NINF
    return xl(p - 1, z) - b * (z + 1 / z) / 2 - _cached(("gig", p, b), lambda: mp.log(2 * mp.besselk(p, b)))


def gig_typ(p, b):
    m = (p - 1 + mp.sqrt((p - 1) ** 2 + b * b)) / b
    return m, m / mp.sqrt(b + abs(p) + 1) + m / 10


add('geninvgauss', 'p b loc scale',
    mk(lambda r: g_real(r, 6, (0, 1, -1, 0.5, -0.5, 2)), pos(0.2, 15), g_loc, g_scale), RP, gig_lp,
    loc='loc', scale='scale', typ=gig_typ, slow=True)


def gpd_supp(xi):
    return (mp.zero, INF) if xi >= 0 else (mp.zero, -1 / xi)


def gpd_lp(z, xi):
    if xi == 0:
        return -z
    return xl(-(1 + 1 / xi), 1 + xi * z)


add('genpareto', 'xi mu sigma', mk(g_xi, g_loc, g_scale), gpd_supp, gpd_lp,
    sf=lambda z, xi: mp.exp(-z) if xi == 0 else (1 + xi * z) ** (-1 / xi),
    loc='mu', scale='sigma', typ=lambda xi: (0.7, 0.7) if xi >= 0 else (min(0.7, -1 / xi / 2), min(0.7, -1 / xi / 3)),
    maxmom=lambda xi: 1 / xi if xi > 0 else INF)

add('gompertz', 'c scale', mk(pos(0.02, 12), g_scale), RP,
    lambda z, c: mp.log(c) + c + z - c * mp.exp(z),
    sf=lambda z, c: mp.exp(-c * mp.expm1(z)), scale='scale',
    typ=lambda c: (mp.log1p(0.7 / c), mp.log1p(0.7 / c) / 2))

add('gumbel_max', 'loc scale', mk(g_loc, g_scale), RR, lambda z: -z - mp.exp(-z),
    cdf=lambda z: mp.exp(-mp.exp(-z)), sf=lambda z: -mp.expm1(-mp.exp(-z)), loc='loc', scale='scale', typ=lambda: (0, 1.2))
add('gumbel_min', 'loc scale', mk(g_loc, g_scale), RR, lambda z: z - mp.exp(z),
    sf=lambda z: mp.exp(-mp.exp(z)), cdf=lambda z: -mp.expm1(-mp.exp(z)), loc='loc', scale='scale', typ=lambda: (0, 1.2))

add('half_logistic', 'loc scale', mk(g_loc, g_scale), RP,
    lambda z: mp.log(2) - z - 2 * mp.log1p(mp.exp(-z)),
    cdf=lambda z: mp.tanh(z / 2), sf=lambda z: 2 / (mp.exp(z) + 1), loc='loc', scale='scale', typ=lambda: (1, 1))

add('hypsecant', 'loc scale', mk(g_loc, g_scale), RR, lambda z: -mp.log(mp.pi) - mp.log(mp.cosh(z)),
    cdf=lambda z: 2 / mp.pi * mp.atan(mp.exp(z)), sf=lambda z: 2 / mp.pi * mp.atan(mp.exp(-z)),
    loc='loc', scale='scale', typ=lambda: (0, 1.2))

add('invchi2', 'nu', mk(pos(0.4, 40, (1, 2, 3, 4, 5))), RP,
    lambda z, nu: (-(nu / 2) * mp.log(2) - lg(nu / 2) - (nu / 2 + 1) * mp.log(z) - 1 / (2 * z)) if z > 0 else NINF,
    cdf=lambda z, nu: Q(nu / 2, 1 / (2 * z)), sf=lambda z, nu: P(nu / 2, 1 / (2 * z)),
    typ=lambda nu: (1 / (nu + 1), 1 / (nu + 1)), maxmom=lambda nu: nu / 2)

add('invgamma', 'a loc scale', mk(pos(0.2, 30, (1, 2, 3, 4, 5, 0.5)), g_loc, g_scale), RP,
    lambda z, a: (-(a + 1) * mp.log(z) - 1 / z - lg(a)) if z > 0 else NINF,
    cdf=lambda z, a: Q(a, 1 / z), sf=lambda z, a: P(a, 1 / z),
    loc='loc', scale='scale', typ=lambda a: (1 / (a + 0.5), 1 / (a + 0.5)), maxmom=lambda a: a)


def ig_cdf(z, m):
    return Phi((z / m - 1) / mp.sqrt(z)) + mp.exp(2 / m) * Phi(-(z / m + 1) / mp.sqrt(z))


add('invgauss', 'm loc scale', mk(pos(0.1, 12), g_loc, g_scale), RP,
    lambda z, m: (-mp.log(2 * mp.pi * z ** 3) / 2 - (z - m) ** 2 / (2 * m * m * z)) if z > 0 else NINF,
    cdf=ig_cdf, sf=lambda z, m: Phi(-(z / m - 1) / mp.sqrt(z)) - mp.exp(2 / m) * Phi(-(z / m + 1) / mp.sqrt(z)),
    loc='loc', scale='scale', typ=lambda m: (m / (1 + m), m / (1 + m)))

add('kumaraswamy', 'a b', mk(pos(0.15, 20), pos(0.15, 20)), R01,
    lambda z, a, b: mp.log(a * b) + xl(a - 1, z) + xl(b - 1, 1 - z ** a),
    sf=lambda z, a, b: (1 - z ** a) ** b, typ=lambda a, b: ((1 - mpf(2) ** (-1 / b)) ** (1 / a), 0.15 / mp.sqrt(1 + a * b)))

add('laplace', 'loc scale', mk(g_loc, g_scale), RR, lambda z: -abs(z) - mp.log(2),
    cdf=lambda z: mp.exp(z) / 2 if z < 0 else 1 - mp.exp(-z) / 2,
    sf=lambda z: mp.exp(-z) / 2 if z > 0 else 1 - mp.exp(z) / 2, loc='loc', scale='scale', typ=lambda: (0, 1))

add('levy', 'mu sigma', mk(g_loc, g_scale), RP,
    lambda z: (-mp.log(2 * mp.pi) / 2 - 1 / (2 * z) - 3 * mp.log(z) / 2) if z > 0 else NINF,
    cdf=lambda z: mp.erfc(mp.sqrt(1 / (2 * z))), sf=lambda z: mp.erf(mp.sqrt(1 / (2 * z))),
    loc='mu', scale='sigma', typ=lambda: (1, 0.9), maxmom=lambda: half())

add('loggamma', 'k theta', mk(pos(0.1, 30), g_scale), RR, lambda z, k: k * z - mp.exp(z) - lg(k),
    cdf=lambda z, k: P(k, mp.exp(z)), sf=lambda z, k: Q(k, mp.exp(z)), scale='theta',
    typ=lambda k: (mp.log(k), 1 / mp.sqrt(k) + 1 / k))

add('logistic', 'loc scale', mk(g_loc, g_scale), RR, lambda z: -abs(z) - 2 * mp.log1p(mp.exp(-abs(z))),
    cdf=lambda z: 1 / (1 + mp.exp(-z)), sf=lambda z: 1 / (1 + mp.exp(z)), loc='loc', scale='scale', typ=lambda: (0, 1.5))

add('loglogistic', 'beta scale', mk(pos(0.3, 12, (1, 2, 3, 4)), g_scale), RP,
    lambda z, b: mp.log(b) + xl(b - 1, z) - 2 * mp.log1p(z ** b),
    cdf=lambda z, b: z ** b / (1 + z ** b), sf=lambda z, b: 1 / (1 + z ** b), scale='scale',
    typ=lambda b: (1, 0.9 / b if b > 1 else 0.9), maxmom=lambda b: b)

add('lognormal', 'mu sigma', mk(lambda r: g_real(r, 6), pos(0.05, 3)), RP,
    lambda z, s: (lphi(mp.log(z) / s) - mp.log(s) - mp.log(z)) if z > 0 else NINF,
    cdf=lambda z, s: Phi(mp.log(z) / s), sf=lambda z, s: Phi(-mp.log(z) / s),
    std=lambda mu, s: (mp.zero, mp.exp(mu), (s,)), typ=lambda s: (1, min(s, 1) * 0.9))

add('maxwell', 'loc scale', mk(g_loc, g_scale), RP,
    lambda z: xl(2, z) - z * z / 2 + mp.log(2 / mp.pi) / 2,
    cdf=lambda z: P(mpf(3) / 2, z * z / 2), sf=lambda z: Q(mpf(3) / 2, z * z / 2),
    loc='loc', scale='scale', typ=lambda: (1.5, 0.7))

add('nakagami', 'nu loc scale', mk(pos(0.1, 25), g_loc, g_scale), RP,
    lambda z, nu: mp.log(2) + nu * mp.log(nu) - lg(nu) + xl(2 * nu - 1, z) - nu * z * z,
    cdf=lambda z, nu: P(nu, nu * z * z), sf=lambda z, nu: Q(nu, nu * z * z), loc='loc', scale='scale',
    typ=lambda nu: (mp.sqrt(nu / (nu + 0.5)), 0.5 / mp.sqrt(nu + 0.3)))


# noncentral families: Poisson mixtures
def _pois_mix(lam2, term):
    """sum_j exp(-lam2) lam2^j/j! * term(j), summed outward from the largest weight."""
    if lam2 == 0:
        return term(0)
    eps = mpf(10) ** (-mp.dps - 5)
    j0 = int(mp.floor(lam2))
    w0 = mp.exp(-lam2 + j0 * mp.log(lam2) - lg(j0 + 1))
    tot = mp.zero
    w = w0
    j = j0
    while True:
        t = w * term(j)
        tot += t
        if (t < eps * tot or t == 0) and j > 2 * lam2 + 10:
            break
        j += 1
        w = w * lam2 / j
    w = w0
    for j in range(j0 - 1, -1, -1):
        w = w * (j + 1) / lam2
        tot += w * term(j)
    return tot


def ncx2_lp(z, k, lam):
    if z == 0:
        return NINF if k > 2 else (INF if k < 2 else -lam / 2 - mp.log(2))
    return mp.log(_pois_mix(lam / 2, lambda j: mp.exp((k / 2 + j - 1) * mp.log(z) - z / 2 - (k / 2 + j) * mp.log(2) - lg(k / 2 + j))))


add('ncx2', 'k lam', mk(pos(1, 20), pos(0.1, 30)), RP, ncx2_lp,
    cdf=lambda z, k, lam: _pois_mix(lam / 2, lambda j: P(k / 2 + j, z / 2)),
    sf=lambda z, k, lam: _pois_mix(lam / 2, lambda j: Q(k / 2 + j, z / 2)),
    typ=lambda k, lam: (k + lam, mp.sqrt(2 * (k + 2 * lam))), slow=True)


def ncf_std(a, b, nc):
    return mp.zero, b / a, (a / 2, b / 2, nc / 2)


def ncf_lp(z, a, b, h):
    if z == 0:
        return NINF if a > 1 else (INF if a < 1 else -h - lbeta(a, b))
    return mp.log(_pois_mix(h, lambda j: mp.exp((a + j - 1) * mp.log(z) - (a + b + j) * mp.log1p(z) - lbeta(a + j, b))))


add('ncf', 'dfn dfd nc', mk(pos(0.5, 20), pos(0.5, 20, (1, 2, 3, 4, 5)), pos(0.1, 15)), RP, ncf_lp,
    cdf=lambda z, a, b, h: _pois_mix(h, lambda j: I2(a + j, b, z / (1 + z), 1 / (1 + z))),
    sf=lambda z, a, b, h: _pois_mix(h, lambda j: I2(b, a + j, 1 / (1 + z), z / (1 + z))),
    std=ncf_std, typ=lambda a, b, h: ((a + h) / b, (a + h) / b), maxmom=lambda a, b, h: b, slow=True)


def nct_lp(z, df, nc):
    # Kummer form
    x2 = z * z
    y = nc * nc * x2 / (2 * (df + x2))
    c = (df / 2 * mp.log(df) + lg(df + 1) - nc * nc / 2 - df * mp.log(2) - df / 2 * mp.log(df + x2) - lg(df / 2))
    t1 = mp.sqrt(2) * nc * z * mp.hyp1f1(df / 2 + 1, mpf(3) / 2, y) / ((df + x2) * mp.gamma((df + 1) / 2))
    t2 = mp.hyp1f1((df + 1) / 2, half(), y) / (mp.sqrt(df + x2) * mp.gamma(df / 2 + 1))
    return c + mp.log(t1 + t2)


add('nct', 'df nc', mk(pos(0.5, 20, (1, 2, 3, 4)), lambda r: g_real(r, 5, (1, -1, 0.5, 2))), RR, nct_lp,
    typ=lambda df, nc: (nc, 1 + abs(nc) / 3), maxmom=lambda df, nc: df, slow=True)

add('normal', 'mu sigma', mk(g_loc, g_scale), RR, lambda z: lphi(z), cdf=Phi, sf=lambda z: Phi(-z),
    loc='mu', scale='sigma', typ=lambda: (0, 1))

add('pareto', 'b loc scale', mk(pos(0.2, 15, (1, 2, 3, 4)), g_loc, g_scale), lambda b: (mp.one, INF),
    lambda z, b: mp.log(b) - (b + 1) * mp.log(z), sf=lambda z, b: z ** (-b), loc='loc', scale='scale',
    typ=lambda b: (mpf(2) ** (1 / b), 0.7 / b if b > 1 else 0.7), maxmom=lambda b: b)

add('power_normal', 'c loc scale', mk(pos(0.2, 15), g_loc, g_scale), RR,
    lambda z, c: mp.log(c) + lphi(z) + (c - 1) * mp.log(Phi(-z)),
    sf=lambda z, c: Phi(-z) ** c, cdf=lambda z, c: -mp.expm1(c * (mp.log1p(-Phi(z)) if z < 0 else mp.log(Phi(-z)))), loc='loc', scale='scale',
    typ=lambda c: (-mp.log(c) / 2, 1))


def rbw_k(rho):
    g = mp.sqrt(rho * rho * (rho * rho + 1))
    return 2 * mp.sqrt(2) * rho * g / (mp.pi * mp.sqrt(rho * rho + g))


def rbw_cdf(z, rho):
    # int_0^z k/((t^2-rho^2)^2+rho^2) dt by partial fractions over complex roots
    al = mp.sqrt(mp.mpc(rho * rho, rho))      # t^2 = rho^2 + i rho
    # 1/((t^2-rho^2)^2+rho^2) = Im[1/(t^2-al^2)]/rho
    v = (mp.log((al - z) / (al + z)) / (2 * al))
    # int_0^z dt/(t^2-al^2) = (1/(2 al)) log((al - z)/(al + z))
    return rbw_k(rho) * v.imag / rho


add('rel_breitwigner', 'rho scale', mk(pos(0.1, 40), g_scale), RP,
    lambda z, rho: mp.log(rbw_k(rho)) - mp.log((z * z - rho * rho) ** 2 + rho * rho),
    cdf=rbw_cdf, scale='scale', typ=lambda rho: (rho + 0.2, 0.5 if rho > 0.5 else 0.4), maxmom=lambda rho: mpf(3))

add('rice', 'nu sigma', lambda r: (lambda s: (0 if r.random() < .15 else short(r, g_pos(r, 0.05, 8) * s), s))(g_scale(r)), RP,
    lambda z, m: (mp.log(z) - (z - m) ** 2 / 2 + mp.log(mp.besseli(0, z * m) * mp.exp(-z * m))) if z > 0 else NINF,
    cdf=lambda z, m: _pois_mix(m * m / 2, lambda j: P(1 + j, z * z / 2)),
    sf=lambda z, m: _pois_mix(m * m / 2, lambda j: Q(1 + j, z * z / 2)),
    std=lambda nu, s: (mp.zero, s, (nu / s,)), scale='sigma*', typ=lambda m: (mp.sqrt(m * m + 1), 0.8), slow=True)


def slash_lp(z):
    if z == 0:
        return mp.log(1 / (2 * SQ2PI()))
    return mp.log(-mp.expm1(-z * z / 2)) - 2 * mp.log(abs(z)) - mp.log(2 * mp.pi) / 2


def slash_cdf(z):
    if z == 0:
        return half()
    return Phi(z) + mp.expm1(-z * z / 2) / (z * SQ2PI())


add('slash', '', mk(), RR, slash_lp, cdf=slash_cdf, sf=lambda z: slash_cdf(-z), typ=lambda: (0, 2), maxmom=lambda: mp.one)


def t_tail(z, df):     # P(T > z), z > 0
    return I2(df / 2, half(), df / (df + z * z), z * z / (df + z * z)) / 2


add('studentt', 'df', mk(pos(0.3, 60, (1, 2, 3, 4))), RR,
    lambda z, df: lg((df + 1) / 2) - lg(df / 2) - mp.log(df * mp.pi) / 2 - (df + 1) / 2 * mp.log1p(z * z / df),
    cdf=lambda z, df: half() if z == 0 else (t_tail(-z, df) if z < 0 else 1 - t_tail(z, df)),
    sf=lambda z, df: half() if z == 0 else (t_tail(z, df) if z > 0 else 1 - t_tail(-z, df)),
    typ=lambda df: (0, 1.2), maxmom=lambda df: df)


def g_tn(rng):
    r = rng.random()
    if r < 0.1:
        return (float('-inf'), float('inf'))
    if r < 0.25:
        return (float('-inf'), short(rng, unif(rng, -6, 6)))
    if r < 0.4:
        return (short(rng, unif(rng, -6, 6)), float('inf'))
    a = short(rng, unif(rng, -8, 8), 12)
    if r < 0.5:
        b = -a if a < 0 else a + 1
    else:
        b = a + logu(rng, 1e-2, 10)
    return a, b


def _Pint(a, b):
    """Phi(b) - Phi(a) without one-sided cancellation."""
    if a > 0:
        return Phi(-a) - Phi(-b)
    return Phi(b) - Phi(a)


def tn_typ(a, b):
    c = min(max(mp.zero, a), b)
    w = mp.one
    if a > 0:
        w = 1 / (a + 1)
    if b < 0:
        w = 1 / (1 - b)
    if mp.isfinite(a) and mp.isfinite(b):
        w = min(w, (b - a) / 3)
    if c == a:
        c = a + w
    if c == b:
        c = b - w
    return c, w


add('truncnorm', 'a b', g_tn, lambda a, b: (a, b), lambda z, a, b: lphi(z) - mp.log(_Pint(a, b)),
    cdf=lambda z, a, b: _Pint(a, z) / _Pint(a, b), sf=lambda z, a, b: _Pint(z, b) / _Pint(a, b), typ=tn_typ)


# Tukey lambda: solved in probability space
def tl_Q(p, q, lam):
    if lam == 0:
        return mp.log(p) - mp.log(q)
    return (p ** lam - q ** lam) / lam


def tl_cdf(z, lam):
    """Solve Q(p) = z for p by bisection on logit scale then Newton; returns (p, 1-p)."""
    if z == 0:
        return half(), half()
    if z > 0:
        p, q = tl_cdf(-z, lam)
        return q, p
    if lam == 0:
        e = mp.exp(z)
        return e / (1 + e), 1 / (1 + e)
    lo, hi = mpf(-40), mp.zero       # log p
    f = lambda lp: tl_Q(mp.exp(lp), -mp.expm1(lp), lam) - z
    while f(lo) > 0:
        lo *= 4
    for _ in range(60):
        mid = (lo + hi) / 2
        if f(mid) > 0:
            hi = mid
        else:
            lo = mid
        if hi - lo < 1e-6 * abs(lo):
            break
    lp = (lo + hi) / 2
    for _ in range(60):
        p = mp.exp(lp)
        q = -mp.expm1(lp)
        d = (p ** (lam - 1) + q ** (lam - 1)) * p
        step = (tl_Q(p, q, lam) - z) / d
        lp -= step
        if abs(step) < mpf(10) ** (-mp.dps + 3) * max(1, abs(lp)):
            break
    p = mp.exp(lp)
    return p, -mp.expm1(lp)


def tl_lp(z, lam):
    if lam > 0 and abs(z) >= 1 / lam:
        if lam < 1:
            return NINF
        return mp.zero - (mp.log(2) if lam == 1 else mp.zero)
    p, q = tl_cdf(z, lam)
    return -mp.log(p ** (lam - 1) + q ** (lam - 1))


add('tukeylambda', 'lam loc scale', mk(lambda r: g_xi(r, -1.0, 3.0), g_loc, g_scale),
    lambda lam: (-1 / lam, 1 / lam) if lam > 0 else (NINF, INF), tl_lp,
    cdf=lambda z, lam: tl_cdf(z, lam)[0], sf=lambda z, lam: tl_cdf(z, lam)[1],
    loc='loc', scale='scale', typ=lambda lam: (0, 1) if lam <= 0 else (0, 0.4 / lam),
    maxmom=lambda lam: -1 / lam if lam < 0 else INF, slow=True)


def g_unif(rng):
    a = g_loc(rng)
    return a, a + g_scale(rng)


add('uniform', 'a b', g_unif, R01, lambda z: mp.zero, cdf=lambda z: z, sf=lambda z: 1 - z,
    std=lambda a, b: (a, b - a, ()), typ=lambda: (0.5, 0.2))

add('weibull_max', 'k loc scale', mk(pos(0.3, 12), g_loc, g_scale), lambda k: (NINF, mp.zero),
    lambda z, k: mp.log(k) + xl(k - 1, -z) - (-z) ** k,
    cdf=lambda z, k: mp.exp(-(-z) ** k), sf=lambda z, k: -mp.expm1(-(-z) ** k), loc='loc', scale='scale',
    typ=lambda k: (-mp.log(2) ** (1 / k), mp.log(2) ** (1 / k) / (1 + k)))
add('weibull_min', 'k loc scale', mk(pos(0.3, 12), g_loc, g_scale), lambda k: (mp.zero, INF),
    lambda z, k: mp.log(k) + xl(k - 1, z) - z ** k,
    sf=lambda z, k: mp.exp(-z ** k), cdf=lambda z, k: -mp.expm1(-z ** k), loc='loc', scale='scale',
    typ=lambda k: (mp.log(2) ** (1 / k), mp.log(2) ** (1 / k) / (1 + k)))


# ------------------------------------------------------------- x generation
def gen_z(rng, d, shape):
    """A point of the standardised variable, plus its stratum label."""
    a, b = d.supp_z(shape)
    c, w = d.typ(shape)
    c, w = float(c), float(w)
    fa, fb = float(a), float(b)
    r = rng.random()
    if r < 0.45:                       # bulk
        z = c + w * rng.gauss(0, 1.5)
        lab = 'bulk'
    elif r < 0.65:                     # tails
        s = logu(rng, 2.0, 40.0) * w * rng.choice([-1, 1])
        z = c + s
        lab = 'tail'
    elif r < 0.75:                     # far
        z = c + w * logu(rng, 40.0, 1e6) * rng.choice([-1, 1])
        lab = 'far'
    elif r < 0.9:                      # close to a finite end
        ends = [e for e in (fa, fb) if math.isfinite(e)]
        if ends:
            e = rng.choice(ends)
            inward = 1 if e == fa else -1
            z = e + inward * logu(rng, 1e-12, 0.5) * max(w, 1e-3)
            lab = 'nearend'
        else:
            z = c + w * rng.choice([-1, 1]) * logu(rng, 1e-9, 0.1)
            lab = 'centre'
    else:
        z = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, c, rng.randint(-10, 10)])
        lab = 'special'
    return short(rng, z), lab


def gen_x(rng, d, p):
    """A library-level x (exact float) for parameter vector p, with stratum."""
    with mp.workdps(30):
        loc, scale, shape = d.std(*p)
        r = rng.random()
        if r < 0.05:
            return rng.choice([float('inf'), float('-inf')]), 'inf'
        if r < 0.12:
            a, b = d.supp_z(shape)
            ends = [e for e in (a, b) if mp.isfinite(e)]
            if ends:
                return float(loc + scale * rng.choice(ends)), 'end'
        z, lab = gen_z(rng, d, shape)
        x = float(loc + scale * mpf(z))
        return short(rng, x, rng.choice([12, 24, 53, 53])), lab
