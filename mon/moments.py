"""Reference moments and entropy of the continuous models by quadrature of the density."""
from mpmath import mp
from .core import Inconclusive, INF, integrate, mpf


def _points(d, shape, extra=()):
    a, b = d.supp_z(shape)
    c, w = d.typ(shape)
    pts = sorted({t for t in (c - 12 * w, c - 3 * w, c, c + 3 * w, c + 12 * w, *extra) if a < t < b})
    if mp.isinf(a) and mp.isinf(b) and not pts:
        pts = [mp.zero]
    return [a] + pts + [b], w


def expect(d, shape, g, dps, extra=()):
    """E g(Z) for the standardized variable, to about dps digits."""
    if d.name == "tukeylambda":
        return _tl_expect(shape[0], g, dps)
    with mp.workdps(dps + 10):
        pts, w = _points(d, shape, extra)
        a, b = d.supp_z(shape)

        def f(base, off):
            t = base + off
            if t <= a or t >= b:
                if off == 0 or not mp.isfinite(base):
                    return mp.zero
                # t rounded to the end point: the density there in offset form
                with mp.workprec(mp.prec + 64 + max(0, mp.mag(base) - mp.mag(off))):
                    t2 = base + off
                    if t2 <= a or t2 >= b:
                        return mp.zero
                    return mp.exp(d.logpdf_z(t2, *shape)) * g(t2)
            return mp.exp(d.logpdf_z(t, *shape)) * g(t)

        def f2(base, off):
            # keep the offset from a finite end point exact
            if base != 0 and mp.mag(off) < mp.mag(base) - mp.prec // 3 and (base == a or base == b):
                with mp.workprec(mp.prec + mp.mag(base) - mp.mag(off)):
                    return f(base, off)
            return f(base, off)
        return integrate(f2, pts, dps, scale=w)


def _tl_expect(lam, g, dps):
    """Tukey lambda through its quantile function."""
    def q(p, one_minus):
        if lam == 0:
            return mp.log(p) - mp.log(one_minus)
        return (mp.power(p, lam) - mp.power(one_minus, lam)) / lam
    with mp.workdps(dps + 10):
        extra = 0
        if lam != 0:
            extra = max(0, int(-mp.log10(abs(lam)))) + 5

        def f(base, off):
            with mp.extradps(extra):
                if base == 0:
                    return g(q(off, 1 - off)) + g(-q(off, 1 - off))
                return g(q(base + off, 1 - base - off)) + g(-q(base + off, 1 - base - off))
        return integrate(f, [mp.zero, mpf(1) / 2], dps)


def raw(d, shape, n, dps):
    return expect(d, shape, lambda z: z ** n, dps)


def absraw(d, shape, n, dps):
    return expect(d, shape, lambda z: abs(z) ** n, dps, extra=(mp.zero,))


def central(d, shape, n, m, dps):
    return expect(d, shape, lambda z: (z - m) ** n, dps, extra=(m,))


# ------------------------------------------------------------- all moments in one pass
def table(d, shape, kmax, dps):
    """([E Z^k], [E|Z|^k]) for k = 0..kmax to about dps digits, one density evaluation per node.

    The panels are split at 0, so within a panel every integrand has one sign and
    the two tables are sums of the same positive panel integrals."""
    from . import core
    if d.name == "tukeylambda":
        R, A = [], []
        for k in range(kmax + 1):
            a = _tl_expect(shape[0], lambda z: abs(z) ** k, dps)
            A.append(a)
            R.append(mp.zero if k % 2 else a)
        return R, A
    with mp.workdps(dps + 10):
        pts, w = _points(d, shape, (mp.zero,))
        a0, b0 = d.supp_z(shape)
        tol = mpf(10) ** (-dps)
        eps = mpf(10) ** (-dps - 6)
        K = kmax + 1

        def dens(base, off):
            t = base + off
            if (t <= a0 or t >= b0 or (base != 0 and (base == a0 or base == b0)
                                       and mp.mag(off) < mp.mag(base) - mp.prec // 3)):
                if off == 0 or not mp.isfinite(base) or base == 0:
                    return t, mp.zero
                with mp.workprec(mp.prec + 64 + max(0, mp.mag(base) - mp.mag(off))):
                    t = base + off
                    if t <= a0 or t >= b0:
                        return t, mp.zero
                    return t, real(mp.exp(d.logpdf_z(t, *shape)))
            return t, real(mp.exp(d.logpdf_z(t, *shape)))

        def real(p):
            # a complex value means that the node rounded across the end of the support
            return p if isinstance(p, mp.mpf) else mp.zero

        def sweep(S, nodes, memo):
            small, last = 0, None
            for wt, base, off in nodes:
                key = (base, off)
                v = memo.get(key)
                if v is None:
                    v = memo[key] = dens(base, off)
                t, p = v
                t = abs(t)
                q = wt * p
                top = mp.zero
                for k in range(K):
                    S[k] += q
                    if S[k]:
                        top = max(top, q / S[k])
                    q *= t
                if top <= eps and (last is None or top <= last):
                    small += 1
                    if small >= 4 and S[0] != 0:
                        break
                else:
                    small = 0
                last = top

        R = [mp.zero] * K
        A = [mp.zero] * K
        panels = list(zip(pts[:-1], pts[1:]))
        mid = len(panels) // 2
        panels = [ab for _, ab in sorted((abs(i - mid), ab) for i, ab in enumerate(panels))]
        for a, b in panels:
            memo = {}
            prev = None
            for n in (6, 12, 24, 48, 96):
                S = [mp.zero] * K
                if mp.isinf(a) or mp.isinf(b):
                    base, sg = (a, 1) if mp.isinf(b) else (b, -1)
                    right, left = core._es_nodes(dps, n)
                    sweep(S, ((wt, base, sg * x * w) for x, wt in right), memo)
                    sweep(S, ((wt, base, sg * x * w) for x, wt in left), memo)
                    S = [s * w for s in S]
                else:
                    half = (b - a) / 2
                    nodes = core._ts_nodes(dps, n)
                    sweep(S, [(nodes[0][1], a, half)], memo)
                    sweep(S, ((wt, a, half * q) for q, wt in nodes[1:]), memo)
                    sweep(S, ((wt, b, -half * q) for q, wt in nodes[1:]), memo)
                    S = [s * half for s in S]
                if prev is not None and all(abs(x - y) <= tol * (A[k] + x) for k, (x, y) in enumerate(zip(S, prev))):
                    break
                prev = S
            else:
                raise Inconclusive("quadrature did not converge")
            neg = b <= 0
            for k in range(K):
                A[k] += S[k]
                R[k] += -S[k] if neg and k % 2 else S[k]
        if abs(A[0] - 1) > mpf(10) ** (4 - dps):
            raise Inconclusive("reference density does not integrate to one")
        return R, A
