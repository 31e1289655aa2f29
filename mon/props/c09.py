"""C09: discrete pmf, cdf, sf and support describe one mass function."""
import itertools
from mpmath import mp
from .. import ddist
from ..cont import bad_number, tol_of, lib, DPS
from ..core import mpf, show, hp, unif, logu
from ..engine import Subject, Exc

RULE = ("one fact = one value of pmf/logpmf/cdf/sf (every method), one support, one support_pmf list or one gauss_kuzmin "
        "quantile compared with the independent mass function; distinct = distinct sets of (comparison site, outcome) "
        "executed inside mpsci")
ASSUMPTIONS = ["reference mass functions in mon/ddist.py (products of elementary terms) state the documented distributions",
               "sums over the mass function are exact up to adaptive precision"]
# computed as a complement: absolute accuracy
ABS = {"hypergeometric.cdf", "negative_hypergeometric.sf", "betabinomial.cdf", "logseries.cdf", "gauss_kuzmin.cdf"}


class S(Subject):
    quick = 1200
    thorough = 8000
    tshards = 2

    def __init__(self, name, tier):
        self.name, self.d, self.m = name, ddist.D[name], lib(name)
        self.only = (f"distributions/{name}.py", "_common", "hypergeometric.py")
        self.intgenes = ("k",) + tuple("p_" + n for n in self.d.params if n in ("n", "ntotal", "ngood", "nsample", "untilnbad"))
        self.gbudget = 400 if tier == "quick" else 4000
        self.gtime = 10 if tier == "quick" else 120
        if name in ("betabinomial", "fishers_noncentral_hypergeometric", "negative_binomial"):
            self.cost = 4.0
            self.quick, self.shards = 500, 2
        self.fns = [f for f in ("pmf", "logpmf", "cdf", "sf") if hasattr(self.m, f)]

    def params(self, case):
        return tuple(case["p_" + n] for n in self.d.params)

    def gen(self, rng):
        p = self.d.gen(rng)
        case = {"p_" + n: v for n, v in zip(self.d.params, p)}
        case["dps"] = rng.choice(DPS)
        case["k"] = ddist.gen_k(rng, self.d, p)
        case["_s"] = "outside" if self.d.pmf_zero(case["k"], p) else "inside"
        if self.name == "gauss_kuzmin":
            case["q"] = rng.choice([0, 1, 0.5, unif(rng, 0.01, 0.99), logu(rng, 1e-12, 0.1), 1 - 2.0 ** -30])
        return case

    def valid(self, case):
        k = case["k"]
        return (isinstance(k, int) and -20 <= k <= (500 if self.name != "gauss_kuzmin" else 10 ** 9)
                and self.d.ok(*self.params(case)) and 0 <= case.get("q", 0) <= 1)

    def observe(self, case, call):
        p, k = self.params(case), case["k"]
        o = {f: call(getattr(self.m, f), k, *p) for f in self.fns}
        if self.name == "binomial":
            o["cdf:sumpmf"] = call(self.m.cdf, k, *p, method="sumpmf")
            o["sf:sumpmf"] = call(self.m.sf, k, *p, method="sumpmf")
        o["support"] = call(self.m.support, *p)
        if not isinstance(o["support"], Exc):
            try:
                o["support"] = list(itertools.islice(iter(o["support"]), 400))
            except TypeError as e:
                o["support"] = Exc(e)
        if hasattr(self.m, "support_pmf"):
            r = call(self.m.support_pmf, *p)
            if not isinstance(r, Exc):
                r = (list(r[0]), list(r[1]))
            o["support_pmf"] = r
        if "q" in case:
            o["invcdf"] = call(self.m.invcdf, case["q"])
            o["invsf"] = call(self.m.invsf, case["q"])
        return o

    def judge(self, case, obs):
        d, p, k, dps = self.d, self.params(case), case["k"], case["dps"]
        lo, hi = d.supp(*p)
        inside = k >= lo and (hi is None or k <= hi)
        out, facts = [], 0
        pm = hp(lambda: d.pmf(k, *p), dps + 5) if inside else mp.zero
        tol = tol_of(dps, 4)
        for f, v in obs.items():
            if f in ("support", "support_pmf", "invcdf", "invsf"):
                continue
            facts += 1
            base, _, meth = f.partition(":")
            ctx = f"{base}({k}, *{p!r}{', method=' + repr(meth) if meth else ''}) at dps={dps}"
            bad = bad_number(v)
            if bad:
                out.append((base, f"{ctx}: {bad}"))
                continue
            with mp.workdps(dps + 15):
                if base == "pmf":
                    ok = (v == 0) if pm == 0 else abs(v - pm) <= tol * pm * (1 + abs(mp.log(pm)))
                    want = pm
                elif base == "logpmf":
                    want = mp.ninf if pm == 0 else mp.log(pm)
                    ok = (v == want) if pm == 0 or v == want else abs(v - want) <= tol * (1 + abs(want) + self.size(p, k))
                else:
                    want = hp(lambda: (ddist.cdf if base == "cdf" else ddist.sf)(d, k, p), dps + 5)
                    if want in (0, 1):
                        ok = v == want or (inside and self.name + "." + base in ABS and abs(v - want) < tol / 1000) \
                            or (pm == 0 and abs(v - want) < tol / 1000) or (inside and abs(v - want) < tol / 1000 and want == 1)
                    elif self.name + "." + base in ABS:
                        ok = abs(v - want) <= tol
                    else:
                        ok = abs(v - want) <= tol * want * (1 + abs(mp.log(want)))
                    if not (-tol / 1000 <= v <= 1 + tol / 1000):
                        ok = False
                if not ok:
                    out.append((base, f"{ctx} = {show(v)}, mass function gives {show(want)}"))
        v = obs["support"]
        facts += 1
        if isinstance(v, Exc):
            out.append(("support", f"support{p!r}: {v!r}"))
        else:
            want = list(range(lo, lo + 400))[:400] if hi is None else list(range(lo, hi + 1))[:400]
            if v != want:
                out.append(("support", f"support{p!r} lists {v[:3]}...{v[-2:]} ({len(v)} values), should be {lo}..{hi}"))
        v = obs.get("support_pmf")
        if v is not None:
            facts += 1
            if isinstance(v, Exc):
                out.append(("support_pmf", f"support_pmf{p!r}: {v!r}"))
            else:
                ks, ps = v
                if ks != list(range(lo, hi + 1)) or len(ps) != len(ks):
                    out.append(("support_pmf", f"support_pmf{p!r} lists {len(ks)} points / {len(ps)} values, support {lo}..{hi}"))
                else:
                    step = max(1, len(ks) // 12)
                    for j in sorted(set(range(0, len(ks), step)) | {0, len(ks) - 1}):
                        ref = hp(lambda: d.pmf(ks[j], *p), dps + 5)
                        with mp.workdps(dps + 15):
                            if not abs(ps[j] - ref) <= tol * ref * (1 + abs(mp.log(ref))):
                                out.append(("support_pmf", f"support_pmf{p!r}: P({ks[j]}) = {show(ps[j])}, should be {show(ref)}"))
                                break
                    with mp.workdps(dps + 15):
                        if abs(mp.fsum(ps) - 1) > tol:
                            out.append(("support_pmf", f"support_pmf{p!r}: masses sum to {show(mp.fsum(ps))}"))
        for f in ("invcdf", "invsf"):
            if f in obs:
                facts += 1
                v, q = obs[f], case["q"]
                bad = bad_number(v)
                ctx = f"{f}({q!r}) at dps={dps}"
                if bad:
                    out.append((f, f"{ctx}: {bad}"))
                    continue
                with mp.workdps(2 * dps + 30):
                    s = 1 - mpf(q) if f == "invcdf" else mpf(q)      # survival probability
                    if s == 0:
                        if v != mp.inf:
                            out.append((f, f"{ctx} = {show(v)}, should be inf"))
                    else:
                        want = 1 / (mpf(2) ** s - 1) - 1
                        if not abs(v - want) <= tol * (1 + abs(want)):
                            out.append((f, f"{ctx} = {show(v)}, should be {show(want)}"))
        return facts, out

    def size(self, p, k):
        return sum(abs(float(t)) for t in p) + abs(k)


def _pz(self, k, p):
    lo, hi = self.supp(*p)
    return k < lo or (hi is not None and k > hi)


ddist.M.pmf_zero = _pz


def subjects(tier):
    return [S(n, tier) for n in ddist.D]
