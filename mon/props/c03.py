"""C03: the log forms are the logarithms of the density and of the tail probabilities."""
from mpmath import mp
from .. import cdist
from ..cont import bad_number, tol_of, sens, ContSubject, ref_tail, gen_point
from ..core import mpf, show, hp, INF, NINF
from . import c02

RULE = ("one fact = one value of logpdf, logcdf or logsf compared with the logarithm of the independent density or "
        "tail probability (-inf outside the support), or with the logarithm of the library's own pdf/cdf/sf; "
        "distinct = distinct sets of (comparison site, outcome) executed inside mpsci")
ASSUMPTIONS = c02.ASSUMPTIONS


class LogPdf(c02.S):
    fns = ("logpdf",)
    what = "logpdf"

    def observe(self, case, call):
        o = super().observe(case, call)
        o["pdf"] = call(self.m.pdf, case["x"], *self.params(case))
        return o

    def judge(self, case, obs):
        facts, out = super().judge(case, obs)
        lp, pd = obs["logpdf"], obs["pdf"]
        if facts and not out and not bad_number(lp) and not bad_number(pd) and pd >= 0:
            facts += 1
            with mp.workdps(case["dps"] + 15):
                l2 = mp.log(pd) if pd > 0 else NINF
                ok = lp == l2
                if not ok and not mp.isinf(lp) and not mp.isinf(l2):
                    ok = abs(lp - l2) <= tol_of(case["dps"], 5) * (1 + abs(l2))
                if not ok and mp.isfinite(lp) and mp.isfinite(l2):
                    ok = abs(lp - l2) <= 100 * sens(self.d, self.d.logpdf, case["x"], self.params(case), case["dps"])
                if not ok and self.name in c02.FLOOR and pd < 1:
                    ok = True          # density formula with cancellation; judged against the model above
                if not ok:
                    x, p = case["x"], self.params(case)
                    out = [("logpdf-vs-pdf", f"logpdf({x!r}, *{p!r}) = {show(lp)} but log(pdf) = {show(l2)} at dps={case['dps']}")]
        return facts, out


class LogTail(ContSubject):
    fns = ("logcdf", "logsf")
    quick = 800
    thorough = 15000
    tshards = 2

    def __init__(self, name):
        super().__init__(name)
        self.name = name + ".tails"

    def observe(self, case, call):
        p = self.params(case)
        return {f: call(getattr(self.m, f), case["x"], *p) for f in self.have}

    def judge(self, case, obs):
        d, p, x, dps = self.d, self.params(case), case["x"], case["dps"]
        out = []
        for f in self.have:
            got = obs[f]
            ctx = f"{f}({x!r}, *{p!r}) at dps={dps}"
            bad = bad_number(got)
            if bad:
                out.append((f, f"{ctx}: {bad}"))
                continue
            which = f[3:]
            ref = ref_tail(d, which, x, p, 2 * dps + 5)
            with mp.workdps(2 * dps + 15):
                if ref == 0:
                    lref = NINF
                else:
                    oth = ref_tail(d, "sf" if which == "cdf" else "cdf", x, p, dps + 5)
                    lref = mp.log1p(-oth) if oth < mpf(1) / 4 else mp.log(ref)
                if got == lref:
                    continue
                ok = False
                if mp.isfinite(got) and mp.isfinite(lref):
                    err = abs(got - lref)
                    # relative accuracy of the logarithm is lost only where it is itself near 0
                    ok = err <= tol_of(dps) * (mpf(10) ** -5 + abs(lref)) * 10
                    if not ok and not mp.isinf(x):
                        ok = err <= 100 * sens(d, lambda t, *q: mp.log(getattr(d, which)(t, *q)), x, p, dps)
            if not ok:
                out.append((f, f"{ctx} = {show(got)}, log of the probability is {show(lref)}"))
        return len(self.have), out


def subjects(tier):
    a = [s for s in (LogPdf(n) for n in cdist.D) if s.have]
    return a + [s for s in (LogTail(n) for n in cdist.D) if s.have]
