"""Workload driver: random + comparison-guided cases, monitors, verdicts, evidence."""
import json
import math
import multiprocessing as mpr
import os
import signal
import sys
import time
import traceback

import mpmath
from mpmath import mp

from . import instr
from .core import Inconclusive, Hang, rng_for, short, time_limit, show

STEP_LIMIT = 20000        # comparisons inside one library call: treated as non-termination
CALL_SECONDS = 15.0
JUDGE_SECONDS = 40.0
STOPV = 6 if not os.environ.get('VERIF_ALL') else 10**9     # stop a subject after this many violations
MAXV = 12 if not os.environ.get('VERIF_ALL') else 400


class Exc:
    """A call that raised."""
    __slots__ = ("type", "msg", "where")

    def __init__(self, e):
        self.type = type(e).__name__
        self.msg = str(e)[:120]
        tb = e.__traceback__
        loc = ""
        for fr in traceback.extract_tb(tb):
            if "/mpsci/" in fr.filename:
                loc = f"{os.path.basename(fr.filename)}:{fr.name}"
        self.where = loc

    def __repr__(self):
        return f"<raised {self.type}: {self.msg} @{self.where}>"


class Calls:
    """Executes library calls for one case; owns precision set-up and limits."""

    def __init__(self, dps=15):
        self.n = 0
        self.dps = dps
        self.log = []

    def __call__(self, fn, *a, **k):
        self.n += 1
        mp.dps = self.dps
        c0 = instr.COUNT[0]
        try:
            with time_limit(CALL_SECONDS):
                return fn(*a, **k)
        except Hang:
            steps = instr.COUNT[0] - c0
            if steps > STEP_LIMIT:
                e = Exc(Hang(f"no result after {STEP_LIMIT}+ decision points"))
                e.type = "NonTermination"
                return e
            raise
        except Exception as e:          # noqa: BLE001 - the monitor records everything
            return Exc(e)
        finally:
            mp.dps = self.dps


class Subject:
    """One monitored object.  Subclasses implement gen/valid/observe/judge."""
    name = "?"
    cost = 1.0
    guided = True
    only = None          # restrict guidance to sites in these files (substring list)
    quick = 60
    thorough = 600
    frozen = ()          # genes guidance must not touch

    def gen(self, rng):
        raise NotImplementedError

    def valid(self, case):
        return True

    def observe(self, case, call):
        raise NotImplementedError

    def judge(self, case, obs):
        raise NotImplementedError


def jsonable(v):
    if isinstance(v, dict):
        return {k: jsonable(t) for k, t in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(t) for t in v]
    if isinstance(v, float):
        return v.hex() if math.isfinite(v) else str(v)
    if isinstance(v, mpmath.mpf):
        return "mpf:" + repr(v._mpf_) if False else mp.nstr(v, 25)
    if isinstance(v, (int, str)) or v is None:
        return v
    return repr(v)


def unjson(v):
    if isinstance(v, dict):
        return {k: unjson(t) for k, t in v.items()}
    if isinstance(v, list):
        return [unjson(t) for t in v]
    if isinstance(v, str):
        if v in ("inf", "-inf", "nan"):
            return float(v)
        if v.startswith(("0x", "-0x")):
            return float.fromhex(v)
    return v


def _num(v):
    return isinstance(v, (int, float, mpmath.mpf)) and not isinstance(v, bool)


def _tof(v):
    try:
        return float(v)
    except (OverflowError, ValueError, TypeError):
        return float("nan")


def corpus(prop, name):
    """Inputs kept from earlier violations (repaired defects, known findings); always executed first."""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus", prop + ".json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [unjson(c) for c in json.load(fh).get(name, [])]


class Runner:
    def __init__(self, subject, prop, seed, tier, deadline, shard=0, nshards=1):
        self.s = subject
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.deadline = deadline
        self.shard = shard
        self.nshards = nshards
        self.sites = {}        # site -> {sign: case}
        self.close = {}        # site -> (absdiff, case, a, b)
        self.viol = []
        self.known = {}
        self.stats = dict(cases=0, probes=0, calls=0, conclusive=0, inconclusive=0,
                          hangs=0, facts=0)
        self.sigs = set()
        self.samples = []
        self.inc_reasons = {}
        self.strata = {}

    # ---- one execution under the monitors
    def execute(self, case, judge=True):
        s = self.s
        calls = Calls(case.get("dps", 15))
        if not judge:
            calls_limit = 4.0
        with instr.record() as tr:
            try:
                obs = s.observe(case, calls)
            except Hang:
                obs = None
                self.stats["hangs"] += 1
            except Inconclusive as e:
                obs = None
                self._inc(str(e))
            finally:
                mp.dps = 15
        self.stats["calls"] += calls.n
        new = self._absorb(case, tr)
        if judge:
            self.stats["cases"] += 1
            if obs is None:
                return new, tr
            try:
                with time_limit(getattr(s, "jsec", JUDGE_SECONDS)):
                    res = s.judge(case, obs)
            except Inconclusive as e:
                self._inc(str(e))
                res = None
            except Hang:
                self._inc("judge time limit")
                res = None
            finally:
                mp.dps = 15
            if res is not None:
                if isinstance(res, tuple):
                    facts, vio = res
                else:
                    facts, vio = 1, res
                self.stats["facts"] += facts
                if facts:
                    self.stats["conclusive"] += 1
                    st = case.get("_s")
                    if st:
                        self.strata[st] = self.strata.get(st, 0) + 1
                if len(self.samples) < 2 and facts:
                    self.samples.append({"subject": s.name, "case": {k: show(v) for k, v in case.items()},
                                         "observed": {str(k): show(v)[:60] for k, v in list(obs.items())[:6]}
                                         if isinstance(obs, dict) else show(obs)[:80]})
                for tag, msg in vio:
                    self._report(case, tag, msg)
        else:
            self.stats["probes"] += 1
        return new, tr

    def _inc(self, why):
        self.stats["inconclusive"] += 1
        self.inc_reasons[why[:60]] = self.inc_reasons.get(why[:60], 0) + 1

    def _report(self, case, tag, msg):
        from . import findings
        k = findings.match(self.prop, self.s.name, tag, case, msg)
        if k is not None:
            self.known[k] = self.known.get(k, 0) + 1
            return
        if len(self.viol) < MAXV:
            self.viol.append(dict(property=self.prop, subject=self.s.name, tag=tag, message=msg,
                                  case=jsonable(case)))

    def _absorb(self, case, tr):
        new = []
        sig = set()
        for site, op, a, b, r in tr:
            if not (_num(a) and _num(b)):
                sg = "T" if r else "F"
                d = None
            else:
                try:
                    d = _tof(a - b) if not (a == b) else 0.0
                except Exception:
                    continue
                sg = "0" if d == 0 else ("+" if d > 0 else ("-" if d < 0 else "n"))
            sig.add((site, sg))
            st = self.sites.get(site)
            if st is None:
                st = self.sites[site] = {}
            if sg not in st:
                st[sg] = case
                new.append((site, sg))
            if d is not None and d == d and d != 0 and not math.isinf(d):
                c = self.close.get(site)
                sc = abs(d) / (abs(_tof(b)) + abs(_tof(a)) + 1e-300)
                if c is None:
                    self.close[site] = [(sc, case, a, b)]
                elif len(c) < 4 or sc < c[-1][0]:
                    c.append((sc, case, a, b))
                    c.sort(key=lambda t: t[0])
                    del c[4:]
        self.sigs.add(frozenset(sig))
        return new

    # ---- gene access
    def genes(self, case):
        out = []
        for k, v in case.items():
            if k.startswith("_") or k in self.s.frozen:
                continue
            if _num(v):
                out.append((k, None))
            elif isinstance(v, (list, tuple)) and v and all(_num(t) for t in v):
                out.append((k, "len"))
                for i in range(min(len(v), 3)):
                    out.append((k, i))
        return out

    def get(self, case, g):
        k, i = g
        v = case[k]
        if i is None:
            return v
        if i == "len":
            return len(v)
        return v[i]

    def put(self, case, g, val):
        k, i = g
        c = dict(case)
        if i is None:
            old = case[k]
            if isinstance(old, int) and k in getattr(self.s, "intgenes", ()) + ("dps",):
                if not math.isfinite(val):
                    return None
                val = int(round(val))
                if k == "dps" and not (15 <= val <= 120):
                    return None
            elif isinstance(val, float) and not math.isfinite(val) and val != val:
                return None
            c[k] = val
        elif i == "len":
            n = int(round(val)) if math.isfinite(val) else 0
            if n < 1 or n > 60:
                return None
            lst = list(case[k])
            lst = (lst * (n // len(lst) + 1))[:n]
            # avoid creating pure repeats only
            lst = [t if j < len(case[k]) else self._jit(t, j) for j, t in enumerate(lst)]
            c[k] = lst
            for k2 in getattr(self.s, "samelen", {}).get(k, ()):
                l2 = list(case[k2])
                if l2:
                    c[k2] = (l2 * (n // len(l2) + 1))[:n]
        else:
            lst = list(case[k])
            old = lst[i]
            if isinstance(old, int) and k in getattr(self.s, "intgenes", ()):
                if not math.isfinite(val):
                    return None
                val = int(round(val))
            lst[i] = val
            c[k] = lst
        c["_s"] = "guided"
        try:
            if not self.s.valid(c):
                return None
        except Exception:
            return None
        return c

    def _jit(self, t, j):
        if isinstance(t, int):
            return t
        return t * (1 + (j % 7) / 16.0)

    # ---- guided phase
    def guided(self, budget, rng):
        s = self.s
        tried = set()
        start = self.stats["probes"]
        gend = self.gend = min(self.deadline, time.time() + (getattr(s, "gtime", None) or (25 if self.tier == "quick" else 240)))

        def left():
            return budget - (self.stats["probes"] - start) > 0 and time.time() < gend and len(self.viol) < STOPV

        def relevant(site):
            if s.only is None:
                return True
            return any(t in site[0] for t in s.only)

        def probe(case, site):
            """returns diff at first occurrence of site, after absorbing"""
            new, tr = self.execute(case, judge=False)
            d = None
            for st, op, a, b, r in tr:
                if st == site and _num(a) and _num(b):
                    try:
                        d = 0.0 if a == b else _tof(a - b)
                    except Exception:
                        d = None
                    break
            if new:
                self._interesting(case, rng)
            return d

        rounds = 0
        while left() and rounds < 4:
            rounds += 1
            work = []
            for site, seen in list(self.sites.items()):
                if not relevant(site):
                    continue
                want = {"+", "-", "0"} - set(seen)
                if "T" in seen or "F" in seen or "n" in seen and len(seen) == 1:
                    continue
                if not want:
                    continue
                onesided = not ({"+", "-"} <= set(seen))
                work.append((0 if onesided else 1, len(seen), site))
            rng.shuffle(work)
            work.sort(key=lambda t: t[:2])
            progress = False
            for _, _, site in work:
                if not left():
                    break
                cands = self.close.get(site, [])[:2]
                for (sc, case, a, b) in cands:
                    key = (site, tuple(sorted((k, str(v)) for k, v in case.items())))
                    if key in tried:
                        continue
                    tried.add(key)
                    progress = True
                    before = set(self.sites[site])
                    for g in self.genes(case):
                        if not left():
                            break
                        self._attack(site, case, a, b, g, probe, left)
                        if {"+", "-", "0"} <= set(self.sites[site]):
                            break
                    if set(self.sites[site]) != before:
                        break
            if not progress:
                break

    def _attack(self, site, case, a, b, g, probe, left):
        v = self.get(case, g)
        fa, fb, fv = _tof(a), _tof(b), _tof(v)
        if not all(math.isfinite(t) for t in (fa, fb, fv)):
            return
        isint = isinstance(v, int)
        d0 = fa - fb
        seen0 = set(self.sites[site])
        cand = []
        # input-to-state
        if fa == fv:
            cand += [fb, math.nextafter(fb, math.inf), math.nextafter(fb, -math.inf), fb + 1, fb - 1, fb * 1.5, fb * 0.5]
        elif fb == fv:
            cand += [fa, math.nextafter(fa, math.inf), math.nextafter(fa, -math.inf), fa + 1, fa - 1]
        elif abs(fa) == abs(fv) and fa != 0:
            cand += [-fb, fb, -fb * 1.01, fb * 1.01]
        else:
            # affine guesses
            cand += [fv - d0, fv + d0]
            if fa != 0 and fb != 0 and fv != 0:
                cand += [fv * fb / fa, fv * fa / fb]
        last = None
        for c in cand:
            if not left() or len(self.sites[site]) >= 3:
                return
            if isint and float(c).is_integer():
                c = int(c)
            nc = self.put(case, g, c)
            if nc is not None:
                probe(nc, site)
        if {"+", "-"} <= set(self.sites[site]):
            if "0" in self.sites[site]:
                return
        # line search for a sign change along this gene
        sign0 = d0 > 0
        mult = [2, 0.5, 8, 0.125, 64, 1 / 64, 1024, 1 / 1024, -1]
        adds = [1, -1, 10, -10]
        moved = False
        ref = None
        for m in [("m", t) for t in mult] + [("a", t) for t in adds]:
            if not left():
                return
            c = fv * m[1] if m[0] == "m" else fv + m[1]
            if isint:
                c = int(round(c))
            nc = self.put(case, g, c)
            if nc is None:
                continue
            d = probe(nc, site)
            if d is None:
                continue
            if d != d0:
                moved = True
            if d == 0:
                return
            if (d > 0) != sign0:
                ref = c
                break
            if m[1] == 64 and not moved:
                return        # this gene does not influence the site
        if ref is None:
            return
        lo, hi = fv, float(ref)
        steps = 40 if not isint else 20
        for _ in range(steps):
            if not left():
                return
            mid = (lo + hi) / 2
            if isint:
                mid = math.floor(mid)
            if mid == lo or mid == hi:
                break
            nc = self.put(case, g, int(mid) if isint else mid)
            if nc is None:
                break
            d = probe(nc, site)
            if d is None:
                break
            if d == 0:
                self._interesting(nc, None)
                break
            if (d > 0) == sign0:
                lo = mid
            else:
                hi = mid
        for c in (lo, hi, hi + (hi - fv) * 0.01, hi + (hi - fv) * 0.5, hi + (hi - fv) * 3):
            nc = self.put(case, g, int(c) if isint else c)
            if nc is not None and time.time() < self.gend:
                self.execute(nc, judge=True)

    def _interesting(self, case, rng):
        """A probe reached a new decision state: judge it and some neighbours."""
        c = dict(case)
        c["_s"] = "guided"
        self.execute(c, judge=True)
        if rng is None:
            return
        for _ in range(2):
            other = self.s.gen(rng)
            mix = dict(c)
            ks = [k for k in c if not k.startswith("_") and k in other and k not in self.s.frozen]
            if not ks:
                return
            k = rng.choice(ks)
            mix[k] = other[k]
            for grp in getattr(self.s, "groups", ()):
                if k in grp:
                    for kk in grp:
                        mix[kk] = other[kk]
            try:
                ok = self.s.valid(mix)
            except Exception:
                ok = False
            if ok and time.time() < self.gend:
                self.execute(mix, judge=True)

    def run(self):
        s = self.s
        n = s.quick if self.tier == "quick" else s.thorough
        t0 = time.time()
        if self.shard == 0:
            for case in corpus(self.prop, s.name):
                c = dict(case)
                c["_s"] = "corpus"
                if s.valid(c):
                    self.execute(c)
        for i in range(n):
            if time.time() > self.deadline or len(self.viol) >= STOPV:
                break
            rng = rng_for(self.seed, self.prop, s.name, self.shard, i)
            try:
                case = s.gen(rng)
            except Inconclusive as e:
                self._inc(str(e))
                continue
            if not s.valid(case):
                continue
            self.execute(case)
        done = i + 1 if n else 0
        if s.guided and instr.instrument:
            budget = getattr(s, "gbudget", None) or (1000 if self.tier == "quick" else 6000)
            self.guided(budget, rng_for(self.seed, self.prop, s.name, self.shard, "g"))
        nstates = sum(len(v) for v in self.sites.values())
        return dict(name=s.name, shard=self.shard, viol=self.viol, known=self.known, stats=self.stats,
                    sites=[(k, sorted(v)) for k, v in self.sites.items()], nstates=nstates,
                    nsigs=len(self.sigs), samples=self.samples, inc=self.inc_reasons,
                    strata=self.strata, planned=n, done=done, wall=time.time() - t0)


_CTX = {}


def _work(i):
    subj, shard, nsh = _CTX["tasks"][i]
    try:
        r = Runner(subj, _CTX["prop"], _CTX["seed"], _CTX["tier"], _CTX["deadline"], shard, nsh)
        return r.run()
    except Exception as e:
        return dict(name=subj.name, error="".join(traceback.format_exception(e))[-1500:])


def run_property(prop, subjects, seed, tier, budget_s, rule, assumptions, outdir, level="exploration"):
    t0 = time.time()
    tasks = []
    for s in subjects:
        nsh = getattr(s, "shards", 1)
        if tier == "thorough":
            nsh = max(nsh, getattr(s, "tshards", nsh))
        for k in range(nsh):
            tasks.append((s, k, nsh))
    tasks.sort(key=lambda t: -t[0].cost)
    _CTX.update(tasks=tasks, prop=prop, seed=seed, tier=tier, deadline=t0 + budget_s)
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1, len(tasks))
    results = []
    if nproc == 1:
        results = [_work(i) for i in range(len(tasks))]
    else:
        ctx = mpr.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            for r in pool.imap_unordered(_work, range(len(tasks)), chunksize=1):
                results.append(r)
    results.sort(key=lambda r: (r["name"], r.get("shard", 0)))
    errors = [r for r in results if "error" in r]
    ok = [r for r in results if "error" not in r]
    viol = [v for r in ok for v in r["viol"]]
    known = {}
    for r in ok:
        for k, c in r["known"].items():
            known[k] = known.get(k, 0) + c
    tot = {}
    for r in ok:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    sites = {}
    for r in ok:
        for k, v in r["sites"]:
            sites.setdefault(k, set()).update(v)
    strata = {}
    for r in ok:
        for k, v in r["strata"].items():
            strata[k] = strata.get(k, 0) + v
    inc = {}
    for r in ok:
        for k, v in r["inc"].items():
            inc[k] = inc.get(k, 0) + v
    samples = []
    for r in ok:
        samples += r["samples"][:1]
    step = max(1, len(samples) // 12)
    # a subject on which the oracle never gave a verdict has not been checked
    blind = [r["name"] for r in ok if r["stats"]["conclusive"] == 0 and r["shard"] == 0]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(
                  evaluations=tot.get("facts", 0),
                  distinct_nontrivial=sum(r["nsigs"] for r in ok),
                  rule=rule,
                  samples=samples[::step][:14],
                  subjects=len({r["name"] for r in ok}),
                  cases_judged=tot.get("cases", 0),
                  cases_conclusive=tot.get("conclusive", 0),
                  cases_inconclusive=tot.get("inconclusive", 0),
                  inconclusive_reasons=inc,
                  library_calls=tot.get("calls", 0),
                  guided_probes=tot.get("probes", 0),
                  watchdog_hangs=tot.get("hangs", 0),
                  decision_sites_reached=len(sites),
                  decision_states_reached=sum(len(v) for v in sites.values()),
                  strata=strata,
                  cut_short=[r["name"] for r in ok if r["done"] < r["planned"]],
                  known_findings=known),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if os.environ.get('VERIF_ALL'):
        print('slowest:', sorted(((round(r['wall'], 1), r['name']) for r in ok), reverse=True)[:12])
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    return ev, viol, known, errors, blind
