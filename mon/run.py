"""Entry point:  python -m mon.run C01 [--replay FILE]"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.normpath(os.path.join(HERE, ".."))


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    from . import instr
    instr.install()
    import mpsci            # noqa: F401
    if not os.path.realpath(mpsci.__file__).startswith(os.path.realpath(instr.REPO)):
        print("error: mpsci not loaded from the working tree", mpsci.__file__)
        return 2
    mod = importlib.import_module(f".props.{prop.lower()}", package="mon")
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (
        mod.BUDGET.get(tier) if hasattr(mod, "BUDGET") else (240 if tier == "quick" else 780))
    from . import engine, findings
    outdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    if "--replay" in argv:
        return replay(prop, mod, argv[argv.index("--replay") + 1])
    subs = mod.subjects(tier)
    if "--only" in argv:
        pat = argv[argv.index("--only") + 1].split(",")
        subs = [s for s in subs if s.name in pat or s.name.split(".")[0] in pat or any(q.endswith("*") and s.name.startswith(q[:-1]) for q in pat)]
    ev, viol, known, errors, blind = engine.run_property(
        prop, subs, seed, tier, budget, mod.RULE, mod.ASSUMPTIONS, outdir)
    cov = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {cov['subjects']} subjects, {cov['cases_judged']} cases judged "
          f"({cov['cases_inconclusive']} inconclusive), {cov['evaluations']} facts checked, "
          f"{cov['guided_probes']} guided probes, {cov['decision_states_reached']} decision states at "
          f"{cov['decision_sites_reached']} sites, {ev['wall_s']} s")
    if cov["inconclusive_reasons"]:
        print("  inconclusive:", cov["inconclusive_reasons"])
    if cov["cut_short"]:
        print("  cut short by the time budget:", cov["cut_short"])
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {findings.describe(k)}")
    if viol:
        rp = os.path.join(outdir, f"replay-{prop}.json")
        with open(rp, "w") as fh:
            json.dump(viol, fh, indent=1)
        if os.environ.get("VERIF_ALL"):
            for e in errors[:3]:
                print("MONITOR ERROR in", e["name"], e["error"])
            agg = {}
            for v in viol:
                agg.setdefault((v["subject"], v["tag"]), []).append(v)
            for k, vs in agg.items():
                print(k, len(vs))
                for v in vs[:int(os.environ["VERIF_ALL"])]:
                    print("     ", v["message"][:260])
            return 1
        for v in viol[:20]:
            print(f"  {v['subject']} [{v['tag']}] {v['message']}")
            print(f"     case={v['case']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors:
            print("MONITOR ERROR in", e["name"], "\n", e["error"])
        return 3
    if blind:
        print("INCONCLUSIVE: no verdict was reached for", blind)
        return 4
    return 0


def replay(prop, mod, path):
    from . import engine
    subs = {}
    for t in ("quick", "thorough"):
        for s in mod.subjects(t):
            subs[s.name] = s
    bad = 0
    for v in json.load(open(path)):
        s = subs[v["subject"]]
        case = engine.unjson(v["case"])
        r = engine.Runner(s, prop, 1, "quick", time.time() + 600)
        r.execute(case)
        print(s.name, case, "->", [x["message"] for x in r.viol] or "held")
        bad += len(r.viol)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
