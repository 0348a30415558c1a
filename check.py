#!/usr/bin/env python3
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import build, config, harness, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier == "thorough":
        harness.WITNESS_SECONDS = 400
        harness.UNIT_SECONDS = 1600
        harness.BUDGET, harness.BUDGET2 = 5000, 7000
    t0 = time.time()
    rep = harness.Report(prop)
    try:
        explanation, rule, assumptions = props.CHECKS[prop](rep, tier)
        for flags in config.configurations():
            if rep.violations:
                break
            # the headers ask for a macro: the same once more with the other setting
            harness.BUDGET, harness.BUDGET2 = max(harness.BUDGET, 600), max(harness.BUDGET2, 750)
            build.BASE += flags
            rep.add("further_configurations")
            props.CHECKS[prop](rep, tier)
            del build.BASE[-len(flags):]
            rep.violations = [("%s %s" % (" ".join(flags), k), "compiled with %s: %s" % (" ".join(flags), t)) for k, t in rep.violations]
        return harness.finish(rep, tier, t0, explanation, rule, assumptions)
    except build.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2


sys.exit(main())
