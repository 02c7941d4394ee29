#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --setup               build everything the checks use
check.py --replay FILE         run the recorded case of a violation again"""
import json, os, subprocess, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import build, runner, plans  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        wants = plans.all_builds()
        print(f"built in {build.build(wants):.1f} s")
        plans.setup_extra()
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        if d.get("binary") and d.get("config"):
            build.build({d["config"]: [d["binary"]]})
        os.makedirs(runner.SCRATCH, exist_ok=True)
        p = subprocess.run(d["cmd"], cwd=d.get("cwd", runner.SCRATCH), env=dict(runner.run_env(d.get("config")), **d.get("env", {})))
        print(f"(exit {p.returncode})")
        return p.returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    started = time.time()
    plan = plans.PLANS[prop]
    res = runner.Res(prop, tier, seed)
    try:
        b = build.build(plan.builds())
        res.extra["build_seconds"] = round(b, 1)
    except build.BuildError as e:
        lost = build.lost_interface(e, prop)
        if lost is None:
            print("ERROR: " + str(e))
            return 2
        res.violate("what the property is about can no longer be written: " + lost + "\n" + str(e)[:1000],
                      {"cmd": e.how[0], "env": e.how[1], "cwd": build.HARNESS})
        return runner.finish(res, plan.rule, plan.level, plan.assumptions, started)
    plan.run(res)
    return runner.finish(res, plan.rule, plan.level, plan.assumptions, started)


if __name__ == "__main__":
    sys.exit(main())
