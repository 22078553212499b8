#!/usr/bin/env python3
"""Decides one property: python3 check.py <ID> [--tier quick|thorough]

Exit 0: every obligation generated from /repo's current source was accepted (or, where the source no longer offers
the anchor a proof needs, the bounded stand-ins found nothing; the evidence says which). Exit 1 and a VIOLATION line:
the property is broken. Exit 2: no answer (the tree does not build)."""
import concurrent.futures as cf
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, replay, registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = common.SEED
    spec = registry.PROPS[prop]
    t0 = time.time()
    os.makedirs(common.BUILD, exist_ok=True)
    os.makedirs(common.EVIDENCE, exist_ok=True)
    for f in (f"{prop}.json", f"{prop}.replay.json"):
        p = os.path.join(common.EVIDENCE, f)
        if os.path.exists(p):
            os.remove(p)

    pool = cf.ThreadPoolExecutor(8)
    jobs = [(s, pool.submit(s.run, tier)) for s in spec.stages()]

    try:
        build_s = replay.build()
    except replay.BuildError as e:
        print(f"{prop}: the replay crate does not build against /repo:\n{e}")
        sys.exit(2)
    if tier == "quick":
        rounds = [(seed, 10, 20.0)]
    else:
        rounds = [(seed + i, 100, 400.0) for i in range(3)]
    explored, fail = [], None
    for sd, secs, scale in rounds:
        r = replay.explore(prop, sd, secs, scale)
        explored.append(r)
        if r["result"] == "fail":
            fail = r
            break

    stages = []
    for s, j in jobs:
        try:
            stages.append(j.result())
        except Exception:
            stages.append(common.StageResult(s.name, [common.Obligation(
                s.name, "-", s.name, "undecided", detail="engine error: " + traceback.format_exc()[-1500:])]))
    obls = [o for s in stages for o in s.obligations]
    failed = [o for o in obls if o.status == "failed"]
    if failed and not fail:
        # Look harder for an input that shows it.
        for k in range(3):
            r = replay.explore(prop, seed + 101 + k, 60, 20.0)
            explored.append(r)
            if r["result"] == "fail":
                fail = r
                break

    line = None
    if fail:
        again = (f"cd {common.VERIF} && {replay.BIN} {prop} --seed {fail['seed']}"
                 + (f" --case {fail['case']}" if fail.get("case") is not None else ""))
        path = replay.write_replay(prop, {
            "property": prop, "kind": "failing input", "seed": fail["seed"], "case": fail.get("case"),
            "message": fail["message"], "reproduce": again,
            "failed_obligations": [vars(o) for o in failed]})
        line = f"VIOLATION property={prop} replay={path}"
        print(f"{prop}: {fail['message'][:1500]}")
    elif failed:
        path = replay.write_replay(prop, {
            "property": prop, "kind": "failed obligation", "obligation": failed[0].name,
            "function": failed[0].function, "verifier_output": failed[0].detail,
            "failed_obligations": [vars(o) for o in failed]})
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"
        for o in failed:
            print(f"{prop}: obligation failed: {o.name} ({o.function}, {o.backend})\n{o.detail[:800]}")

    unb = [o for o in obls if not o.bounded]
    bnd = [o for o in obls if o.bounded]
    n = lambda os_, st=None: sum(o.count for o in os_ if st is None or o.status == st)
    open_ = [o for o in obls if o.status in ("undecided", "lost")]
    degraded = bool(open_)
    level = spec.level if not [o for o in unb if o.status in ("undecided", "lost")] else "other"
    cov = {
        "obligations": n(unb), "discharged": n(unb, "discharged"),
        "functions_under_contract": sorted({o.function for o in unb if o.status == "discharged"}),
        "bounded_stand_ins": [{"name": o.name, "function": o.function, "bound": o.bounded, "status": o.status,
                               "backend": o.backend} for o in bnd],
        "by_backend": {b: n([o for o in unb if o.backend == b and o.status == "discharged"])
                       for b in sorted({o.backend for o in unb})},
        "solver_s": round(sum(o.seconds for o in obls), 2),
        "not_discharged": [{"name": o.name, "function": o.function, "status": o.status, "detail": o.detail[:600]}
                           for o in obls if o.status != "discharged"],
        "checker_cmd": "; ".join(s.cmd for s in stages if s.cmd) or "none",
        "trusted_base": spec.trusted,
        "explanation": spec.explain,
        "evaluations": sum(r.get("evaluations", 0) for r in explored),
        "rule": "replay stage: each evaluation is one generated case (seed, index) of the property's oracle on the real "
                "crate; cases are generated to be valid inputs of the property, so each one exercises it",
        "samples": [{k: r.get(k) for k in ("cmd", "result", "evaluations", "notes", "wall_s")} for r in explored],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted({a for s in stages for a in s.assumptions}) + spec.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if line else 0}
    with open(os.path.join(common.EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for o in open_:
        print(f"{prop}: not decided: {o.name} ({o.function}): {o.status}: {o.detail[:300]}")
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{n(bnd, 'discharged')}/{n(bnd)} bounded, {cov['evaluations']} replay cases, "
          f"{'degraded, ' if degraded else ''}{ev['wall_s']} s (build {build_s:.0f} s)")
    for k in registry.known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if line:
        print(line)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
