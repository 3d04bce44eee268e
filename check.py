#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property from /repo's current source.
exit 0 held, exit 1 + VIOLATION line, exit 3 analysis broken (anchor vanished, unit not analysed, rule with no instance)."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    t0 = time.time()
    import prog, lib
    try:
        P = prog.load()
        ctx = lib.Ctx(P, pid)
        ctx.tier = tier
        m = importlib.import_module("rules." + pid)
        m.check(ctx)
        floor = getattr(m, "FLOOR", 1)
        if len(ctx.obs) < floor:
            raise lib.AnalysisError("%s: only %d rule instances, at least %d are expected" % (pid, len(ctx.obs), floor))
        unk = [o for o in ctx.obs if o["ok"] is None]
        if len(unk) == len(ctx.obs):
            raise lib.AnalysisError("%s: no rule instance could be decided" % pid)
    except lib.AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    # identical instances reached twice (e.g. through two units) count once
    seen, obs = {}, []
    for o in ctx.obs:
        k = (o["rule"], o["inst"])
        if k in seen:
            p = seen[k]
            if o["ok"] is False and p["ok"] is not False:
                p.update(o)
            continue
        seen[k] = o
        obs.append(o)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    kset = {(f["property"], f["rule"], f["inst"]): f for f in known}
    bad, kn = [], []
    for o in obs:
        if o["ok"] is False:
            f = kset.get((pid, o["rule"], o["inst"]))
            (kn if f else bad).append((o, f) if f else o)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nd = sum(1 for o in obs if o["ok"] is not None)
    unk = [o for o in obs if o["ok"] is None]
    cov = {
        "explanation": m.EXPL,
        "translation_units": len(P.tus), "functions_in_program": len(P.fns), "records": len(P.recs),
        "functions_analysed": len(ctx.visited),
        "analysed": sorted(P.rel(P.fns[u]) + ":" + str(P.fns[u]["line"]) + " " + P.fns[u]["n"] for u in ctx.visited if u in P.fns)[:400],
        "obligations": len(obs), "discharged": sum(1 for o in obs if o["ok"] is True),
        "undecided": [dict(rule=o["rule"], inst=o["inst"], detail=o["detail"][:400]) for o in unk][:200],
        "instances": [("ok " if o["ok"] else "UNDECIDED " if o["ok"] is None else "BROKEN ") + o["rule"] + " :: " + o["inst"] for o in obs][:1500],
        "rules": sorted({o["rule"] for o in obs}),
        "checker_cmd": "python3 check.py %s" % pid,
        "trusted_base": ["clang 18 front end", "analyzer/extract.cpp", "analyzer/evalr.py models of std:: and nlohmann:: operations", "the tables in analyzer/rules/%s.py" % pid],
    }
    cov.update(ctx.counts)
    level = getattr(m, "LEVEL", "other")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": getattr(m, "ASSUME", []) + ctx.notes, "wall_s": round(time.time() - t0, 3), "violations": len(bad)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for o, f in kn:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (pid, o["inst"], f["what"], o["where"]))
    if verbose:
        for o in obs:
            if o["ok"] is not True or "-vv" in sys.argv:
                print({True: "ok", False: "BAD", None: "UND"}[o["ok"]], o["rule"], "|", o["inst"], "|", o["detail"][:700], "|", o["where"])
    print("%s: %d obligations, %d discharged, %d undecided, %d broken, %d known; %d functions analysed; %.1fs" %
          (pid, len(obs), sum(1 for o in obs if o["ok"] is True), len(unk), len(bad), len(kn), len(ctx.visited), time.time() - t0))
    if bad:
        rp = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(HERE, rp), "w") as fh:
            for o in bad:
                fh.write("rule: %s\ninstance: %s\nwhere: %s\ndetail: %s\n\n" % (o["rule"], o["inst"], o["where"], o["detail"]))
                print("  %s | %s | %s | %s" % (o["rule"], o["inst"], o["where"], o["detail"][:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
