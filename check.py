#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current sources."""
import os, sys, time, traceback
import vlib, props


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = next((p for p in props.PROPS if p["id"] == pid), None)
    if spec is None or "check" not in spec:
        print("no check for", pid, file=sys.stderr)
        return 2
    c = spec["check"]
    with vlib.Work() as w:
        if callable(c.get("run")):
            viol, counts, extra = c["run"](w.dir, tier, c)
        else:
            r = vlib.analyse(c["analysis"], w.dir, env=c.get("env"))
            viol = r["violations"]
            rules = c.get("rules")
            if rules:
                viol = [v for v in viol if v["rule"] in rules]
            if c.get("filter"):
                viol = [v for v in viol if c["filter"](v)]
            counts = dict(r["counts"])
            counts["source_files"] = r["files"]
            extra = {k: v[:50] for k, v in r["lists"].items()}
            if r["lists"].get("overflow"):
                raise vlib.Broken("path exploration gave up in %s" % r["lists"]["overflow"])
    cov = {"counts": counts, "explanation": c["explain"], "rule": c.get("rule", c["explain"])}
    cov.update(extra)
    return vlib.finish(pid, viol, cov, c.get("level", "other"), c.get("assume", []), t0, tier, c.get("min"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.Broken as e:
        print("ANALYSIS-BROKEN:", e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
