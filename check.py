#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--repo DIR] [-v]

Analyses the current source of /repo for one property.  Exit 0: held;
exit 1 and a VIOLATION line: broken; exit 2: the analysis lost its subject."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.core import Ctx, AnchorError, Project  # noqa
from sa.interp import Budget  # noqa


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def analyse(prop, project, tier="quick", seed=1):
    mod = importlib.import_module("rules.%s" % prop.lower())
    ctx = Ctx(prop, project, tier, seed)
    mod.check(ctx)
    return ctx, mod


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        project = Project(a.repo)
        ctx, mod = analyse(a.prop, project, a.tier, seed)
        selftest = None
        if a.tier == "thorough":
            from sa import selftest as st
            selftest = st.run(a.prop, a.repo)
    except AnchorError as e:
        print("ERROR property=%s analysis lost its subject: %s" % (a.prop, e))
        return 2
    except SyntaxError as e:
        print("ERROR property=%s source does not parse: %s" % (a.prop, e))
        return 2
    except Budget as e:
        print("ERROR property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        tb = traceback.format_exc().splitlines()
        print("\n".join(tb if a.v and len(tb) < 30 else tb[:6] + tb[-12:]))
        print("ERROR property=%s internal error of the analysis" % a.prop)
        return 2
    known = [k for k in load_known() if k["property"] == a.prop and k["status"] == "known"]
    real, listed = [], []
    for v in ctx.violations:
        hit = None
        for k in known:
            if k["rule"] == v["rule"] and k["construct"] == v["construct"] and k.get("key", "") == v["key"]:
                hit = k
        if hit:
            listed.append((hit, v))
        else:
            real.append(v)
    wall = time.time() - t0
    by_rule = {}
    for rule, construct, key, ok in ctx.obligations:
        d = by_rule.setdefault(rule, {"rule": ctx.rules.get(rule, ""), "obligations": 0, "held": 0, "constructs": []})
        d["obligations"] += 1
        d["held"] += ok
        c = construct + (" [%s]" % key if key else "")
        if c not in d["constructs"]:
            d["constructs"].append(c)
    n = len(ctx.obligations)
    held = sum(1 for o in ctx.obligations if o[3])
    cov = {
        "explanation": (
            "Static analysis of the current source tree: %d obligations of %d rules were decided over "
            "%d modules; %d functions were followed by the path sensitive dataflow analysis "
            "(%d exit states, %d statements, %d calls)." % (
                n, len(by_rule), len(project.modules), len(ctx.functions),
                ctx.paths, ctx.steps, ctx.calls)),
        "obligations": n,
        "discharged": held,
        "rules": by_rule,
        "functions_followed": sorted(ctx.functions),
        "known_findings": [h["what"] for h, _ in listed],
    }
    if selftest is not None:
        selftest.pop("details", None)
        cov["selftest"] = selftest
    evidence = {
        "property": a.prop, "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": seed, "level": "other", "coverage": cov,
        "assumptions": ctx.assumptions, "wall_s": round(wall, 3),
        "violations": len(real)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % a.prop), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for h, v in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, h["what"], v["where"]))
    if a.v:
        for r, d in sorted(by_rule.items()):
            print("  %-28s %3d/%3d %s" % (r, d["held"], d["obligations"], d["rule"][:90]))
    if real:
        rp = os.path.join("evidence", "%s.replay.json" % a.prop)
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump(real, f, indent=1)
            f.write("\n")
        for v in real:
            print("  [%s] %s %s: %s" % (v["rule"], v["where"], v["construct"], v["what"]))
            for t in v["trace"]:
                print("      " + t)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    print("OK property=%s obligations=%d rules=%d functions=%d paths=%d (%.1fs)" % (
        a.prop, n, len(by_rule), len(ctx.functions), ctx.paths, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
