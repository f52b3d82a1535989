"""Exercises a check on variants of the current source, held in memory only:
the rule module's SELFTEST lists (file, old text, new text) edits which break
the property and have to be reported.  The outcome is recorded in the evidence
of the thorough tier; it never raises an alarm about the current tree."""
import importlib
import os
import sys
from multiprocessing import Pool

from .project import Project, AnchorError


def _one(job):
    prop, repo, path, old, new = job
    sys.setrecursionlimit(20000)
    from check import analyse
    with open(os.path.join(repo, path), encoding="utf-8") as f:
        text = f.read()
    if old not in text:
        return "skipped", ""
    changed = text.replace(old, new, 1)
    try:
        P = Project(repo, overlay={path: changed})
        ctx, _ = analyse(prop, P)
    except AnchorError as e:
        return "lost", str(e)
    except SyntaxError as e:
        return "skipped", "syntax error %s" % e
    except Exception as e:  # noqa
        return "error", "%s: %s" % (type(e).__name__, e)
    from check import load_known
    known = {(k["rule"], k["construct"], k.get("key", "")) for k in load_known() if k["status"] == "known"}
    new = [v for v in ctx.violations if (v["rule"], v["construct"], v["key"]) not in known]
    if new:
        v = new[0]
        return "reported", "[%s] %s: %s" % (v["rule"], v["construct"], v["what"])
    return "missed", ""


def run(prop, repo, jobs=8, only=None):
    mod = importlib.import_module("rules.%s" % prop.lower())
    tests = getattr(mod, "SELFTEST", [])
    todo = [(prop, repo, p, o, n) for p, o, n in tests]
    if only is not None:
        todo = [todo[i] for i in only]
    res = []
    if todo:
        with Pool(min(jobs, len(todo))) as pool:
            res = pool.map(_one, todo, chunksize=1)
    out = {"variants": len(todo), "reported": 0, "missed": [], "skipped": 0, "lost": 0, "error": []}
    for j, (kind, what) in zip(todo, res):
        if kind == "missed":
            out["missed"].append("%s: %s -> %s" % (j[2], j[3].strip()[:80], j[4].strip()[:80]))
        elif kind == "error":
            out["error"].append("%s: %s (%s)" % (j[2], j[3].strip()[:80], what))
        else:
            out[kind] += 1
    out["details"] = res
    return out


def main():
    prop = sys.argv[1]
    repo = os.environ.get("SELFTEST_REPO", "/repo")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    out = run(prop, repo, only=[int(x) for x in sys.argv[2:]] or None)
    mod = importlib.import_module("rules.%s" % prop.lower())
    for i, ((p, o, n), (kind, what)) in enumerate(zip(getattr(mod, "SELFTEST", []), out["details"])):
        print("%2d %-9s %s -> %s   %s" % (i, kind.upper() if kind != "reported" else kind, " ".join(o.split())[:70], " ".join(n.split())[:70], what[:130]))


if __name__ == "__main__":
    main()
