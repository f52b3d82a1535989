"""Writes /verif/MANIFEST.json from properties.jsonl, the rule modules and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "liveness over unbounded time and fair schedules; no static argument in reach bounds the retries",
    "N02": "ordering of arbitrary version strings is a value level relation computed by a third party library",
    "N03": "bounds on memory and time depend on run time quantities (file sizes, network speed)",
    "N04": "what a search returns depends on the text analysis and scoring of the whoosh library",
}
TECH = {}
NOTE = ("Decided for the current source on every run: all paths through the named functions (loops unrolled twice, helper functions followed), "
        "with any call allowed to raise unless listed as not raising. Trusts the analysis engine in sa/, the tables of third party calls, "
        "and that code is only reached through the analysed entry points; values computed at run time are abstracted to symbolic terms.")
T = {
    "K01": "path sensitive typestate analysis of the transaction life cycle with exceptions at every call",
    "K02": "effect ordering analysis over all paths of storage commit, rollback and recovery",
    "K03": "path sensitive typestate analysis (lock before read, use of the serial) of storage writers and import",
    "K04": "ownership and freshness (escape) analysis of values crossing the key store's borders",
    "K05": "writer/reader agreement analysis: symbolic token sequences of serialisers against the reader, type table comparison",
    "K06": "path sensitive typestate analysis of the notification loop with exceptions at every call",
    "K07": "guard dominance analysis of mutating routes and configuration values, route/method table queries",
    "K09": "path sensitive typestate analysis of the replication endpoint, effect analysis of secret derivation and token checks",
    "K10": "effect typestate analysis: no changes before refusal unless the transaction is doomed, over all view functions",
    "F01": "taint analysis from network content to stored files: hash verification dominates publication on every path",
    "F02": "guard dominance analysis of destructive operations (volatile/force), over all paths and call sites",
    "P01": "call graph closure and guard dominance: permission checks on every route reaching a mutating or file serving operation",
    "P02": "path sensitive analysis of authentication decisions (accept only with proof), taint analysis of identity",
    "P03": "information flow analysis from secrets to sinks (logs, responses, files, exports)",
    "M01": "path sensitive typestate analysis of the lookup over bases and its whitelist decisions",
    "M02": "path sensitive typestate analysis of the lookup order (visit at most once), guard dominance for results and base names",
    "M03": "path sensitive typestate analysis: every change of links or versions is followed by rebuilding the listing",
    "M04": "interprocedural taint analysis of project names up to keys, caches and lists; regular expression analysis of the normaliser",
    "M05": "taint analysis of outside names up to paths, guard dominance of name validation, character class analysis",
    "M06": "effect completeness analysis of the deletion cascade over all paths",
    "M07": "path sensitive typestate analysis of configuration updates (validate before store)",
    "R01": "path sensitive typestate analysis of upstream retrievals with failures at every call",
    "R02": "acquire/release pairing analysis over all paths with exceptions at every call",
    "R03": "path sensitive typestate analysis of thread loops, exception flow analysis of the shutdown signal",
    "X01": "writer/reader agreement analysis of export and import, refusal dominance over all paths",
    "S01": "sibling cross-check of storage implementations: signatures, path typestates, effect order",
    "C01": "information flow analysis of tokens and credentials in the client",
    "C02": "guard dominance of delete requests by confirmation, error discipline analysis of replies",
    "W01": "path sensitive typestate analysis of the index writer and queue accounting",
    "W02": "taint analysis of template expressions and markup constructors",
}
TECH.update(T)


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
            checks.append({
                "property": i, "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": "static analysis: " + TECH.get(i, "path sensitive dataflow analysis"),
                "level": "other", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa rules check.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
