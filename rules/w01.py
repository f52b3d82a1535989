"""W01: the search index is only changed by whole batches."""
from rules.lib import *  # noqa

WH = "devpi_web.whoosh_index"
WRITES = ("add_document", "update_document", "delete_by_term", "delete_by_query", "delete_document")
QUIET = ("debug", "info", "warn", "exception", "error")


def is_writer(t):
    return has_call(t, "writer") or has_param(t, "writer")


def batches(P):
    """functions which open a writer of the index of projects"""
    for f in P.iter_funcs("devpi_web"):
        if f.module.name == WH and any(True for _ in own_calls(f, "writer")):
            yield f


def batch(ctx):
    R = ctx.rule("W01.batch", "a batch which fails is discarded, its writer released and the failure passed on to the queue; one which succeeds is committed once, "
                 "after all of it was written")
    P = ctx.P
    f = P.func(WH + ".IndexerThread.handler")
    C = f.cls
    bad = []

    def lab(ev, st):
        if ev.name in ("cancel", "commit") and is_writer(ev.recv):
            return ev.name
        if ev.name == "writer":
            return "open"
        if ev.name in ("_update_project", "_delete_project"):
            w = [a for a in ev_args(ev) if has_call(a, "writer")]
            if not w:
                bad.append(ev)
            return "change"
        if ev.name in WRITES and is_writer(ev.recv):
            return "change"
        if ev.name in ("preprocess_project", "getstage", "read_transaction", "begin_transaction_in_thread"):
            return "work"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), raises={"change": ("?",), "work": ("?",), "open": ("?",)}, dedupe=False,
                        events=("writer", "cancel", "commit") + WRITES, stop=("_update_project", "_delete_project", "get_project_ix", "get_indexer"), max_states=400)
    ctx.ob(R, f, some(paths, "change") and some(paths, "open"), "batches are not written", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("change!", "work!") or p.has("cancel"), "a batch which failed is not discarded", key="cancel")
    check_paths(ctx, R, f, paths, lambda p: not p.has("change!", "work!") or not p.has("commit"), "parts of a batch which failed are committed", key="no-commit")
    check_paths(ctx, R, f, paths, lambda p: not p.has("change!", "work!", "open!") or p.kind == "raise", "the queue is not told that a batch failed", key="told")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.trace.count("commit") == 1 and not p.has("cancel"), "a batch is not committed exactly once", key="commit")
    check_paths(ctx, R, f, paths, lambda p: not p.has("commit") or not any(x in p.trace[p.idx("commit"):] for x in ("change", "work")), "a batch is committed before all of it was written", key="whole")
    check_paths(ctx, R, f, paths, lambda p: p.trace.count("open") <= 1, "a batch uses more than one writer", key="one")
    for ev in bad:
        ctx.ob(R, f, False, "a change is not written with the writer of the batch", where(f, ev.node), key="writer")
    # nobody else writes
    n = 0
    for g in batches(P):
        n += 1
        ok = g is f or g.name == "update_schema" or any(x is f or x.name == "update_schema" for x in callers_of(P, g))
        ctx.ob(R, g, ok, "the search index is changed outside of the worker of the queue", key="only")
    ctx.count(R, n, 2, "functions which open a writer of the index")


def callers_of(P, g):
    from sa.core import graph
    G = graph(P)
    return [f for f, outs in G.out.items() if g in outs]


def names(ctx):
    R = ctx.rule("W01.names", "each project of a batch is indexed anew or, when it or its index is gone, removed; all from one transaction and with its serial")
    f = ctx.P.func(WH + ".IndexerThread.handler")
    recs = []

    def lab(ev, st):
        if ev.name in ("_update_project", "_delete_project"):
            recs.append(ev)
            return "update" if ev.name == "_update_project" else "delete"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            if has_call(t, "preprocess_project"):
                return "gone" if v else "there"
            if has_call(t, "getstage"):
                return "no-stage" if v else "stage"

    def it(what, t, st):
        if has_param(t, "names"):
            return "name" if what == "next" else "end"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), branch=br, iters=it, dedupe=False,
                        stop=("_update_project", "_delete_project", "get_project_ix", "get_indexer", "preprocess_project", "getstage"), max_states=400)
    ctx.ob(R, f, some(paths, "update") and some(paths, "delete"), "projects are not indexed or removed", key="instances")
    check_paths(ctx, R, f, paths, handled("name", {"update", "delete"}, "end"), "a project of a batch is skipped", key="all")
    check_paths(ctx, R, f, paths, lambda p: not p.has("no-stage") or not p.has("update"), "a project of a removed index is indexed", key="no-stage")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("name") or p.has("end"), "the projects of a batch are not looked at", key="looked")

    def follows_state(p):
        last = None
        for x in p.trace:
            if x in ("gone", "there"):
                last = x
            elif x == "update" and last != "there":
                return False
            elif x == "delete" and last == "there":
                return False
            elif x == "name":
                last = None
        return True
    check_paths(ctx, R, f, paths, follows_state, "a removed project is indexed, or an existing one removed", key="state")
    for ev in recs:
        g = ev.targets[0] if ev.targets else None
        ser = [a for a in ev_args(ev) if has_attr(a, "at_serial")]
        ctx.ob(R, f, bool(ser) and all(has_call(a, "read_transaction") or contains(a, lambda x: x.k == "enter") or has_attr(a, "tx", "at_serial") for a in ser),
               "a project is not indexed with the serial of the transaction it was read in", where(f, ev.node), key="serial")
        if ev.name == "_delete_project":
            a = argn(ev, 0, "indexname")
            b = argn(ev, 1, "project")
            ctx.ob(R, f, a is not None and has_param(a, "indexname") and b is not None and (b.k == "elem" or has_param(b, "names")), "another project is removed than the one which is gone", where(f, ev.node), key="which")
        else:
            ctx.ob(R, f, argn(ev, 0, "project") is not None and has_call(ev_args(ev)[0], "preprocess_project"), "a project is indexed with data which was not read for it", where(f, ev.node), key="data")


def items_of(d):
    """(key, value) pairs of a dict display"""
    return [kv for kv in d.a[0] if isinstance(kv, tuple) and len(kv) == 2]


def path_ok(t):
    return t is not None and has_call(t, "normalize_name")


def replace(ctx):
    R = ctx.rule("W01.replace", "the entries of a project are removed, by its normalised name, in the batch which adds the new ones and before them; all new entries belong to the "
                 "project in one group; a project is only skipped when its entry is as new as the data")
    P = ctx.P
    C = P.cls(WH + ".Index")
    f = C.method("_update_project")
    dels, adds = [], []

    def lab(ev, st):
        if ev.name == "delete_by_term":
            dels.append(ev)
            return "delete"
        if ev.name == "add_document" and is_writer(ev.recv or NONE):
            adds.append(ev)
            return "add"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<=") and has_param(t, "serial"):
            lo, hi = t.a[1], t.a[2]
            if t.a[0] == "<":
                older = (not has_param(lo, "serial")) if has_param(hi, "serial") else None
                if has_param(hi, "serial") and not has_param(lo, "serial"):
                    return "older" if v else "current"
                return "newer" if v else "notnewer"
            if has_param(lo, "serial") and not has_param(hi, "serial"):
                return "current" if v else "older"
            return "notnewer" if v else "newer"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "document_number"):
            return "new" if v else None
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "stored_fields"):
            return "new" if v else None

    def grp(what, cm, st):
        if has_call(cm, "group"):
            return "group" if what == "enter" else "endgroup"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), branch=br, with_label=grp, events=("delete_by_term", "add_document"), dedupe=False, rounds=1, max_states=600, quiet=QUIET)
    ctx.ob(R, f, some(paths, "add") and some(paths, "delete"), "projects are not indexed", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("add") or 0 <= p.idx("delete") < p.idx("add") and p.trace.count("delete") == 1, "new entries are added without removing the old ones of the project first", key="replace")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("add") or p.has("current", "newer"), "a project is skipped although its entry is missing or older than the data", key="skip")
    check_paths(ctx, R, f, paths, lambda p: not p.has("delete") or p.has("add") or p.kind == "raise", "the entries of an existing project are removed without adding new ones", key="lost")
    check_paths(ctx, R, f, paths, lambda p: not p.has("add") or (0 <= p.idx("group") < p.idx("add") and (not p.has("endgroup") or p.last("add") < p.idx("endgroup"))), "the entries of a project are not kept together", key="group")
    check_paths(ctx, R, f, paths, lambda p: not p.has("older", "new") or p.kind == "raise" or p.has("add"), "an older entry is kept", key="older")
    # the main document carries path, serial and type
    stores = {}
    trace_paths(ctx, f, {}, self_cls=C, default_raises=(), stores=[("s", lambda ev, st: ev.kind == "sub" and cstr(ev.name) and stores.setdefault(cstr(ev.name), ev.value) is None)], max_states=300, rounds=1)

    def value(t):
        if t is not None and t.k == "sub" and cstr(t.a[1]) in stores:
            return stores[cstr(t.a[1])]
        return t
    keys = set()
    for ev in dels:
        k = value(argn(ev, 1, "text"))
        ctx.ob(R, f, cstr(argn(ev, 0, "fieldname")) == "path", "entries are removed by another field than the path of the project", where(f, ev.node), key="by-path")
        ctx.ob(R, f, path_ok(k), "the entries of another spelling of the project's name stay in the index", where(f, ev.node), key="norm")
        keys.add(k)
    for ev in adds:
        p = ev.kwargs.get("path")
        d = ev.kwargs.get("**")
        if p is None and d is not None and d.k == "dict":
            p = next((v for k, v in items_of(d) if cstr(k) == "path"), None)
        if p is None:
            continue
        ctx.ob(R, f, value(p) in keys, "an entry is added for another path than the one which was removed", where(f, ev.node), key="same-path")
    ctx.ob(R, f, stores.get("path") in keys, "the entry of a project is stored under another path than the one which was removed", key="main-path")
    ctx.ob(R, f, stores.get("serial") is not None and has_param(stores["serial"], "serial"), "the entry of a project lacks the serial it was read at", key="main-serial")
    # all parts of the documentation are indexed or none
    g = C.method("_delete_project")
    dels = []

    def dl(ev, st):
        if ev.name == "delete_by_term":
            dels.append(ev)
            return "delete"
    paths = trace_paths(ctx, g, {"x": dl}, self_cls=C, default_raises=(), events=("delete_by_term",))
    check_paths(ctx, R, g, paths, lambda p: p.has("delete"), "the entries of a removed project stay in the index", key="removed")
    for ev in dels:
        k = argn(ev, 1, "text")
        ctx.ob(R, g, cstr(argn(ev, 0, "fieldname")) == "path" and path_ok(k) and has_param(k, "indexname") and has_param(k, "project"), "the entries of a removed project stay in the index", where(g, ev.node), key="removed-path")
        if "searcher" in g.params():
            pass
    # same form of path
    ups = [fmt_of(x) for x in keys if x is not None]
    dls = [fmt_of(argn(ev, 1, "text")) for ev in dels]
    if all(ups) and all(dls) and ups and dls:
        ctx.ob(R, g, {shape(x) for x in ups} == {shape(x) for x in dls}, "removed projects are looked up by another form of path", key="same-form")


def fmt_of(t):
    """the constant text of a formatted string"""
    if t is None:
        return None
    cs = [cval(x) for x in subterms(t) if x.k == "c" and isinstance(cval(x), str) and "/" in cval(x)]
    return cs[0] if cs else None


def shape(s):
    import re
    return re.sub(r"\{\w*\}|%s", "*", s).replace("/*/*/*", "/*/*").rstrip("/")


def enqueue(ctx):
    R = ctx.rule("W01.enqueue", "every project handed to the index is queued with its index and serial, unless it belongs to a mirror and its entry is as new as "
                 "its last change; removed projects are handed to the same queue")
    P = ctx.P
    C = P.cls(WH + ".IndexingSharedData")
    f = C.method("extend")
    puts = []

    def lab(ev, st):
        if ev.name == "put" and "queue" in show(ev.recv):
            puts.append(ev)
            return "put"
        if ev.name == "append":
            return "collect"

    def it(what, t, st):
        if what == "next" and has_param(t, "projects"):
            return "project"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), iters=it, events=("put", "append"), max_states=500, dedupe=False,
                        branch=lambda t, v, st: ("left" if v else "none-left") if t.k in ("list", "call", "p", "phi") and not has_param(t, "projects") else ("empty" if not v else None) if t.k == "p" and t.a[0] == "projects" else None)
    ctx.ob(R, f, some(paths, "put"), "projects are not queued", key="instances")
    for ev in puts:
        parts = items(ev.args[0]) if ev.args else ()
        ctx.ob(R, f, len(parts) == 4 and has_attr(parts[0], "is_from_mirror") and contains(parts[1], lambda x: x.k == "un") and has_param(parts[1], "serial") and has_attr(parts[2], "indexname"),
               "a batch is queued without its index or with another serial", where(f, ev.node), key="item")
    # the remainder
    loop = [x for x in walk_own(f.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "put" for y in ast.walk(x))]
    allputs = [x for x in own_calls(f, "put")]
    inner = [y for l in loop for y in ast.walk(l) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "put"]
    if loop:
        last = [x for x in allputs if x not in inner and x.lineno > loop[-1].lineno]
        ctx.ob(R, f, bool(last), "the last projects of a list are not queued", key="remainder")
    add = C.method("add")
    puts = []
    paths = trace_paths(ctx, add, {"x": lab}, self_cls=C, default_raises=(), events=("put",))
    check_paths(ctx, R, add, paths, lambda p: p.trace.count("put") == 1, "a project is not queued", key="add")
    for ev in puts:
        parts = items(ev.args[0]) if ev.args else ()
        ctx.ob(R, add, len(parts) == 4 and has_attr(parts[0], "is_from_mirror") and contains(parts[1], lambda x: x.k == "un") and has_param(parts[1], "serial") and has_attr(parts[2], "indexname") and
               len(items(parts[3])) == 1 and has_attr(parts[3], "name"), "a project is queued without its index or with another serial", where(add, ev.node), key="add-item")
    q = C.method("queue_projects")

    def ql(ev, st):
        if ev.name == "append" and any(a.k in ("elem", "sub") or "project" in show(a) for a in ev.args):
            return "collect"
        if ev.name == "add" and ev.args and has_param(ev.args[-1], "at_serial"):
            return "add"
        if ev.name == "extend":
            return "extend"
        if ev.name == "clear":
            return "clear"

    def qit(what, t, st):
        if has_param(t, "projects"):
            return "project" if what == "next" else "end"
        if what == "next" and (has_call(t, "items", "values") or "mirror_projects" in show(t)):
            return "rest"

    def qb(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<=") and has_call(t, "get_last_project_change_serial_perstage"):
            lo, hi = t.a[1], t.a[2]
            mine_hi = has_call(hi, "get_last_project_change_serial_perstage")
            if t.a[0] == "<=" and not mine_hi:      # change <= existing
                return "uptodate" if v else "stale"
            if t.a[0] == "<" and mine_hi:           # existing < change
                return "stale" if v else "uptodate"
            return "wrong"
        if t.k == "attr" and t.a[1] == "is_from_mirror":
            return "mirror" if v else "private"
    paths = trace_paths(ctx, q, {"x": ql}, self_cls=C, default_raises=(), iters=qit, branch=qb, events=("append", "extend", "clear", "add"), stop=("extend", "add", "get_last_project_change_serial_perstage", "is_from_mirror"), max_states=800, quiet=QUIET + ("time",), dedupe=False)
    ctx.ob(R, q, some(paths, "collect") and some(paths, "add"), "projects are not queued", key="queue-instances")
    check_paths(ctx, R, q, paths, handled("project", {"collect", "add", "uptodate"}, "end"), "a project handed to the index is not queued", key="queued")
    check_paths(ctx, R, q, paths, lambda p: not p.has("wrong"), "a project is skipped by the wrong comparison of serials", key="skip")

    def stale(p):
        for i, x in enumerate(p.trace):
            if x in ("stale", "private") and p.trace[i + 1:i + 2] in ([], ["project"], ["end"]) and p.kind == "return":
                return False
        return True
    check_paths(ctx, R, q, paths, stale, "a project which changed since it was indexed is skipped", key="stale")
    check_paths(ctx, R, q, paths, lambda p: p.kind != "return" or not p.has("collect") or p.last("extend") > p.last("collect") or (p.has("end") and "rest" not in p.trace), "collected projects are not queued", key="flushed")
    ctx.ob(R, q, any(p.has("rest") and p.idx("rest") < p.last("extend") for p in paths), "collected projects are not queued at the end", key="rest")
    check_paths(ctx, R, q, paths, lambda p: not p.has("clear") or 0 <= p.idx("extend") < p.idx("clear"), "collected projects are dropped before they are queued", key="clear")
    # both operations of the index use the queue
    I = P.cls(WH + ".Index")
    for name in ("update_projects", "delete_projects"):
        g = I.method(name)
        paths = trace_paths(ctx, g, {"queue": lambda ev, st: ev.name == "queue_projects" and any(has_param(a, "projects") for a in ev_args(ev))}, self_cls=I, default_raises=(), events=("queue_projects",))
        check_paths(ctx, R, g, paths, lambda p: p.trace.count("queue") == 1, "projects handed to the index are not queued", key=name)


def triggers(ctx):
    R = ctx.rule("W01.triggers", "every event which changes what can be found hands the project to the index: changed or removed versions, documentation uploaded or "
                 "replicated, new names of a mirror")
    P = ctx.P
    M = "devpi_web.main."
    lab = {"update": "update_projects", "delete": "delete_projects"}

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and any(x.k == "p" and x.a[0] == "stage" for x in t.a[1:]):
            return "no-stage" if v else None
        if t.k == "p" and t.a[0] == "metadata":
            return "metadata" if v else "no-metadata"
        if t.k == "call" and call_name(t) == "has_project_perstage":
            return "has" if v else "gone"
        if t.k == "call" and call_name(t) == "is_project_cached":
            return "cached" if v else "not-cached"
        if t.k == "call" and call_name(t) == "file_exists":
            return "file" if v else "no-file"
        if t.k == "cmp" and t.a[0] == "==" and has_str(t, "doczip"):
            return "doczip" if v else "other"
        if t.k == "p" and t.a[0] == "is_from_mirror":
            return "mirror" if v else None
        if t.k == "call" and call_name(t) == "list_versions":
            return "versions" if v else "no-versions"
        if t.k == "call" and call_name(t) in ("get_latest_version", "get_versiondata"):
            return None if v else "no-versions"
    common = dict(default_raises=(), branch=br, quiet=QUIET, stop=("update_projects", "delete_projects", "get_indexer", "is_project_cached", "has_project_perstage", "list_versions", "get_latest_version", "get_versiondata", "file_exists"),
                  events=("update_projects", "delete_projects"))
    n = 0
    f = P.func(M + "devpiserver_on_changed_versiondata")
    paths = trace_paths(ctx, f, lab, **common)
    ctx.ob(R, f, some(paths, "update") and some(paths, "delete"), "changed versions are not indexed", key="instances")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("no-stage", "update", "delete", "no-versions"), "a changed version is not indexed", key="changed")
    check_paths(ctx, R, f, paths, lambda p: not p.has("gone") or p.has("delete"), "a removed project stays in the index", key="gone")
    check_paths(ctx, R, f, paths, lambda p: not p.has("delete") or p.has("gone"), "a project is removed from the index without being gone", key="delete")
    check_paths(ctx, R, f, paths, lambda p: not p.has("metadata") or p.has("no-stage", "update"), "a changed version is not indexed", key="metadata")
    f = P.func(M + "devpiserver_on_upload")
    paths = trace_paths(ctx, f, lab, **common)
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("no-file", "other", "update", "no-stage"), "uploaded documentation is not indexed", key="upload")
    f = P.func(M + "devpiserver_on_replicated_file")
    paths = trace_paths(ctx, f, lab, **common)
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("mirror", "other", "update", "no-stage"), "replicated documentation is not indexed", key="replicated")
    f = P.func(M + "devpiserver_mirror_initialnames")
    paths = trace_paths(ctx, f, lab, **common)
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("update"), "names of a mirror are not indexed", key="names")
    # the data which is indexed
    f = P.func("devpi_web.indexing.preprocess_project")
    paths = trace_paths(ctx, f, {}, default_raises=(), branch=br, stop=("is_project_cached", "has_project_perstage", "get_sorted_versions", "list_versions_perstage", "get_versiondata_perstage", "get_linkstore_perstage", "get_pluginmanager"), max_states=400, rounds=1,
                        stores=[("offline", lambda ev, st: ev.kind == "attr" and ev.name == "offline" and ev.value == TRUE)])
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or (p.ret == NONE) == p.has("gone"), "a removed project is indexed, or an existing one dropped", key="gone-data")
    check_paths(ctx, R, f, paths, lambda p: not p.has("cached") or p.has("offline"), "indexing a project asks the mirrored server", key="offline")


def check(ctx):
    batch(ctx)
    names(ctx)
    replace(ctx)
    enqueue(ctx)
    triggers(ctx)
    ctx.assumptions += ["a Whoosh writer applies all of its changes on commit or none, and releases its lock on commit and cancel",
                        "that items which failed are queued again is decided by R03.queue"]


W = "web/devpi_web/whoosh_index.py"
MN = "web/devpi_web/main.py"
SELFTEST = [
    (W, "            writer.cancel()\n", ""),
    (W, "            # let the queue handle retries\n            raise\n        else:\n", "            return\n        else:\n"),
    (W, "            writer.cancel()\n            # let the queue handle retries\n", "            writer.commit()\n"),
    (W, "            writer.commit()\n\n    def tick", "\n    def tick"),
    (W, "            if count:\n                log.info(\"Committing %s new documents to search index.\" % count)\n            else:\n                log.debug(\"Committing no new documents to search index.\")\n            writer.commit()",
        "            if count:\n                log.info(\"Committing %s new documents to search index.\" % count)\n                writer.commit()\n            else:\n                log.debug(\"Committing no new documents to search index.\")"),
    (W, "                            ix._delete_project(\n                                indexname, name, tx.at_serial, counter, writer,\n                                searcher=searcher)\n                            continue", "                            continue"),
    (W, "                            searcher=searcher)\n                else:\n                    # stage was deleted\n                    for name in names:\n                        ix._delete_project(\n                            indexname, name, tx.at_serial, counter, writer,\n                            searcher=searcher)\n",
        "                            searcher=searcher)\n"),
    (W, "                        ix._update_project(\n                            data, tx.at_serial, counter", "                        ix._update_project(\n                            data, serial, counter"),
    (W, "        writer.delete_by_term('path', data['path'], searcher=searcher)\n", ""),
    (W, "        path = u\"/%s/%s\" % (indexname, normalize_name(project))", "        path = u\"/%s/%s\" % (indexname, project)"),
    (W, "            name=normalize_name(data['name']))\n        existing", "            name=data['name'])\n        existing"),
    (W, "            if existing_serial < serial:\n", "            if existing_serial > serial:\n"),
    (W, "        if names:\n            # note the negated serial for the PriorityQueue\n            self.queue.put((is_from_mirror, -serial, indexname, names))\n            self.last_added = time.time()\n", ""),
    (W, "                    if existing_serial >= project_serial:", "                    if existing_serial <= project_serial:"),
    (W, "        for (indexname, serial), _projects in mirror_projects.items():\n            self.extend(_projects, serial)\n", ""),
    (W, "                    self.extend(_projects, at_serial)\n                    _projects.clear()", "                    _projects.clear()\n                    self.extend(_projects, at_serial)"),
    (W, "        # we just queue the projects and let the thread handle this\n        self.update_projects(projects)", "        pass"),
    (MN, "            delete_project(stage, project)\n            return", "            return"),
    (MN, "    if is_from_mirror:\n        return\n    elif link.rel == \"doczip\":\n        index_project(stage, project)", "    return"),
    ("web/devpi_web/indexing.py", "        # project doesn't exist anymore\n        return", "        # project doesn't exist anymore\n        return dict(name=project.name, user=user, index=index)"),
    (W, "        with writer.group():\n            add_document(**data)\n            next(counter)\n", "        add_document(**data)\n        next(counter)\n        with writer.group():\n"),
    (W, "                add_document(**{\n                    \"path\": data['path'],\n                    \"type\": \"title\",", "                add_document(**{\n                    \"path\": data['name'],\n                    \"type\": \"title\","),
]
