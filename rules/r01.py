"""R01: upstream trouble never poisons a mirror's cache."""
from rules.lib import *  # noqa

M = "devpi_server.mirror"
TROUBLE = ("UpstreamError", "UpstreamNotFoundError", "UpstreamNotModified")


def status_of(t):
    """the comparison is about a status code: (op, value)"""
    if t.k == "cmp" and has_attr(t, "status_code"):
        for x in t.a[1:]:
            if x.k == "c":
                return t.a[0], cval(x)
    return None


def status(w, value):
    def br(t, v, st):
        s = status_of(t)
        if s and s[0] == "==":
            return "%s%s" % ("" if v else "!", s[1])
        if t.k == "cmp" and contains(t, lambda x: x.k == "p" and x.a[0] == "cache_serial"):
            # serial < cache_serial
            lt = t.a[0]
            left = contains(t.a[1], lambda x: x.k == "p" and x.a[0] == "cache_serial")
            older = (lt == "<" and not left and v) or (lt == "<=" and left and not v)
            newer = (lt == "<" and not left and not v) or (lt == "<=" and left and v)
            return "older" if older else "newer" if newer else "serial?"
    return br


def excname(p):
    return str(p.exc.a[0]).rpartition(".")[2] if p.exc is not None else ""


def fetch(ctx):
    R = ctx.rule("R01.fetch", "only a complete, parsable answer which is not older than known data becomes the result of a retrieval")
    P = ctx.P
    cls = P.classes[M + ".MirrorStage"]
    f = cls.method("_async_fetch_releaselinks")

    def lab(ev, st):
        if ev.name == "set_result":
            return "result"
        if ev.name == "async_httpget":
            return "get"
        if ev.name == "refresh":
            return "refresh" if len(ev_args(ev)) > 1 and argn(ev, 1, "etag") is not None and argn(ev, 1, "etag") != NONE else "missing"
        if ev.name == "key_projsimplelinks" or ev.name == "_save_cache_links":
            return "store"
        if ev.name in ("parse_index", "parse_index_v1_json"):
            return "parse"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), branch=status(f, None), dedupe=True, rounds=1,
                        raises={"get": ("?",), "parse": ("ValueError", "KeyError")}, events=("set_result", "async_httpget", "refresh", "key_projsimplelinks", "_save_cache_links", "parse_index", "parse_index_v1_json"),
                        follow=lambda g, ev, d: g.cls is cls and g.name.startswith("_async_fetch"))
    ctx.ob(R, f, some(paths, "result"), "no retrieval has a result", key="result")
    for p in paths:
        if p.has("result"):
            i = p.idx("result")
            ok = "200" in p.trace[:i] or p.trace[:i] and "!200" not in p.trace[:i] and "304" not in p.trace[:i] and "404" not in p.trace[:i] and any(status_of(k) for k, v in p.st.facts.items() if v is True)
            ctx.ob(R, f, ok, "an answer which is no success becomes a result", path=p, key="success")
            ctx.ob(R, f, "newer" in p.trace[:i], "an answer older than what was seen becomes a result", path=p, key="older")
            ctx.ob(R, f, "parse" in p.trace[:i], "an answer which was not read becomes a result", path=p, key="parsed")
            ctx.ob(R, f, p.trace.index("get") < i if p.has("get") else False, "a result without an answer", path=p, key="get")
        elif p.kind == "return":
            ctx.ob(R, f, False, "a retrieval ends without a result and without an error", path=p, key="neither")
        ctx.ob(R, f, not p.has("store", "refresh"), "the answer is stored or marked fresh before it was checked", path=p, key="effects")
        if p.has("missing"):
            ctx.ob(R, f, "404" in p.trace[:p.idx("missing")], "an upstream failure is remembered as a missing project", path=p, key="missing")
        if p.kind == "raise":
            n = excname(p)
            if p.has("404"):
                ctx.ob(R, f, n == "UpstreamNotFoundError", "a missing project is not told apart from an unreachable upstream", path=p, key="404")
            elif p.has("304"):
                ctx.ob(R, f, n == "UpstreamNotModified", "an unchanged project is not recognised", path=p, key="304")
            elif p.has("!200", "older"):
                ctx.ob(R, f, n == "UpstreamError", "an upstream failure is not reported as one", path=p, key="failure")
            elif p.has("parse!") :
                ctx.ob(R, f, n == "UpstreamError", "an answer which can't be read is not taken as an upstream failure", path=p, key="unreadable")
    for c in ("result", "missing", "older", "404", "304", "parse!"):
        if not some(paths, c):
            ctx.ob(R, f, False, "the retrieval has no %s case" % c, key="case-" + c)


def links(ctx):
    R = ctx.rule("R01.links", "a failed retrieval leaves the cache alone and gives the cached links as stale, or an error when there are none")
    P = ctx.P
    cls = P.classes[M + ".MirrorStage"]
    f = cls.method("get_simplelinks_perstage")

    def cached(t):
        return contains(t, lambda x: x.k == "call" and call_name(x) == "_load_cache_links")

    def lab(ev, st):
        if ev.name == "run_coroutine_threadsafe":
            return "fetch"
        if ev.name == "refresh":
            return "refresh" if argn(ev, 1, "etag") is not None and argn(ev, 1, "etag") != NONE else "missing"
        if ev.name in ("_update_simplelinks", "_save_cache_links"):
            return "update"
        if ev.name == "get_simplelinks_perstage":
            return "again"
        if ev.name == "expire":
            return "expire"
        if ev.name == "has_project_perstage":
            return "known?"
        if ev.name in ("clear_simplelinks_cache", "set", "add_project_name") and not (ev.name == "set" and len(ev.args) == 0):
            return "store"
        if ev.name == "create_task":
            return "task"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and cached(t) and contains(t, lambda x: x == NONE):
            return "nolinks" if v else "links"
        if t.k == "cmp" and t.a[0] == "is" and has_call(t, "acquire") and contains(t, lambda x: x == NONE):
            return "nolock" if v else "lock"
        if t.k == "cmp" and t.a[0] == "is" and has_call(t, "has_project_perstage"):
            return "unknown" if v else None
        if t.k == "call" and call_name(t) == "has_project_perstage":
            return "exists" if v else "absent"
        if has_attr(t, "_project_list_failed") and t.k in ("attr", "call"):
            return "nolist" if v else "list"
        if t.k == "attr" and t.a[1] == "offline":
            return "offline" if v else "online"
        if t.k == "call" and call_name(t) == "is_expired" and has_attr(t, "cache_retrieve_times"):
            return "expired" if v else "fresh"
        if cached(t) and t.k == "sub" and t.a[1].k == "c" and cval(t.a[1]) == 0:
            return "expired" if v else "fresh"
        if t.k == "cmp" and t.a[0] == "==" and cached(t) and has_call(t, "join_links_data", "set"):
            return "same" if v else "changed"
    ERR = ("TimeoutError",) + TROUBLE
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), branch=br, dedupe=True, rounds=1, max_states=400,
                        raises={"fetch": ERR},
                        events=("run_coroutine_threadsafe", "refresh", "_update_simplelinks", "_save_cache_links", "get_simplelinks_perstage", "expire", "has_project_perstage", "create_task", "_load_cache_links", "acquire", "is_expired", "join_links_data"),
                        follow=lambda g, ev, d: False)
    ok = [p for p in paths if p.has("fetch")]
    bad = [p for p in paths if p.has("fetch!")]
    ctx.ob(R, f, bool(ok), "links are never retrieved", key="fetch")
    ctx.ob(R, f, bool(bad), "failures of the retrieval are not looked at", key="failures")

    def stale(p):
        r = p.ret
        if r is None or r.k != "call" or call_name(r) != "SimpleLinks":
            return False
        kw = dict(call_kwargs(r))
        a = call_args(r)
        s = kw.get("stale", a[1] if len(a) > 1 else None)
        return bool(a) and cached(a[0]) and not has_call(a[0], "result") and s == TRUE

    def from_cache(p):
        r = p.ret
        return r is not None and r.k == "call" and call_name(r) == "SimpleLinks" and bool(call_args(r)) and cached(call_args(r)[0])
    for p in bad:
        tail = p.trace[p.idx("fetch!"):]
        # which failure: the exception classes caught on this path
        ctx.ob(R, f, "update" not in tail and "store" not in tail, "a failed retrieval changes the cached links", path=p, key="update")
        ctx.ob(R, f, "missing" not in tail, "a failed retrieval is remembered as a missing project", path=p, key="missing")
        if p.kind == "return":
            if "again" in tail:
                ctx.ob(R, f, "expire" in tail[:tail.index("again")], "a retrieval is repeated with the same conditions", path=p, key="again")
                continue
            ctx.ob(R, f, "links" in p.trace and "nolinks" not in p.trace, "an upstream failure gives an answer although nothing is cached", path=p, key="empty")
            notmod = "refresh" in tail
            ctx.ob(R, f, from_cache(p) if notmod else stale(p), "the links given after an upstream failure are not the cached ones, marked as stale", path=p, key="stale")
        else:
            ctx.ob(R, f, "links" not in tail, "an upstream failure ends in an error although links are cached", path=p, key="error")
            ctx.ob(R, f, excname(p) in TROUBLE, "an upstream failure is not reported as one", path=p, key="reported")
    # marking as fresh after a failed retrieval: only if upstream said not modified
    def run(exc):
        return trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), branch=br, dedupe=True, rounds=1, max_states=400, raises={"fetch": (exc,)},
                           events=("run_coroutine_threadsafe", "refresh", "_update_simplelinks", "_save_cache_links", "get_simplelinks_perstage", "expire", "has_project_perstage", "create_task", "_load_cache_links", "acquire", "is_expired", "join_links_data"),
                           follow=lambda g, ev, d: False)
    for exc in ("TimeoutError", "UpstreamError", "UpstreamNotFoundError"):
        for p in run(exc):
            if p.has("fetch!"):
                ctx.ob(R, f, "refresh" not in p.trace[p.idx("fetch!"):], "cached links are marked as fresh after %s" % exc, path=p, key="fresh")
                if p.kind == "return":
                    ctx.ob(R, f, "again" in p.trace or stale(p), "links are not marked as stale after %s" % exc, path=p, key="stale")
    for p in paths:
        if p.has("update"):
            ctx.ob(R, f, -1 < p.idx("fetch") < p.idx("update"), "links are changed without a retrieval", path=p, key="source")
        if p.has("refresh") and not p.has("fetch!"):
            ctx.ob(R, f, -1 < p.idx("fetch") < p.idx("refresh"), "links are marked as fresh without a retrieval", path=p, key="fresh")
        if p.has("missing") and not p.has("fetch", "fetch!"):
            i = p.idx("missing")
            ctx.ob(R, f, "absent" in p.trace[:i] and "list" in p.trace[:i], "a project is remembered as missing without an answer of upstream", path=p, key="absent")
            ctx.ob(R, f, p.kind == "raise" and excname(p) == "UpstreamNotFoundError", "a missing project is not reported as such", path=p, key="absent-error")
        if p.kind == "raise" and excname(p) == "UpstreamNotFoundError" and not p.has("fetch", "fetch!"):
            ctx.ob(R, f, p.has("nolinks") and (p.has("fresh") or p.has("missing")), "a project is reported as missing without having been missing", path=p, key="notfound")
        if p.has("nolock"):
            ctx.ob(R, f, not p.has("fetch", "fetch!", "update", "refresh", "missing"), "the cache is changed without holding the lock of the project", path=p, key="lock")
            ctx.ob(R, f, (p.kind == "return" and p.has("links") and stale(p)) or (p.kind == "raise" and excname(p) == "UpstreamError" and p.has("nolinks")), "waiting too long for the lock gives no stale links and no error", path=p, key="waiting")
        if p.has("offline"):
            ctx.ob(R, f, not p.has("fetch", "fetch!", "update"), "upstream is asked in offline mode", path=p, key="offline")
            ctx.ob(R, f, not p.has("nolinks") or p.kind == "raise" and excname(p) == "UpstreamError", "in offline mode a project which is not cached is not reported as unavailable", path=p, key="offline-error")
    # where the flag comes from
    return cls


def projects(ctx):
    R = ctx.rule("R01.projects", "a failed retrieval of the project list leaves the known list alone and is not taken as a list without the project")
    P = ctx.P
    cls = P.classes[M + ".MirrorStage"]
    f = cls.method("_get_remote_projects")

    def lab(ev, st):
        if ev.name == "httpget":
            return "get"
        if ev.name in ("feed", "json"):
            return "parse"
        if ev.name == "set" or ev.name == "mark_current":
            return "store"

    def br(t, v, st):
        s = status_of(t)
        if s and s[0] == "==":
            return "%s%s" % ("" if v else "!", s[1])
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), branch=br, raises={"parse": ("ValueError", "KeyError", "OSError")}, events=("httpget", "feed", "json", "set", "mark_current"), follow=lambda g, ev, d: False)
    for p in paths:
        ctx.ob(R, f, not p.has("store"), "the project list is stored before it is complete", path=p, key="store")
        if p.kind == "return":
            ctx.ob(R, f, p.has("200", "304") and not p.has("parse!"), "an answer which is no success gives a project list", path=p, key="success")
            if p.has("304") and not p.has("200"):
                ctx.ob(R, f, p.ret is not None and has_attr(p.ret, "cache_projectnames"), "an unchanged list is not the known one", path=p, key="304")
            else:
                ctx.ob(R, f, p.has("parse"), "the list was not read", path=p, key="parsed")
        elif p.has("!200") or p.has("parse!"):
            ctx.ob(R, f, excname(p) == "UpstreamError", "a failure of upstream is not reported as one", path=p, key="failure")
    ctx.ob(R, f, any(p.kind == "raise" for p in paths) and any(p.kind == "return" for p in paths), "no failures", key="cases")
    f = cls.method("_update_projects")

    def lab(ev, st):
        if ev.name == "_get_remote_projects":
            return "get"
        if ev.name in ("set", "mark_current") and ev.recv is not None and has_attr(ev.recv, "cache_projectnames"):
            return "store"
        if ev.name == "set":
            return "init"

    def store(e, st):
        if e.kind == "attr" and e.name == "_project_list_failed":
            return "failed" if e.value == TRUE else "worked" if e.value == FALSE else "flag?"
    paths = trace_paths(ctx, f, {"x": lab}, stores={"s": store}, self_cls=cls, default_raises=(), raises={"get": ("UpstreamError", "UpstreamNotFoundError")}, events=("_get_remote_projects", "set", "mark_current"), follow=lambda g, ev, d: False)
    ctx.ob(R, f, some(paths, "get!") and some(paths, "store"), "failures or successes are not looked at", key="cases2")
    for p in paths:
        if p.has("get!"):
            ctx.ob(R, f, not p.has("store", "init"), "a failed retrieval changes the known project names", path=p, key="kept")
            ctx.ob(R, f, p.kind == "return" and p.ret is not None and has_call(p.ret, "_stale_list_projects_perstage") or p.kind == "raise" and excname(p) in TROUBLE, "a failed retrieval does not give the known names", path=p, key="stale")
            ctx.ob(R, f, p.kind == "raise" or p.has("failed"), "a failed retrieval is taken as an answer without the project", path=p, key="failed")
        elif p.kind == "return":
            ctx.ob(R, f, p.has("worked"), "a later success leaves the failure", path=p, key="worked")
            ctx.ob(R, f, p.idx("get") < p.idx("store") or not p.has("store"), "the names are changed before the retrieval", path=p, key="order")
    # offline and unlisted mirrors never replace the names
    g = cls.method("_list_projects_perstage")
    paths = trace_paths(ctx, g, {"update": "_update_projects"}, self_cls=cls, default_raises=(), branch=lambda t, v, st: (t.a[1] if v else None) if t.k == "attr" and t.a[1] in ("offline", "no_project_list") else None, follow=lambda g, ev, d: False)
    for p in paths:
        ctx.ob(R, g, not (p.has("offline", "no_project_list") and p.has("update")), "upstream is asked for its projects although it must not be", path=p, key="offline")


def caches(ctx):
    R = ctx.rule("R01.caches", "links, names and retrieval times are only changed where an answer of upstream or a deletion says so")
    P = ctx.P
    cls = P.classes[M + ".MirrorStage"]
    # who changes the cached links
    n = 0
    allowed = {"_save_cache_links", "clear_simplelinks_cache", "del_project", "del_entry", "del_versiondata", "delete", "_regen_simplelinks"}
    for f in P.iter_funcs("devpi_server.mirror"):
        for c in own_calls(f, "set", "delete", "update"):
            r = c.func.value if isinstance(c.func, ast.Attribute) else None
            if r is None:
                continue
            t = src(r)
            if "key_projsimplelinks" not in t:
                if not (isinstance(r, ast.Name) and any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == r.id and "key_projsimplelinks" in src(x.value) for x in walk_own(f.node))):
                    continue
            n += 1
            caller_ok = f.name in allowed or reached_only_from(P, f, allowed)
            ctx.ob(R, f, caller_ok, "cached links are changed outside of saving and deleting", where(f, c), key="owner")
    ctx.count(R, n, 2, "changes of cached links")
    # the retrieval time is refreshed only when the links were committed
    f = cls.method("_save_cache_links")
    fresh = []
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "refresh":
            inner = [g for g in f.nested.values() if any(y is x for y in ast.walk(g.node))]
            fresh.append((x, inner))
            if inner:
                reg = [c for c in own_calls(f, "on_commit_success") if any(isinstance(a, ast.Name) and a.id == inner[0].name for a in c.args)]
                ctx.ob(R, f, bool(reg), "links are marked as fresh although storing them may fail", where(f, x), key="commit")
            else:
                lam = any(isinstance(y, ast.Lambda) and any(z is x for z in ast.walk(y)) for c in own_calls(f, "on_commit_success") for y in ast.walk(c))
                ctx.ob(R, f, lam, "links are marked as fresh although storing them may fail", where(f, x), key="commit")
    # on a replica only when the data of the primary arrived
    f = cls.method("_update_simplelinks")

    def lab(ev, st):
        if ev.name == "wait_tx_serial":
            return "wait"
        if ev.name == "_load_cache_links":
            return "load"
        if ev.name == "_save_cache_links":
            return "save"
        if ev.name == "on_commit_success":
            return "fresh"
        if ev.name == "refresh":
            return "now"
        if ev.name in ("maplink", "partial"):
            return None

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "is_replica":
            return "replica" if v else "primary"
        if t.k == "call" and call_name(t) == "wait_tx_serial":
            return "arrived" if v else "late"
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), branch=br, rounds=1, events=("wait_tx_serial", "_load_cache_links", "_save_cache_links", "on_commit_success", "refresh", "is_replica"), follow=lambda g, ev, d: False)
    for p in paths:
        ctx.ob(R, f, not p.has("now"), "links are marked as fresh although storing them may fail", path=p, key="now")
        if p.has("replica"):
            ctx.ob(R, f, not p.has("save"), "a replica stores links on its own", path=p, key="replica")
            if p.has("fresh") or p.kind == "return":
                ctx.ob(R, f, p.has("arrived") and p.has("load"), "a replica takes links as fresh which did not arrive from its primary", path=p, key="arrived")
            if p.kind == "raise":
                ctx.ob(R, f, excname(p) in TROUBLE, "missing data of the primary is not reported as unavailable", path=p, key="late")
        elif p.kind == "return":
            ctx.ob(R, f, p.has("save"), "new links are not stored", path=p, key="save")
    # the background update only replaces what changed, with a complete answer
    f = cls.method("_update_simplelinks_in_future")
    paths = trace_paths(ctx, f, {"update": "_update_simplelinks", "refresh": "refresh"}, self_cls=cls, default_raises=(), follow=lambda g, ev, d: False)
    for p in paths:
        ctx.ob(R, f, not p.has("refresh"), "links are marked as fresh although storing them may fail", path=p, key="bg")
    # the bookkeeping itself
    c = P.classes[M + ".ProjectUpdateCache"]
    g = c.methods["refresh"]
    ctx.ob(R, g, any(calls_in(g.node, "time")), "the retrieval time is not the current one", key="time")
    c2 = P.classes[M + ".ProjectNamesCache"]
    for name in ("set", "mark_current"):
        st = [x for x in ast.walk(c2.methods[name].node) if isinstance(x, ast.Attribute) and x.attr == "_timestamp" and isinstance(x.ctx, ast.Store)]
        ctx.ob(R, c2.methods[name], bool(st) or any(calls_in(c2.methods[name].node, "mark_current")), "a fresh list of names is not marked as such", key="mark")
    for name in ("add", "discard", "get", "exists"):
        if name in c2.methods:
            st = [x for x in ast.walk(c2.methods[name].node) if isinstance(x, ast.Attribute) and x.attr in ("_timestamp", "_etag") and isinstance(x.ctx, ast.Store)]
            ctx.ob(R, c2.methods[name], not st and not any(calls_in(c2.methods[name].node, "mark_current")), "the list of names is marked as fresh without a retrieval", key="unmarked")


def reached_only_from(P, f, names):
    cs = [g for g, c in callers(P, f.name, prefixes=("devpi_server",))]
    return bool(cs) and all(g.name in names for g in cs)


def answers(ctx):
    R = ctx.rule("R01.answers", "an unavailable upstream is answered as such (502), a missing project as not found")
    P = ctx.P
    n = 0
    for f in P.iter_funcs("devpi_server.views", "devpi_server.view_auth"):
        for x in walk_own(f.node):
            if not isinstance(x, ast.ExceptHandler) or x.type is None or "UpstreamError" not in src(x.type):
                continue
            n += 1
            codes = [a.value for c in calls_in(x, "abort", "apireturn", "apifatal") for a in c.args if isinstance(a, ast.Constant) and isinstance(a.value, int)]
            codes += [502 for y in ast.walk(x) if isinstance(y, ast.Name) and y.id in ("HTTPBadGateway",)]
            ctx.ob(R, f, codes == [502] or not codes and any(isinstance(y, ast.Raise) for y in ast.walk(x)), "an unavailable upstream is answered with %s" % codes, where(f, x), key="502")
    ctx.count(R, n, 4, "handlers of upstream errors")
    # inside the model only the own stage's error is fatal, and none turns into an empty result
    b = P.classes["devpi_server.model.BaseStage"]
    g = b.methods["op_sro_check_mirror_whitelist"]

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("is", "==") and any(show(x) in ("self", "self.name") for x in t.a[1:]) and contains(t, lambda x: x.k == "elem"):
            return "own" if v else "base"

    def lab(ev, st):
        if ev.name == "has_project_perstage" or ev.name is None or ev.fterm.k == "call" and call_name(ev.fterm) == "getattr":
            return "op"
    paths = trace_paths(ctx, g, {"x": lab}, self_cls=b, default_raises=(), branch=br, rounds=1, raises={"op": ("UpstreamError",)}, events=("has_project_perstage", "getattr", "sro"), follow=lambda g, ev, d: False, yields=lambda *a: None)
    seen = False
    for p in paths:
        if p.has("op!"):
            seen = True
            for i, x in enumerate(p.trace):
                if x == "op!":
                    nxt = p.trace[i + 1:i + 2]
                    ctx.ob(R, g, nxt == ("base",) or nxt == ["base"] or p.kind == "raise" and i >= len(p.trace) - 2, "the unavailable upstream of the index itself gives an empty answer", path=p, key="own")
    ctx.ob(R, g, seen, "failures of upstream are not looked at", key="seen")
    # functions which swallow upstream errors
    for f in P.iter_funcs("devpi_server.model", "devpi_server.mirror"):
        for x in walk_own(f.node):
            if isinstance(x, ast.ExceptHandler) and x.type is not None and any(isinstance(y, ast.Attribute) and y.attr == "UpstreamError" or isinstance(y, ast.Name) and y.id == "UpstreamError" for y in ast.walk(x.type)):
                if f.name in ("_update_projects", "get_simplelinks_perstage", "op_sro_check_mirror_whitelist"):
                    continue
                ctx.ob(R, f, any(isinstance(y, ast.Raise) for y in ast.walk(x)), "an unavailable upstream is taken as an empty answer", where(f, x), key="swallowed")


def check(ctx):
    fetch(ctx)
    links(ctx)
    projects(ctx)
    caches(ctx)
    answers(ctx)


MIRROR = "server/devpi_server/mirror.py"
SELFTEST = [
    (MIRROR, "        if serial < cache_serial:\n", "        if -1 < serial < cache_serial:\n"),
    (MIRROR, """            if response.status_code == 404:
                # immediately""", """            if response.status_code in (404, 503):
                # immediately"""),
    (MIRROR, """                    "serving stale links, because of exception %s",
                    lazy_format_exception(e))
                return self.SimpleLinks(links, stale=True)
            raise
""", """                    "serving stale links, because of exception %s",
                    lazy_format_exception(e))
                self.cache_retrieve_times.refresh(project, e)
                return self.SimpleLinks(links, stale=True)
            raise
"""),
    (MIRROR, """                    "serving stale links, because of exception %s",
                    lazy_format_exception(e))
                return self.SimpleLinks(links, stale=True)
            raise
""", """                    "serving stale links, because of exception %s",
                    lazy_format_exception(e))
            return self.SimpleLinks(links or [], stale=True)
"""),
    (MIRROR, """            self._project_list_failed = True
""", ""),
    (MIRROR, """        except (KeyError, OSError, TypeError, ValueError) as e:
            # incomplete""", """        except TypeError as e:
            # incomplete"""),
    (MIRROR, """        self.keyfs.tx.on_commit_success(on_commit)

    def _load""", """        on_commit()

    def _load"""),
    (MIRROR, """        elif response.status_code != 200:
            raise self.UpstreamError(
                "URL %r returned %s %s",
                self.mirror_url""", """        elif response.status_code >= 500:
            raise self.UpstreamError(
                "URL %r returned %s %s",
                self.mirror_url"""),
    (MIRROR, """            if links is not None:
                threadlog.warn(
                    "serving stale links for %r, getting data timed out after %s seconds",
                    project, self.timeout)
                return self.SimpleLinks(links, stale=True)
            raise""", """            if links is not None:
                threadlog.warn(
                    "serving stale links for %r, getting data timed out after %s seconds",
                    project, self.timeout)
                self.cache_retrieve_times.refresh(project, self.cache_retrieve_times.get_etag(project))
                return self.SimpleLinks(links, stale=True)
            raise"""),
    (MIRROR, """            if links is not None:
                self.keyfs.tx.on_commit_success(partial(""", """            self.cache_retrieve_times.refresh(project, info["etag"])
            if links is not None:
                self.keyfs.tx.on_commit_success(partial("""),
    ("server/devpi_server/model.py", """                if stage is self:
                    raise
                threadlog.warn('Failed""", """                threadlog.warn('Failed"""),
    ("server/devpi_server/view_auth.py", """        except UpstreamError as e:
            abort(self.request, 502, str(e))
        if not verdata:""", """        except UpstreamError:
            verdata = {}
        if not verdata:"""),
]
