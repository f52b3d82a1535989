"""K09: replication takes place between authenticated nodes of the recorded identity."""
from rules.lib import *  # noqa

RP = "devpi_server.replica"
CF = "devpi_server.config"


def resources(ctx):
    R = ctx.rule("K09.verified", "each replication resource checks the request before it reads any change, and the check lets only requests through "
                 "which are meant for this primary and do not carry another identity")
    C = ctx.P.cls(RP + ".PrimaryChangelogRequest")
    n = 0
    data = ("get_raw_changelog_entry", "get_changes", "Response", "get_connection", "_wait_for_serial", "wait_tx_serial")
    for name, f in sorted(C.methods.items()):
        if not any(src(d.func).rpartition(".")[2] == "view_config" for d in f.deco_calls()):
            continue
        n += 1
        paths = trace_paths(ctx, f, {"verify": "verify_primary", "data": ["get_raw_changelog_entry", "get_connection", "wait_tx_serial", "Response"]},
                            self_cls=C, default_raises=(), raises={"verify": ("pyramid.httpexceptions.HTTPForbidden",)}, dedupe=True)
        ctx.ob(R, f, some(paths, "data"), "no data is handed out", key="instances")
        check_paths(ctx, R, f, paths, precedes("verify", "data"), "changes are handed out before the request was checked", key="first")
        check_paths(ctx, R, f, paths, lambda p: not p.has("verify!") or p.kind == "raise", "a refused request is answered", key="refused")
    ctx.count(R, n, 2, "replication resources")
    # raw changelog entries are only handed out there
    for g, c in callers(ctx.P, "get_raw_changelog_entry", prefixes=SERVER):
        if g.cls is None and g.parent is not None:
            o = g
            while o.parent is not None and o.cls is None:
                o = o.parent
            g = o
        if "view" in g.module.name or g.module.name == RP:
            ctx.ob(R, g, g.cls is C, "raw changes are handed out by something which does not check the request", key="others", where=where(g, c))
    f = C.method("verify_primary")
    RI = ctx.P.cls(RP + ".ReplicaIdentity")

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "is_primary":
            return "primary" if v else "notprimary"
        if t.k == "cmp" and t.a[0] == "==" and has_call(t, "get_primary_uuid") and has_attr(t, "headers"):
            return "same" if v else "differs"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            o = t.a[1] if t.a[2] is NONE else t.a[2]
            if has_attr(o, "headers"):
                return "noheader" if v else None
            if o.k == "attr" and o.a[1] == "identity":
                return "anonymous" if v else None
        if t.k == "call" and call_name(t) == "isinstance" and has_attr(call_args(t)[0], "identity"):
            cl = call_args(t)[1]
            good = refname(cl) == RI.qual
            return ("isreplica" if v else "notreplica") if good else "other-class"
        if has_attr(t, "headers") and t.k != "cmp":
            return None if v else "empty"
        if t.k == "attr" and t.a[1] == "identity":
            return None if v else "anonymous"
    paths = trace_paths(ctx, f, {}, branch=br, self_cls=C, default_raises=(), stop=("is_primary", "get_primary_uuid"), events=("is_primary", "get_primary_uuid"))
    ok = [p for p in paths if p.kind == "return"]
    ctx.ob(R, f, bool(ok), "every request is refused", key="accepts")
    check_paths(ctx, R, f, ok, lambda p: p.has("primary"), "a node which is not a primary answers replication requests", key="role")
    check_paths(ctx, R, f, ok, lambda p: p.has("same") or p.has("empty"), "a request meant for another primary is answered", key="uuid")
    check_paths(ctx, R, f, ok, lambda p: not p.has("noheader"), "a request which does not name the primary it expects is answered", key="header")
    check_paths(ctx, R, f, ok, lambda p: p.has("anonymous") or p.has("isreplica"), "a request with another identity gets replication data", key="identity")


def identity(ctx):
    R = ctx.rule("K09.token", "a replica's identity is only granted on a primary, for a fresh token signed with the shared secret for exactly the id sent along; "
                 "no other way of logging in gives it")
    f = ctx.P.func(RP + ".devpiserver_get_identity")
    RI = ctx.P.cls(RP + ".ReplicaIdentity")
    loads_ = []

    def ld(ev, st):
        if ev.name == "loads":
            loads_.append(ev)
            return "loads"

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "is_primary":
            return "primary" if v else "notprimary"
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "authtype"):
            return ("bearer" if v else None) if any(cstr(x) == "Bearer" for x in t.a[1:]) else None
        if t.k == "call" and call_name(t) == "compare_digest":
            a = call_args(t)
            good = any(has_attr(x, "headers") for x in a) and any(has_call(x, "loads") for x in a)
            return ("match" if v else "mismatch") if good else "other-compare"
        if t.k == "cmp" and t.a[0] == "==" and has_call(t, "loads"):
            return "plain-compare"
    paths = trace_paths(ctx, f, {"loads": ld, "mk": lambda ev, st: any(t is RI for t in ev.targets)}, branch=br, default_raises=(), stop=("is_primary",),
                        events=("is_primary", "loads", "compare_digest"), raises={"loads": ("itsdangerous.SignatureExpired", "itsdangerous.BadData", "itsdangerous.BadSignature"), "mk": ()},
                        follow=lambda g, ev, d: None if g.name in ("get_auth_serializer",) else None)
    give = [p for p in paths if p.has("mk")]
    ctx.ob(R, f, bool(give), "replicas are never recognised", key="instances")
    check_paths(ctx, R, f, give, lambda p: p.has("loads") and p.idx("loads") < p.idx("mk"), "a replica's identity is granted without a valid token", key="token")
    check_paths(ctx, R, f, give, lambda p: p.has("match"), "a replica's identity is granted although the token was made for another id", key="id")
    check_paths(ctx, R, f, give, lambda p: p.has("primary"), "a node which is not a primary grants a replica's identity", key="role")
    check_paths(ctx, R, f, give, lambda p: p.has("bearer"), "another kind of authorization counts as a replica's token", key="bearer")
    check_paths(ctx, R, f, paths, lambda p: not p.has("loads!") or not p.has("mk") and p.kind == "raise", "an invalid token does not end the request", key="invalid")
    check_paths(ctx, R, f, paths, lambda p: not p.has("plain-compare", "other-compare"), "the token's content is not compared in constant time with the id sent", key="constant-time")
    good = bool(loads_)
    for e in loads_:
        ma = e.kwargs.get("max_age")
        if ma is None or ma is NONE:
            good = False
        if not e.args or not (has_attr(e.args[0], "authorization")):
            good = False
    ctx.ob(R, f, good, "tokens never expire", key="max_age")
    g = ctx.P.module(RP).globals.get("REPLICA_AUTH_MAX_AGE")
    ctx.ob(R, f, g is None or not any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(g)), "tokens never expire", key="max_age-value")
    s = ctx.P.func(RP + ".get_auth_serializer")
    paths = trace_paths(ctx, s, {}, default_raises=(), follow=lambda g, ev, d: False)

    def ser(p):
        t = p.ret
        if p.kind == "raise":
            return True
        return t is not None and t.k == "call" and (call_name(t) or "").startswith("Timed") and bool(call_args(t)) and call_args(t)[0].k == "call" and call_name(call_args(t)[0]) == "get_replica_secret"
    check_paths(ctx, R, s, paths, ser, "tokens are not signed, with time, with the replica secret", key="serializer")
    for g in ctx.P.iter_funcs(*ALL_SERVER):
        for c in own_calls(g, "ReplicaIdentity"):
            ctx.ob(R, g, g is f, "a replica's identity is granted elsewhere", key="others", where=where(g, c))
    # names
    a = ctx.P.func(RP + ".devpiserver_auth_request")
    paths = trace_paths(ctx, a, {}, default_raises=(), branch=lambda t, v, st: ("reserved" if v else "other") if t.k == "cmp" and t.a[0] == "==" and has_param(t, "username") else None)
    check_paths(ctx, R, a, paths, lambda p: p.has("other") or p.kind == "raise", "the reserved name of replicas can log in with a password", key="reserved")
    ctx.ob(R, a, any(p.has("reserved") for p in paths) and any("first" in src(d) and literal(kwarg(d, "tryfirst")) is True for d in a.deco_calls() if kwarg(d, "tryfirst") is not None),
           "other plugins are asked before the reserved name is refused", key="tryfirst")


def secrets(ctx):
    R = ctx.rule("K09.secrets", "login tokens and replication tokens are signed with different keys, and a secret file is only used when nobody else can read it and it is strong enough")
    C = ctx.P.cls(CF + ".Config")
    salts = {}
    for name in ("get_auth_secret", "get_replica_secret"):
        f = C.method(name)
        got = []
        paths = trace_paths(ctx, f, {"k": lambda ev, st: ev.name == "get_derived_key" and not got.append(ev.args[0])}, self_cls=C, default_raises=())
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("k") and has_call(p.ret, "get_derived_key"), "the key is not derived", key="derived")
        salts[name] = {a for a in got}
    a, b = salts["get_auth_secret"], salts["get_replica_secret"]
    ctx.ob(R, C, bool(a) and bool(b) and not a & b and all(x.k == "c" for x in a | b), "login and replication tokens are signed with the same key", key="salts")
    f = C.method("get_derived_key")
    got = []
    paths = trace_paths(ctx, f, {"h": lambda ev, st: ev.name == "hash_secret_raw" and not got.append(ev)}, self_cls=C, default_raises=(), follow=lambda g, ev, d: False)
    S = T("p", f.params()[1])
    ctx.ob(R, f, bool(got) and all((e.args[0] if e.args else e.kwargs.get("secret")) is not None and has_attr(e.args[0] if e.args else e.kwargs["secret"], "basesecret")
                                   and (e.args[1] if len(e.args) > 1 else e.kwargs.get("salt")) is S for e in got), "keys do not depend on secret and purpose", key="hash")
    # cache by purpose: what is returned is stored under the salt given
    stores = []

    def st_(e, st):
        if e.kind == "sub" and has_attr(e.base, "_key_cache"):
            stores.append(e.name)
    paths = trace_paths(ctx, f, {}, stores={"s": st_}, self_cls=C, default_raises=(), follow=lambda g, ev, d: False)
    ctx.ob(R, f, all(x is S for x in stores), "keys for different purposes share a cache entry", key="cache")
    f = C.method("get_validated_secret")

    def bits(t, v):
        n = {x.a[1] for x in subterms(t) if x.k == "attr"} | {(refname(x) or "").rpartition(".")[2] for x in subterms(t) if x.k == "ref"}
        par = "parent" in n
        for flag in ("S_IRWXO", "S_IRWXG", "S_IWGRP", "S_IWOTH", "S_IROTH", "S_IRGRP"):
            if flag in n:
                return ("%s%s-%s" % ("dir-" if par else "", flag, "set" if v else "clear"))

    def br(t, v, st):
        if t.k == "cmp" and any("platform" in show(x) for x in t.a[1:]):
            win = any(cstr(x) == "win32" for x in t.a[1:])
            if win and t.a[0] == "==":
                return PRUNE if v else None
            return None
        if has_attr(t, "st_mode"):
            return bits(t, v)
        if t.k == "cmp" and has_call(t, "len"):
            lo = has_call(t.a[1], "len")
            lim = t.a[2] if lo else t.a[1]
            if lim.k != "c":
                return None
            isset = has_call(t, "set", "frozenset")
            n = cval(lim)
            if lo:      # len < n / len <= n
                below = v
                n = n if t.a[0] == "<" else n + 1
            else:       # n < len / n <= len
                below = not v
                n = n + 1 if t.a[0] == "<" else n
            return "%s-%s-%d" % ("varied" if isset else "long", "no" if below else "yes", n)
        if has_call(t, "is_file", "exists", "isfile"):
            return "file" if v else "nofile"
    paths = trace_paths(ctx, f, {}, branch=br, self_cls=C, default_raises=(), stop=("secret_path",), max_states=400)
    ok = [p for p in paths if p.kind == "return"]
    ctx.ob(R, f, bool(ok), "no secret is ever accepted", key="accepts")
    for labels, what in (
            (("S_IRWXO-clear",), "a secret which others can access is used"),
            (("S_IRWXG-clear",), "a secret which the group can access is used"),
            (("dir-S_IWGRP-clear",), "a secret in a directory the group can write to is used"),
            (("dir-S_IWOTH-clear",), "a secret in a directory others can write to is used")):
        check_paths(ctx, R, f, ok, lambda p: p.has(*labels), what, key=labels[0])

    def atleast(kind, n):
        return lambda p: any(x.startswith(kind + "-yes-") and int(x.rpartition("-")[2]) >= n for x in p.trace)
    check_paths(ctx, R, f, ok, atleast("long", 32), "a short secret is used", key="length")
    check_paths(ctx, R, f, ok, atleast("varied", 6), "a secret of repeated characters is used", key="variation")
    f = C.method("basesecret")
    paths = trace_paths(ctx, f, {"valid": "get_validated_secret", "new": "new_secret"}, self_cls=C, default_raises=(), stop=("secret_path",))
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or has_call(p.ret, "get_validated_secret", "new_secret"), "a secret is used without having been checked", key="basesecret")


def recorded(ctx):
    R = ctx.rule("K09.identity", "a replica applies changes only from an answer which names the recorded primary; another identity ends it, none or contradicting ones are not applied")
    C = ctx.P.cls(RP + ".ReplicaThread")
    f = C.method("fetch")
    H = T("p", f.params()[1])

    def hl(ev, st):
        return ev.fterm is H

    def hdr(t):
        return has_attr(t, "headers") and (has_call(t, "get") or True)

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and has_call(t, "get_primary_uuid") and has_attr(t, "headers"):
            return "same" if v else "differs"
        if t.k == "call" and call_name(t) == "get_primary_uuid":
            return None if v else "unset"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "get_primary_uuid"):
            return "unset" if v else None
        if t.k == "cmp" and t.a[0] in ("==", "in") and has_attr(t, "status_code"):
            vals = [cval(x) for x in t.a[1:] if x.k == "c"] + [cval(y) for x in t.a[1:] for y in items(x) if y.k == "c"]
            if vals == [200]:
                return "ok" if v else "notok"
            return ("status-%s" % ",".join(map(str, vals))) if v else None
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t.a[1], "headers") and has_attr(t.a[2], "headers"):
            return "agree" if v else "contradict"
        if t.k == "call" and has_attr(t, "headers") and call_name(t) == "get":
            return "named" if v else "unnamed"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_attr(t, "headers"):
            return "unnamed" if v else None

    def got(ev, st):
        if ev.name == "get" and "session" in attr_chain(ev.fterm):
            return "get" if ev.kwargs.get("allow_redirects") is FALSE else "get-redirect"
    paths = trace_paths(ctx, f, {"apply": hl, "record": "set_primary_uuid", "get": got}, branch=br, self_cls=C, default_raises=(), max_states=400,
                        raises={"apply": ("?",), "get": ("?",), "record": ()}, quiet=("closing", "thread_push_log", "update_primary_serial", "sleep", "log"),
                        stop=("get_primary_uuid", "update_primary_serial", "make_uuid_headers"), events=("get_primary_uuid",))
    app = [p for p in paths if p.has("apply", "apply!", "record")]
    ctx.ob(R, f, some(paths, "apply"), "changes are never applied", key="instances")
    first = lambda p: min([i for i, x in enumerate(p.trace) if x in ("apply", "apply!", "record")])
    check_paths(ctx, R, f, app, lambda p: any(x in ("same", "unset") for x in p.trace[:first(p)]) and "differs" not in p.trace[:first(p)],
                "changes from another primary are applied", key="uuid")
    check_paths(ctx, R, f, app, lambda p: "named" in p.trace[:first(p)] or "unnamed" not in p.trace[:first(p)] and "same" in p.trace[:first(p)],
                "changes from an answer which does not name its primary are applied", key="named")
    check_paths(ctx, R, f, app, lambda p: "contradict" not in p.trace[:first(p)], "changes from an answer with contradicting identities are applied", key="contradict")
    check_paths(ctx, R, f, app, lambda p: "ok" in p.trace[:first(p)], "an answer which is not the data asked for is applied", key="status")
    check_paths(ctx, R, f, paths, lambda p: not p.has("get-redirect"), "redirects are followed to another server", key="redirect")
    check_paths(ctx, R, f, paths, lambda p: not p.has("apply") or p.has("record") or p.has("same"), "the identity of the primary is not recorded", key="recorded")
    # applied only through fetch
    for g in C.methods.values():
        if g.name.startswith("handler"):
            for h, c in callers(ctx.P, g.name, prefixes=SERVER):
                ctx.ob(R, h, False, "changes are applied without checking where they come from", key="direct", where=where(h, c))
    for h, c in callers(ctx.P, "import_changes", prefixes=SERVER):
        if h.module.name == RP:
            ctx.ob(R, h, h.name.startswith("handler") or h.cls is C, "changes are applied without checking where they come from", key="import", where=where(h, c))


def nodeinfo(ctx):
    R = ctx.rule("K09.role", "a node which had another role never becomes a replica, and the recorded identity of the primary never changes")
    C = ctx.P.cls(CF + ".Config")
    f = C.method("set_primary_uuid")
    U = T("p", f.params()[1])

    def st_(e, st):
        if e.kind == "sub" and has_attr(e.base, "nodeinfo") and cstr(e.name) in ("primary-uuid", "master-uuid"):
            return "store" if e.value is U else "store-other"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and has_call(t, "get_primary_uuid") and U in t.a[1:]:
            return "same" if v else "differs"
        if t.k == "call" and call_name(t) == "get_primary_uuid":
            return None if v else "unset"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "get_primary_uuid"):
            return "unset" if v else None
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "role"):
            return "replica" if v and any(cstr(x) == "replica" for x in t.a[1:]) else None
    paths = trace_paths(ctx, f, {"write": "write_nodeinfo"}, stores={"s": st_}, branch=br, self_cls=C, default_raises=(), stop=("get_primary_uuid", "write_nodeinfo", "role"), events=("get_primary_uuid",))
    ctx.ob(R, f, some(paths, "store"), "the identity of the primary is not recorded", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("store") or p.has("same") or p.has("unset"), "the recorded identity of the primary can be replaced", key="replace")
    check_paths(ctx, R, f, paths, lambda p: not p.has("store", "store-other") or p.has("write") and p.last("write") > p.idx("store"), "the identity of the primary is not made permanent", key="persist")
    check_paths(ctx, R, f, paths, lambda p: not p.has("store-other"), "something else is recorded as identity of the primary", key="value")
    for g in ctx.P.iter_funcs("devpi_server"):
        for x in walk_own(g.node):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                    if isinstance(t, ast.Subscript) and "nodeinfo" in src(t.value):
                        k = literal(t.slice)
                        if k in ("primary-uuid", "master-uuid"):
                            ctx.ob(R, g, g is f, "the identity of the primary is changed elsewhere", key="others", where=where(g, x))
                        if k == "role":
                            ctx.ob(R, g, g.cls is C and g.name in ("_init_role", "_automatic_role", "_change_role", "_determine_role"), "the role is changed elsewhere", key="role-others", where=where(g, x))
    f = C.method("get_primary_uuid")
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("replica" if v else "other") if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "role") and any(cstr(x) == "replica" for x in t.a[1:]) else None,
                        self_cls=C, default_raises=(), stop=("role",))

    def own(p):
        if p.kind == "raise":
            return True
        return has_str(p.ret, "primary-uuid") or has_str(p.ret, "master-uuid") if p.has("replica") else p.has("other") and has_str(p.ret, "uuid") and not has_str(p.ret, "-uuid")
    check_paths(ctx, R, f, paths, own, "the identity compared is not the one of the primary", key="get")
    # roles
    f = C.method("_change_role")
    par = f.params()
    O, N = T("p", par[1]), T("p", par[2])

    def rs(e, st):
        if e.kind == "sub" and has_attr(e.base, "nodeinfo") and cstr(e.name) == "role":
            return "store" if e.value is N or cstr(e.value) is not None else "store-other"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "replica" for x in t.a[1:]):
            if N in t.a[1:]:
                return "to-replica" if v else "to-other"
            if O in t.a[1:]:
                return "was-replica" if v else "was-other"
        if t is O:
            return None if v else "was-none"
        if t.k == "attr" and t.a[1] == "primary_url":
            return "url" if v else "nourl"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and O in t.a[1:]:
            return "was-none" if v else None
    paths = trace_paths(ctx, f, {}, stores={"s": rs}, branch=br, self_cls=C, default_raises=(), stop=("primary_url",))
    ctx.ob(R, f, some(paths, "store") and some(paths, "to-replica"), "the role is never recorded", key="change-instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("store") or p.has("to-other") or p.has("was-none", "was-replica"), "a node of another role becomes a replica", key="change")
    check_paths(ctx, R, f, paths, lambda p: not p.has("store") or p.has("to-other") or p.has("url"), "a replica starts without a primary", key="change-url")
    f = C.method("_automatic_role")
    paths = trace_paths(ctx, f, {}, stores={"s": lambda e, st: e.kind == "sub" and has_attr(e.base, "nodeinfo") and cstr(e.name) == "role" and ("store-" + str(cstr(e.value)))},
                        branch=lambda t, v, st: ("was-replica" if v else "was-other") if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "replica" for x in t.a[1:]) else
                        (("url" if v else "nourl") if t.k == "attr" and t.a[1] == "primary_url" else None), self_cls=C, default_raises=(), stop=("primary_url",))
    check_paths(ctx, R, f, paths, lambda p: not any(x.startswith("store-") and x not in ("store-standalone", "store-primary") for x in p.trace), "a node becomes a replica without being told to", key="auto")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not (p.has("was-other") and p.has("url") and not p.has("was-replica")) , "a node of another role is pointed to a primary", key="auto-url")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not (p.has("was-replica") and p.has("nourl") and not p.has("was-other")), "a replica runs without a primary", key="auto-nourl")
    f = C.method("_determine_role")

    def br2(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "auto" for x in t.a[1:]):
            return "auto" if v else "explicit"
        if t.k == "call" and call_name(t) == "get" and has_attr(t, "nodeinfo") and call_args(t) and cstr(call_args(t)[0]) == "role":
            return "had" if v else "none"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_attr(t, "nodeinfo"):
            return "none" if v else "had"
    paths = trace_paths(ctx, f, {"init": "_init_role", "auto-role": "_automatic_role", "change": "_change_role"}, branch=br2, self_cls=C, default_raises=(), stop=("primary_url",))
    check_paths(ctx, R, f, paths, lambda p: not p.has("init") or p.has("none") and "had" not in p.trace[:p.idx("init")], "the role of a node is decided anew", key="determine")
    args = []
    trace_paths(ctx, f, {"change": lambda ev, st: ev.name == "_change_role" and not args.append(ev)}, self_cls=C, default_raises=(), stop=("primary_url",))
    ctx.ob(R, f, all(has_attr(argn(e, 0, "old_role"), "nodeinfo") and has_attr(argn(e, 1, "new_role"), "args") for e in args) and bool(args), "the old role is not taken from what was recorded", key="determine-args")


def check(ctx):
    resources(ctx)
    identity(ctx)
    secrets(ctx)
    recorded(ctx)
    nodeinfo(ctx)
    ctx.assumptions.append("itsdangerous verifies signature and age as documented; argon2 derives unrelated keys for different salts")


RF, CFF = "server/devpi_server/replica.py", "server/devpi_server/config.py"
SELFTEST = [
    (RF, "    def get_streaming_changes(self):\n        self.verify_primary()\n", "    def get_streaming_changes(self):\n"),
    (RF, "        if expected_uuid and expected_uuid != primary_uuid:\n            threadlog", "        if expected_uuid and primary_uuid and False:\n            threadlog"),
    (RF, "        if not self.xom.is_primary():\n            raise HTTPForbidden(\"Replication protocol disabled\")\n", ""),
    (RF, "if identity is not None and not isinstance(identity, ReplicaIdentity):", "if identity is None and not isinstance(identity, ReplicaIdentity):"),
    (RF, "authorization.params, max_age=REPLICA_AUTH_MAX_AGE)", "authorization.params)"),
    (RF, "    if not secrets.compare_digest(request.headers[H_REPLICA_UUID], sent_uuid):\n        raise HTTPForbidden(\"Wrong authorization value.\")\n", ""),
    (RF, "secrets.compare_digest(request.headers[H_REPLICA_UUID], sent_uuid)", "(request.headers[H_REPLICA_UUID] == sent_uuid)"),
    (RF, "    except itsdangerous.SignatureExpired:\n        raise HTTPForbidden(\"Authorization expired.\")", "    except itsdangerous.SignatureExpired:\n        sent_uuid = request.headers[H_REPLICA_UUID]"),
    (RF, "itsdangerous.TimedSerializer(config.get_replica_secret())", "itsdangerous.TimedSerializer(config.get_auth_secret())"),
    (CFF, "b'devpi-server-replica'", "b'devpi-server-auth'"),
    (CFF, "if secret_path.stat().st_mode & stat.S_IRWXG and", "if secret_path.stat().st_mode & stat.S_IRWXO and"),
    (CFF, "        if len(set(secret)) < 6:", "        if len(secret) < 6:"),
    (RF, "            if primary_uuid and remote_primary_uuid != primary_uuid:\n", "            if primary_uuid and not remote_primary_uuid:\n"),
    (RF, "                self.thread.sleep(self.ERROR_SLEEP)\n                return True\n            if primary_uuid", "                self.thread.sleep(self.ERROR_SLEEP)\n            if primary_uuid"),
    (RF, "                allow_redirects=False,\n                auth=self", "                auth=self"),
    (CFF, "if existing and existing != uuid:", "if existing and not uuid:"),
    (CFF, "            if old_role and old_role != \"replica\":", "            if old_role and old_role == \"primary\":"),
    (CFF, "        if role == \"auto\" and not old_role:", "        if role == \"auto\":"),
    (RF, "            if r.status_code == 200:\n                # we successfully", "            if r.status_code in (200, 202):\n                # we successfully"),
    (RF, "    if username == REPLICA_USER_NAME:\n        raise HTTPForbidden", "    if username == REPLICA_USER_NAME and not password:\n        raise HTTPForbidden"),
    (CFF, "self._key_cache[salt] = argon2", "self._key_cache[salt] = self._key_cache[b''] = argon2"),
]
