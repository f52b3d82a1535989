"""P01: operations are guarded by the permission that belongs to them, on the resource they change."""
from rules.lib import *  # noqa

VW = "devpi_server.views"
MD = "devpi_server.model"
VA = "devpi_server.view_auth"

# operation -> permissions of which one was granted
NEED = {
    "create_user": ("user_create",), "create_stage": ("index_create",),
    "del_project": ("del_project",), "del_versiondata": ("del_verdata",), "del_entry": ("del_entry",),
    "set_versiondata": ("upload",), "_set_versiondata": ("upload",), "store_releasefile": ("upload",), "store_doczip": ("upload",), "add_project_name": ("upload",),
    "store_toxresult": ("toxresult_upload", "upload"), "new_reflink": ("toxresult_upload", "upload"), "create_linked_entry": ("upload",),
    "remove_links": ("del_entry",), "file_delete": ("del_entry",), "file_set_content": ("upload",),
    "devpiserver_on_upload_sync": ("upload",),
    "file_open_read": ("pkg_read",), "file_get_content": ("pkg_read",), "iter_fetch_remote_file": ("pkg_read",), "iter_cache_remote_file": ("pkg_read",),
    "iter_remote_file_replica": ("pkg_read",),
}
STAGE_OR_USER = {"modify": ("index_modify", "user_modify"), "_modify": ("index_modify", "user_modify"), "delete": ("index_delete", "user_delete")}
OPS = tuple(NEED) + tuple(STAGE_OR_USER)
READS = ("file_open_read", "file_get_content", "iter_fetch_remote_file", "iter_cache_remote_file", "iter_remote_file_replica")


def of_context(t):
    """the resource is the one the access list is made for"""
    if t is None:
        return False
    if has_call(t, "getstage", "get_user"):
        # looked up by name: only the names of the context itself
        for x in subterms(t):
            if x.k == "call" and call_name(x) in ("getstage", "get_user"):
                a = list(call_args(x)) + list(dict(call_kwargs(x)).values())
                if any(y.k == "star" for y in a) or not a or not all(has_attr(y, "username", "index", "user") and has_attr(y, "context") or y.k == "p" and y.a[0] in ("context",) for y in a):
                    return False
        return True
    return has_attr(t, "context") or has_param(t, "context") or contains(t, lambda x: x.k == "inst") or has_attr(t, "model")


def place(t):
    return "ctx" if of_context(t) else show(t) if t is not None else "?"


def root_stage(ev):
    """the index or user an operation is carried out on"""
    for n in ("stage",):
        if n in ev.kwargs:
            return ev.kwargs[n]
    return ev.recv


def unbound(t, own):
    """a local variable that is not set on this path"""
    n = t.a[0] if t.k == "free" else (refname(t) or "")[len("builtins."):] if (refname(t) or "").startswith("builtins.") else None
    return n in own


def opspec(ev):
    n = ev.name
    if n in NEED:
        return NEED[n]
    if n in STAGE_OR_USER and ev.recv is not None:
        r = show(ev.recv)
        if "session" in r or "requests" in r:
            return None
        last = (ev.recv.a[1] if ev.recv.k == "attr" else call_name(ev.recv) if ev.recv.k == "call" else ev.recv.a[0] if ev.recv.k == "p" else "") or ""
        st, us = STAGE_OR_USER[n]
        if "user" in last:
            return (us,)
        if "stage" in last:
            return (st,)
        if any(isinstance(t, Func) and t.cls is not None and t.cls.name == "User" for t in ev.targets) and "stage" not in r:
            return (us,)
    return None


def gen_ops(f, ev):
    """operations of a helper which yields its results, with the place they are done on"""
    params = f.params()
    args = {}
    off = 1 if params[:1] == ["self"] else 0
    for i, a in enumerate(ev.args):
        if i + off < len(params):
            args[params[i + off]] = a
    args.update(ev.kwargs)
    local = {}
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            local.setdefault(x.targets[0].id, []).append(x.value)
    for c in own_calls(f, *OPS):
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
        base = c.func.value if isinstance(c.func, ast.Attribute) else None
        if nm in READS:
            yield NEED[nm], "ctx"
            continue
        while isinstance(base, ast.Attribute) and dotted(base) and not dotted(base).startswith("self."):
            base = base.value
        while isinstance(base, ast.Name) and base.id in local and base.id not in args:
            base = local[base.id][0]
        if isinstance(base, ast.Name) and base.id in args:
            yield NEED.get(nm, STAGE_OR_USER.get(nm)), place(args[base.id])
        elif base is not None and "context" in src(base):
            yield NEED.get(nm, STAGE_OR_USER.get(nm)), "ctx"
        elif isinstance(base, ast.Call):
            nms = [x for x in names_in(base) if x in args]
            yield NEED.get(nm, STAGE_OR_USER.get(nm)), place(args[nms[0]]) if nms else src(base)
        else:
            yield NEED.get(nm, STAGE_OR_USER.get(nm)), src(base) if base is not None else "?"


def view_guards(ctx):
    R = ctx.rule("P01.guard", "on every path of every view, an operation is only carried out after its permission was granted, by the view's registration or by a check, for the resource it works on")
    n = guarded = 0
    by = {}
    for v in views(ctx.P):
        by.setdefault(v.func, []).append(v)
    for f, vs in sorted(by.items(), key=lambda x: x[0].qual):
        if f.module.name == "devpi_server.replica":
            continue
        perms = None
        for v in vs:
            perms = {v.permission} if perms is None else perms & {v.permission}
        perms = {x for x in perms or () if x}
        ops = []

        own = {x.id for x in walk_own(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def lab(ev, st):
            if ev.name == "apifatal":
                return "end"
            for t in ev.targets:
                if isinstance(t, Func) and t.is_gen and t.module is f.module and any(own_calls(t, *OPS)) and t.name not in OPS:
                    ops.append((t, ev))
                    return "gen%d" % (len(ops) - 1)
            spec = opspec(ev)
            if spec is None:
                return None
            nm = ev.name
            if ev.recv is not None and unbound(ev.recv, own):
                # never bound on this path
                return "end"
            if nm in READS:
                if nm.startswith("iter_") and f.cls is not None:
                    return "op:%s|%s" % (",".join(spec), "ctx" if of_context(argn(ev, 0, "stage")) else place(argn(ev, 0, "stage")))
                return "op:%s|ctx" % ",".join(spec)
            r = root_stage(ev)
            if nm == "create_user":
                return "op:%s|%s" % (",".join(spec), place(argn(ev, 0, "username")))
            return "op:%s|%s" % (",".join(spec), place(r))

        def br(t, v, st):
            if t.k == "call" and call_name(t) == "has_permission" and v:
                a = call_args(t)
                kw = dict(call_kwargs(t))
                name = cstr(a[0]) if a else cstr(kw.get("permission"))
                c = a[1] if len(a) > 1 else kw.get("context")
                return "perm:%s|%s" % (name, "ctx" if c is None else place(c))
            return None
        paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=f.cls, default_raises=(), events=OPS + ("has_permission", "apifatal"),
                            stop=OPS + ("apireturn", "apiresult", "abort", "abort_submit", "abort_authenticate", "new_proxy_auth", "getstage", "sro"),
                            follow=lambda g, ev, d: (None if not g.is_gen else False) if g.module.name == VW or g.module is f.module else False, rounds=1, max_states=256)

        def ok(p):
            have = {"perm:%s|ctx" % x for x in perms}
            for x in p.trace:
                x = x.rstrip("!")
                if x == "end":
                    break
                if x.startswith("perm:"):
                    have.add(x)
                todo = ()
                if x.startswith("op:"):
                    spec, _, pl = x[3:].partition("|")
                    todo = [(spec.split(","), pl)]
                elif x.startswith("gen"):
                    todo = list(gen_ops(*ops[int(x[3:])]))
                for spec, pl in todo:
                    if not any("perm:%s|%s" % (s, pl) in have for s in spec or ()):
                        return False
            return True
        if not any(x.startswith(("op:", "gen")) for p in paths for x in p.trace):
            continue
        n += 1
        if any(x.startswith("perm:") for p in paths for x in p.trace) or perms:
            guarded += 1
        check_paths(ctx, R, f, paths, ok, "an operation is carried out without its permission having been granted for the resource", key="guard")
    ctx.count(R, n, 9, "views that carry out guarded operations")
    # a user created on the way is the one logged in
    f = ctx.P.func(VW + ".PyPIView.index_create")

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "authenticated_userid"):
            return ("self" if v else None) if any(has_attr(x, "username") and of_context(x) for x in t.a[1:]) else None
    paths = trace_paths(ctx, f, {"cu": "create_user"}, branch=br, self_cls=f.cls, default_raises=(), events=("create_user",), stop=("create_user", "create_stage", "apireturn", "getstage", "get_user"),
                        follow=lambda g, ev, d: None if g.module is f.module else False)
    check_paths(ctx, R, f, paths, lambda p: not p.has("cu") or p.has("self") and p.idx("self") < p.idx("cu"), "an index creation creates a user other than the one logged in", key="autouser")
    # names the request refers to belong to the resource that was checked
    for nm, finder in (("del_pkg", "get_file_entry"), ("post_toxresult", "get_link_from_entrypath")):
        f = ctx.P.func(VW + ".PyPIView." + nm)
        evs = []
        trace_paths(ctx, f, {"x": lambda ev, st: evs.append(ev) or "x" if ev.name in ("del_entry", "store_toxresult") else None}, self_cls=f.cls, default_raises=(), events=("del_entry", "store_toxresult"), follow=lambda g, ev, d: None if g.module is f.module and g.name not in ("apireturn", "abort") else False)
        ctx.ob(R, f, bool(evs) and all(has_attr(e.args[0], "path_info", "path", "matchdict", "context") or has_call(e.args[0], "_relpath_from_request") or e.args[0].k in ("free", "ref") for e in evs if e.args),
               "the file concerned is not the one the request was checked for", key="path")


def serving(ctx):
    R = ctx.rule("P01.read", "file content is only sent, from the store or from another server, after the permission to read packages of the index was granted")
    f = ctx.P.func(VW + ".PyPIView._pkgserv")
    BODY = ("file_open_read", "iter_fetch_remote_file", "FileIter", "file_get_content")

    def lab(ev, st):
        return "body" if ev.name in BODY else None

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "has_permission":
            a = call_args(t)
            return ("read" if v else "noread") if a and cstr(a[0]) == "pkg_read" and len(a) == 1 and not call_kwargs(t) else None
    paths = trace_paths(ctx, f, {"b": lab}, branch=br, self_cls=f.cls, default_raises=(), events=BODY, stop=("apireturn", "abort"), follow=lambda g, ev, d: None if g.module is f.module and not g.is_gen and g.name not in ("apireturn", "abort") else False)
    ctx.ob(R, f, some(paths, "body"), "nothing is sent", key="instances")
    check_paths(ctx, R, f, paths, precedes("read", "body"), "content is sent without permission to read", key="serve")
    check_paths(ctx, R, f, paths, lambda p: not p.has("noread") or p.kind == "raise" or not p.has("body"), "content is sent although reading was denied", key="denied")
    # other ways to content of release files
    n = 0
    allowed = {VW + ".PyPIView._pkgserv", VW + ".PyPIView._push_links", VW + ".PyPIView.pushrelease"}
    for g in ctx.P.iter_funcs(VW):
        for c in own_calls(g, *BODY):
            n += 1
            o = g
            while o.parent is not None:
                o = o.parent
            if o.cls is None and o.qual not in allowed:
                # a helper: only reachable from the checked functions
                users = {h.qual for h, c2 in callers(ctx.P, o.name)}
                ctx.ob(R, g, users <= allowed | {o.qual} or all(u.startswith(VW + ".") and "View" not in u for u in users), "content is handed out by something that does not check the permission", key="others", where=where(g, c))
    ctx.count(R, n, 5, "places that read or fetch content for a request")


def auth_check(ctx):
    R = ctx.rule("P01.authcheck", "the authorisation check for a fronting web server answers OK only when no plugin or rule forbids the original request")
    f = ctx.P.func(VW + ".PyPIView._auth_check_request")

    def br(t, v, st):
        if has_call(t, "devpiserver_authcheck_forbidden"):
            return "forbidden" if v else "clear"
        if has_call(t, "devpiserver_authcheck_always_ok"):
            return "always" if v else None

    def lab(ev, st):
        if ev.name in ("HTTPOk", "HTTPNoContent"):
            return "ok"
        if ev.name == "Response":
            return "ok"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=f.cls, default_raises=(), events=("HTTPOk", "Response", "devpiserver_authcheck_forbidden", "devpiserver_authcheck_always_ok"), follow=lambda g, ev, d: None if g.module is f.module else False)
    ctx.ob(R, f, some(paths, "ok"), "never OK", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("ok") or p.has("always", "clear") and not p.has("forbidden"), "a forbidden request is declared OK", key="ok")
    h = ctx.P.func(VW + ".devpiserver_authcheck_forbidden")

    def br2(t, v, st):
        if t.k == "call" and call_name(t) == "has_permission" and call_args(t) and cstr(call_args(t)[0]) == "pkg_read":
            return "read" if v else "noread"
        if t.k == "cmp" and t.a[0] == "in" and any("+f" in (cstr(x) or "") for x in subterms(t) if x.k == "c"):
            return "file" if v else "other"
        if t.k == "attr" and t.a[1] == "matched_route":
            return None if v else "other"
    paths = trace_paths(ctx, h, {}, branch=br2, default_raises=())
    ctx.ob(R, h, some(paths, "noread"), "package files are not looked at", key="pkg-instances")
    check_paths(ctx, R, h, live_paths(paths), lambda p: not p.has("noread") or p.ret is not None and p.ret.k == "c" and bool(cval(p.ret)), "missing read permission for a package file is not reported", key="pkg")
    check_paths(ctx, R, h, live_paths(paths), lambda p: p.has("read", "noread", "other"), "requests for package files are let through unchecked", key="pkg-all")


def grants_of(t, out):
    """(principal, permission) of (Allow, principal, permission) tuples in a term"""
    for x in subterms(t):
        if x.k == "tup" and len(x.a[0]) == 3:
            a, b, c = x.a[0]
            if (refname(a) or "").endswith("Allow") or a.k == "c" and cval(a) == "Allow" or show(a).endswith("Allow"):
                out.append((b, c))


ADMIN = ("user_modify", "user_delete", "index_create", "user_create", "index_delete", "index_modify")


def acls(ctx):
    R = ctx.rule("P01.acl", "the access list grants changes of users and the creation of indexes only to the user concerned and root, or to the configured principals; "
                 "root can not be deleted; denials come first; index permissions come from the index itself")
    C = ctx.P.cls(VA + ".RootFactory")
    f = C.method("__acl__")
    evs = []

    def lab(ev, st):
        if ev.name in ("append", "extend", "insert", "add", "update"):
            out = []
            for a in ev_args(ev):
                grants_of(a, out)
            if out:
                evs.append(out)
                return "grant%d" % (len(evs) - 1)
            if any(has_call(a, "__acl__") for a in ev_args(ev)):
                return "stageacl"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_attr(t, "restrict_modify"):
            return "open" if v else "restricted"
        if t.k == "attr" and t.a[1] == "restrict_modify":
            return "restricted" if v else None
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "username"):
            if any(cstr(x) == "root" for x in t.a[1:]):
                return "isroot" if v else "notroot"
            return "ownprincipal" if v else "notowner"
        if t.k in ("attr", "call") and (t.a[1] == "_stage" if t.k == "attr" else False):
            return "stage" if v else "nostage"
        if has_call(t, "union", "devpiserver_auth_denials"):
            return "denials" if v else "nodenials"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=C, default_raises=(), dedupe=False, events=("append", "extend", "__acl__"), follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(evs), "nothing is granted", key="instances")

    def principal_ok(pr, perm, tr, i):
        nm = cstr(pr)
        perm = cstr(perm)
        if perm is None:
            return False
        every = (refname(pr) or show(pr)).endswith("Everyone") or show(pr).endswith("Authenticated")
        if "restricted" in tr[:i]:
            if every:
                return perm == "user_login"
            if not has_attr(pr, "restrict_modify"):
                return False
            return perm != "user_delete" or "notowner" in tr[:i]
        if "open" not in tr[:i]:
            return perm == "user_login" and every
        if every:
            return perm in ("user_login", "user_create")
        if nm == "root" or pr.k == "attr" and pr.a[1] == "username":
            return perm != "user_delete" or "notroot" in tr[:i]
        return False

    def ok(p):
        for i, x in enumerate(p.trace):
            if x.startswith("grant"):
                if not all(principal_ok(pr, pe, p.trace, i) for pr, pe in evs[int(x[5:])]):
                    return False
        return True
    check_paths(ctx, R, f, paths, ok, "a permission is granted to somebody who should not have it", key="grants")
    check_paths(ctx, R, f, live_paths(paths), lambda p: not p.has("stage") or p.has("stageacl"), "the index's own access list is left out", key="stage")

    def denied(p):
        if not p.has("denials") or p.has("nodenials"):
            return True
        t = p.ret
        if t is None:
            return False
        deny = lambda x: contains(x, lambda y: (refname(y) or "").endswith("Deny"))  # noqa: E731
        if t.k == "bin" and t.a[0] in ("Add", "+"):
            return deny(t.a[1]) and not deny(t.a[2])
        return deny(t)
    check_paths(ctx, R, f, live_paths(paths), denied, "denials are not in front of the access list", key="denials")
    ctx.ob(R, f, some(paths, "denials"), "denials of plugins are not used", key="denials-used")
    st = ctx.P.cls(VA + ".RootFactory")
    for nm, attrs in (("_stage", ("username", "index")), ("_user", ("username",))):
        g = st.methods.get(nm)
        if g is None:
            raise AnchorError("RootFactory.%s is gone" % nm)
        paths = trace_paths(ctx, g, {}, self_cls=st, default_raises=(), follow=lambda h, ev, d: False)
        check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is NONE or p.ret is None or p.ret.k == "call" and call_name(p.ret) in ("getstage", "get_user") and tuple(a.a[1] for a in call_args(p.ret) if a.k == "attr") == attrs,
                    "the access list is that of another resource", key=nm)
    for nm in ("index", "username"):
        g = st.methods[nm]
        paths = trace_paths(ctx, g, {}, self_cls=st, default_raises=(), follow=lambda h, ev, d: False)
        key = "index" if nm == "index" else "user"
        check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is not None and (p.ret.k == "attr" and p.ret.a[1] == nm and has_attr(p.ret, "context") or has_str(p.ret, key) and has_attr(p.ret, "matchdict")),
                    "the access list is that of another resource", key=nm)
    # the names a view uses are those of the resource that was checked
    for nm, under in (("stage", "_stage"), ("user", "_user")):
        g = st.methods[nm]
        paths = trace_paths(ctx, g, {}, self_cls=st, default_raises=(), follow=lambda h, ev, d: False, stop=("abort",))
        check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is not None and has_attr(p.ret, under), "views work on another resource than the one checked", key="same-" + nm)


def stage_acl(ctx):
    R = ctx.rule("P01.principals", "each index permission is granted to the principals configured for exactly that permission: uploads to the upload list, test results to theirs, "
                 "deletion of content to uploaders, owner and root, configuration and deletion to owner and root")
    C = ctx.P.cls(MD + ".BaseStage")
    f = C.method("__acl__")
    evs = []

    def lab(ev, st):
        if ev.name in ("append", "extend"):
            out = []
            for a in ev_args(ev):
                grants_of(a, out)
            if out:
                evs.extend(out)
                return "grant"
        if ev.name == "get_principals" and ev.args:
            return None

    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), events=("append", "extend", "get_principals"), follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(evs), "no index permission is granted", key="instances")
    good = True
    for pr, pe in evs:
        m = [x for x in subterms(pr) if x.k == "call" and call_name(x) == "getattr" or x.k == "call" and (call_name(x) or "").startswith("get_principals_for_")]
        if not has_call(pr, "get_principals"):
            good = False
        if cstr(pe) is None:
            # the permission of this round
            if m and not any(contains(x, lambda y: y is pe) for x in m) and not has_str(pr, "pypi_submit"):
                good = False
            if not m:
                good = False
        elif cstr(pe) == "pypi_submit":
            pass
        else:
            if not any(has_str(x, "_" + cstr(pe)) or (call_name(x) or "").endswith("_" + cstr(pe)) for x in m):
                good = False
    ctx.ob(R, f, good, "an index permission is granted to the principals of another one", key="same")
    # what each customizer grants
    own = {"index_delete", "index_modify"}
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.module.name not in (MD, "devpi_server.mirror") or not c.name.endswith("Customizer") and not any(k.name == "BaseStageCustomizer" for k in c.mro()):
            continue
        alias = {}
        for x in c.node.body:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        alias[t.id] = x.value.id
        names = {k: k for k in c.methods if k.startswith("get_principals_for_")}
        names.update({k: v for k, v in alias.items() if k.startswith("get_principals_for_")})
        for k, v in sorted(names.items()):
            perm = k[len("get_principals_for_"):]
            g = c.methods.get(v)
            if g is None:
                continue
            n += 1
            collected = []

            def upd(ev, st):
                if ev.name in ("update", "add", "union") and not st.auto.count("x") > 8:
                    collected.append(ev)
                    return "u%d" % (len(collected) - 1)

            def br(t, v, st):
                if has_attr(t, "restrict_modify") or has_param(t, "restrict_modify"):
                    if t.k == "cmp" and t.a[0] == "is":
                        return "open" if v else "restricted"
                    return "restricted" if v else None
            paths = trace_paths(ctx, g, {"x": upd}, branch=br, self_cls=c, default_raises=(), events=("update", "add"), follow=lambda h, ev, d: None if h.cls is not None and h.cls in c.mro() else False)

            def sources(p):
                """what the granted principals are made of on this path"""
                terms = [p.ret] if p.ret is not None else []
                for x in p.trace:
                    if x[0] == "u" and x[1:].isdigit():
                        e = collected[int(x[1:])]
                        terms.extend(ev_args(e))
                res = set()
                for t in terms:
                    for x in subterms(t):
                        if x.k == "c" and isinstance(cval(x), str):
                            res.add(cval(x))
                        elif x.k == "attr" and x.a[1] == "username":
                            res.add("@owner")
                        elif x.k == "p" and x.a[0] == "restrict_modify":
                            res.add("@restrict")
                        elif x.k == "call" and (call_name(x) or "").startswith("devpiserver_"):
                            res.add("@plugin")
                return res

            def ok(p):
                s = sources(p) - {"acl_upload", "acl_toxresult_upload"}
                raw = sources(p)
                if perm == "pkg_read":
                    return True
                allowed = {"@restrict"}
                lists = set()
                if perm == "upload":
                    lists, allowed = {"acl_upload"}, set()
                elif perm == "toxresult_upload":
                    lists, allowed = {"acl_toxresult_upload"}, {":ANONYMOUS:"}
                elif perm in ("del_entry", "del_project", "del_verdata"):
                    lists = {"acl_upload"}
                    allowed = {"root", "@owner"} if p.has("open") else {"@restrict"}
                elif perm in own:
                    allowed = {"root", "@owner"} if p.has("open") else {"@restrict"}
                else:
                    return True
                if c.name != "BaseStageCustomizer" and not raw:
                    return True
                if not (raw - lists <= allowed):
                    return False
                # nobody is left out
                if c.name == "BaseStageCustomizer":
                    if lists and not raw & lists:
                        return False
                    if perm in own or perm.startswith("del_"):
                        want = {"root", "@owner"} if p.has("open") else {"@restrict"}
                        return want <= raw
                return True
            check_paths(ctx, R, g, live_paths(paths), ok, "permission %s of an index is granted to others than configured" % perm, key="%s.%s" % (c.name, perm))
            if perm in own or perm.startswith("del_"):
                if c.name == "BaseStageCustomizer":
                    ctx.ob(R, g, some(paths, "restricted"), "restricting changes to given principals has no effect on %s" % perm, key="%s.%s.restrict" % (c.name, perm))
            if perm == "pkg_read":
                # a plugin's list replaces the default instead of adding to it
                def okr(p):
                    s = sources(p)
                    return not (":ANONYMOUS:" in s and p.has("plugged"))
                paths = trace_paths(ctx, g, {"x": upd}, branch=lambda t, v, st: ("unplugged" if v else "plugged") if t.k == "cmp" and t.a[0] == "is" and has_call(t, "devpiserver_stage_get_principals_for_pkg_read") else None,
                                    self_cls=c, default_raises=(), events=("update", "add"), follow=lambda h, ev, d: False)
                ctx.ob(R, g, some(paths, "plugged"), "plugins can not restrict reading", key="pkg_read.plugin")
                check_paths(ctx, R, g, live_paths(paths), okr, "everyone can read although a plugin restricts it", key="pkg_read")
    ctx.count(R, n, 8, "definitions of principals")


def policy(ctx):
    R = ctx.rule("P01.policy", "permission checks use the identity of the request: anonymous requests are only everyone, others also their own name and groups, and groups can not pose as users")
    C = ctx.P.cls(VA + ".DevpiSecurityPolicy")
    f = C.method("permits")
    evs = []

    def lab(ev, st):
        if ev.name in ("add", "update"):
            evs.append(ev)
            return "u%d" % (len(evs) - 1)

    def br(t, v, st):
        if has_attr(t, "identity"):
            if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
                return "anonymous" if v else "known"
            if t.k == "attr":
                return "known" if v else "anonymous"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=C, default_raises=(), events=("add", "update", "permits"), follow=lambda g, ev, d: False)

    def ok(p):
        for x in p.trace:
            if x[0] == "u" and x[1:].isdigit():
                e = evs[int(x[1:])]
                for a in ev_args(e):
                    if show(a).endswith("Everyone"):
                        continue
                    if not p.has("known") or p.idx("known") > p.idx(x):
                        return False
                    if has_attr(a, "groups"):
                        if not has_str(a, ":"):
                            return False
                    elif not (has_attr(a, "username") or show(a).endswith("Authenticated")):
                        return False
        t = p.ret
        return t is not None and has_call(t, "permits") and len(call_args(t)) == 3 and call_args(t)[2] is T("p", f.params()[3])
    check_paths(ctx, R, f, live_paths(paths), ok, "permissions are checked for the wrong principals", key="principals")
    g = ctx.P.func(MD + ".get_principals")
    evs2 = []

    def lab2(ev, st):
        if ev.name in ("add", "update", "append"):
            evs2.append(ev)
            return "u%d" % (len(evs2) - 1)

    def br2(t, v, st):
        if t.k == "cmp" and t.a[0] == "in":
            for s in (":AUTHENTICATED:", ":ANONYMOUS:"):
                if cstr(t.a[1]) == s:
                    return s if v else None
    paths = trace_paths(ctx, g, {"x": lab2}, branch=br2, default_raises=(), events=("add",))

    def ok2(p):
        for x in p.trace:
            if x[0] == "u" and x[1:].isdigit():
                for a in ev_args(evs2[int(x[1:])]):
                    s = show(a)
                    if s.endswith("Everyone") and not (":ANONYMOUS:" in p.trace[:p.idx(x)]):
                        return False
                    if s.endswith("Authenticated") and not (":AUTHENTICATED:" in p.trace[:p.idx(x)]):
                        return False
        return True
    check_paths(ctx, R, g, paths, ok2, "principals of an access list are widened", key="get_principals")
    ident = ctx.P.func(VA + ".devpiserver_get_identity")

    def br3(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "ok" for x in t.a[1:]) and has_call(t, "_get_auth_status"):
            return "ok" if v else "bad"
    paths = trace_paths(ctx, ident, {"mk": "CredentialsIdentity"}, branch=br3, default_raises=(), events=("CredentialsIdentity", "_get_auth_status"), stop=("_get_auth_status",))
    ctx.ob(R, ident, some(paths, "mk"), "nobody is identified", key="identity-instances")
    check_paths(ctx, R, ident, paths, lambda p: not p.has("mk") or p.has("ok"), "somebody is identified by credentials which were not accepted", key="identity")
    m = ctx.P.cls("devpi_server.main.XOM").method("create_app")
    calls = list(own_calls(m, "Configurator")) + list(own_calls(m, "set_security_policy"))
    ctx.ob(R, m, any("RootFactory" in src(c) for c in calls) and any("DevpiSecurityPolicy" in src(c) for c in calls), "the application does not use the access lists", key="configured")


def check(ctx):
    view_guards(ctx)
    serving(ctx)
    auth_check(ctx)
    acls(ctx)
    stage_acl(ctx)
    policy(ctx)


SELFTEST = [
    ("server/devpi_server/views.py", """        permission="index_delete")
    @view""", """        permission="del_entry")
    @view"""),
    ("server/devpi_server/views.py", """            if not request.has_permission("upload", context=target_stage):""", """            if not request.has_permission("upload"):"""),
    ("server/devpi_server/views.py", """        if not request.has_permission("pkg_read"):
            abort(request, 403, "package read forbidden")

        metadata""", """        metadata"""),
    ("server/devpi_server/views.py", """        if not self.request.has_permission("index_create"):""", """        if not self.request.has_permission("user_create"):"""),
    ("server/devpi_server/views.py", """            if self.request.authenticated_userid == username:
                if""", """            if self.request.authenticated_userid:
                if"""),
    ("server/devpi_server/views.py", """        if not request.has_permission("upload"):
            # if""", """        if not request.has_permission("upload") and request.POST.get(":action") != "submit":
            # if"""),
    ("server/devpi_server/views.py", """        if not request.has_permission("pkg_read"):
            abort(request, 403, "package read forbidden")

        try:
            if should""", """        if self.request.method != "HEAD" and file_exists and not request.has_permission("pkg_read"):
            abort(request, 403, "package read forbidden")

        try:
            if should"""),
    ("server/devpi_server/views.py", """    if not request.has_permission('pkg_read'):
        return True""", """    if not request.has_permission('pkg_read'):
        return None"""),
    ("server/devpi_server/view_auth.py", """                if self.username != 'root':
                    acl""", """                if self.username:
                    acl"""),
    ("server/devpi_server/view_auth.py", """                acl = tuple((Deny,) + denial for denial in denials) + acl""", """                acl = acl + tuple((Deny,) + denial for denial in denials)"""),
    ("server/devpi_server/view_auth.py", """            principals.update(":" + g for g in identity.groups)""", """            principals.update(g for g in identity.groups)"""),
    ("server/devpi_server/model.py", """        modify_principals = set(self.stage.ixconfig.get("acl_upload", []))
        if restrict_modify is None:""", """        modify_principals = set(self.stage.ixconfig.get("acl_toxresult_upload", []))
        if restrict_modify is None:"""),
    ("server/devpi_server/model.py", """            modify_principals = set(['root', self.stage.username])
        else:
            modify_principals = restrict_modify""", """            modify_principals = set(['root', self.stage.username])
        else:
            modify_principals = set(restrict_modify) | {self.stage.username}"""),
    ("server/devpi_server/model.py", """            principals = {':ANONYMOUS:'}
        else:
            principals = set(principals)""", """            principals = {':ANONYMOUS:'}
        else:
            principals = {':ANONYMOUS:'} | set(principals)"""),
    ("server/devpi_server/view_auth.py", """    if status != "ok":
        return""", """    if status == "nouser":
        return"""),
    ("server/devpi_server/model.py", """            for principal in get_principals(method(restrict_modify=restrict_modify)):
                acl.append((Allow, principal, permission))""", """            for principal in get_principals(method(restrict_modify=restrict_modify)):
                acl.append((Allow, principal, permission))
                acl.append((Allow, principal, 'del_entry'))"""),
]
