"""K10: an error answer keeps none of the changes made on the way to it."""
from rules.lib import *  # noqa

VW = "devpi_server.views"
MD = "devpi_server.model"

# operations of the model, link stores, links and entries which change stored state
MUTATORS = ("create_user", "create_stage", "modify", "_modify", "delete", "del_project", "del_versiondata", "del_entry", "delete_user", "delete_stage",
            "set_versiondata", "_set_versiondata", "add_project_name", "store_releasefile", "store_doczip", "store_toxresult", "add_log", "add_logs",
            "new_reflink", "create_linked_entry", "remove_links", "file_set_content", "file_delete", "clear_simplelinks_cache", "_update_simplelinks",
            "devpiserver_on_upload_sync", "on_modified", "generator")
ERRORS = {"HTTPBadRequest", "HTTPUnauthorized", "HTTPForbidden", "HTTPNotFound", "HTTPMethodNotAllowed", "HTTPNotAcceptable", "HTTPConflict", "HTTPGone",
          "HTTPInternalServerError", "HTTPBadGateway", "HTTPServiceUnavailable", "HTTPServerError", "HTTPClientError", "HTTPError", "HTTPUnprocessableEntity",
          "exception_response"}
ANSWERS = {"apireturn": 0, "apiresult": 0, "abort": 1, "abort_authenticate": None, "abort_submit": 1, "apifatal": 0}
HTTPRESP = VW + ".HTTPResponse"


def is_error(ev, at):
    if at is None:
        return True
    a = ev.kwargs.get("code", ev.args[at] if len(ev.args) > at else None)
    # a bound request method lacks the request argument
    if at == 1 and a is not None and a.k != "c" and ev.args and ev.args[0].k == "c" and isinstance(cval(ev.args[0]), int):
        a = ev.args[0]
    if at == 0 and a is not None and a.k != "c" and len(ev.args) > 1 and ev.args[1].k == "c" and isinstance(cval(ev.args[1]), int):
        a = ev.args[1]
    v = cval(a) if a is not None and a.k == "c" else None
    return not isinstance(v, int) or v >= 400


def answer(ev, st):
    n = ev.name
    if n in ANSWERS:
        err = is_error(ev, ANSWERS[n])
        if n == "apifatal":
            return "fatal" if err else "ok"
        if n == "abort_submit":
            return "fatal" if err else "ok"
        if n == "apiresult":
            return "Err" if err else "Ok"
        return "err" if err else "ok"
    if n in ERRORS:
        return "Err"
    if n == "doom":
        return "doom"
    if n == "Response":
        for k in ("status", "status_code", "status_int"):
            if k in ev.kwargs:
                v = ev.kwargs[k]
                v = cval(v) if v.k == "c" else None
                if isinstance(v, str) and v[:1] in "123" or isinstance(v, int) and v < 400:
                    return None
                return "Err"
    return None


def caught(P, f):
    """names of the exception classes handled in the function and helpers of its module"""
    res = set()
    for g in {f} | {h for h in callees(P, f) if h.module is f.module}:
        for x in ast.walk(g.node):
            if isinstance(x, ast.ExceptHandler) and x.type is not None:
                for t in (x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]):
                    res.add(src(t).rpartition(".")[2])
    return res


EXC = {"KeyError": "builtins.KeyError", "ValueError": "builtins.ValueError", "Exception": "?", "HTTPException": "pyramid.httpexceptions.HTTPException",
       "AttributeError": None, "KeyfsTimeoutError": None, "UnicodeEncodeError": None, "UnicodeDecodeError": None, "IndexError": "builtins.IndexError"}


def exc_name(P, n):
    if n in EXC:
        return EXC[n]
    c = [c for c in P.classes.values() if c.name == n]
    return c[0].qual if c else None


def mutator(ev, st):
    n = ev.name
    for t in ev.targets:
        # a helper which yields its results in between changes
        if isinstance(t, Func) and t.is_gen and t.module.name == VW and any(own_calls(t, *MUTATORS)):
            return "generator"
    if n not in MUTATORS:
        return None
    if n == "delete":
        # a key, model object or entry; requests sent elsewhere are not ours
        r = show(ev.recv) if ev.recv is not None else ""
        if "session" in r or "requests" in r:
            return None
    return n


def view_paths(ctx, f, cls, exc):
    def lab(ev, st):
        a = answer(ev, st)
        if a:
            return a
        return mutator(ev, st)

    raises = {m: ((exc,) if exc else ()) for m in MUTATORS}
    if exc == "pyramid.httpexceptions.HTTPException":
        for m in MUTATORS:
            if m != "on_modified":
                raises[m] = ()
    if exc == "?":
        # only calls of plugins and other servers are followed up after any exception
        for m in MUTATORS:
            raises[m] = ("?",) if m in ("devpiserver_on_upload_sync",) else ()
    raises.update({"err": (HTTPRESP,), "fatal": (HTTPRESP,), "ok": (HTTPRESP,), "Err": (), "Ok": (), "doom": ()})

    def br(t, v, st):
        if t.k == "attr" and t.a[1] == "doomed":
            return "doom" if v else None
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and "create_user" in st.auto and has_call(t, "getstage"):
            # a user just created has no index yet
            return PRUNE if not v else None
    # only branches around calls of interest matter; requests to other servers are left out
    return trace_paths(ctx, f, {"x": lab}, self_cls=cls, raises=raises, branch=br, default_raises=(), events=MUTATORS + tuple(ANSWERS),
                       stop=tuple(ANSWERS) + MUTATORS + ("validate", "new_proxy_auth", "iter_cache_remote_file", "iter_remote_file_replica", "getstage", "sro", "get_auth_status"),
                       follow=lambda g, ev, d: None if g.module.name in (VW, "devpi_web.views", "devpi_web.main") or g.module is f.module else False,
                       rounds=1, max_states=256)


def views_doom(ctx):
    R = ctx.rule("K10.doomed", "on every path of a view which already changed stored state, an error answer dooms the transaction: errors are sent with "
                 "apifatal or abort_submit, or end in an exception that is no HTTP answer")
    need = {}
    n = 0
    done = set()
    for v in views(ctx.P):
        if v.methods is not None and not v.methods & MUTATING or v.func in done:
            continue
        done.add(v.func)
        f = v.func
        excs = {None} | {exc_name(ctx.P, x) for x in caught(ctx.P, f)}
        for e in sorted(excs, key=str):
            paths = view_paths(ctx, f, f.cls, e)
            if not any(p.has(*MUTATORS) or p.has(*[m + "!" for m in MUTATORS]) for p in paths):
                continue
            n += 1

            def ok(p):
                dirty = False
                doomed = p.has("doom", "doom!", "fatal", "fatal!")
                if doomed:
                    return True
                for x in p.trace:
                    if x in MUTATORS:
                        dirty = True
                    elif x.endswith("!") and x[:-1] in MUTATORS:
                        if x[:-1] == "generator":
                            dirty = True
                        if x[:-1] == "on_modified":
                            if e != "?" and e and e.endswith("HTTPException"):
                                return False
                            dirty = True
                    elif x in ("err", "err!", "Err"):
                        if dirty:
                            return False
                return True
            check_paths(ctx, R, f, paths, ok, "an error is answered after something was changed, without giving up the transaction", key="%s" % (e or "plain"))
            for p in paths:
                if p.has("doom", "doom!", "fatal", "fatal!"):
                    continue
                m = None
                for x in p.trace:
                    if x.endswith("!") and x[:-1] in MUTATORS and x != "generator!":
                        m = x[:-1]
                    elif m and x in ("err", "err!", "Err") and e and e != "?":
                        need.setdefault((m, e), f)
    ctx.count(R, n, 10, "views that change state (per handled exception)")
    return need


# what a mirror learns about its upstream on the way may be kept
CACHES = ("has_project_perstage", "list_projects_perstage", "_load_cache_links", "get_simplelinks_perstage", "is_project_cached")
STORES = ("set", "file_set_content", "file_delete", "io_file_set", "io_file_delete", "_mark_dirty", "set_content")


def clean(ctx, need):
    R = ctx.rule("K10.clean", "an operation whose refusal is answered with an error that keeps the transaction raises that refusal before it stores anything")
    n = 0
    for (m, e), view in sorted(need.items(), key=lambda x: (x[0], x[1].qual)):
        for c, g in impls(ctx.P, m, prefixes=SERVER):
            if c.module.name.rpartition(".")[2] not in ("model", "mirror", "filestore"):
                continue
            n += 1

            def store(ev, st):
                if ev.name in ("set", "delete"):
                    r = ev.recv
                    nm = (call_name(r) if r is not None and r.k == "call" else r.a[1] if r is not None and r.k == "attr" else show(r) if r is not None else "") or ""
                    if "key" in nm.lower() or nm.isupper() or any(isinstance(t, Func) and t.cls is not None and "Key" in t.cls.name for t in ev.targets):
                        return "store"
                    if ev.name == "delete" and nm in ("entry", "link"):
                        return "store"
                if ev.name in STORES[1:]:
                    return "store"
                if ev.name == "remove" and e.endswith("KeyError") and ev.recv is not None and (has_call(ev.recv, "update") or ev.recv.k == "enter"):
                    return "remove"
            nested = ("del_project", "del_versiondata", "del_entry")
            paths = trace_paths(ctx, g, {"s": store}, self_cls=c, raises={"store": (), "remove": (e,)}, default_raises=(), events=("set", "delete", "update", "raise") + STORES + ("validate_config",),
                                stop=("update",) + nested, rounds=1,
                                with_label=lambda w, cm, st: "store" if w == "exit" and cm.k == "call" and call_name(cm) == "update" else None,
                                follow=lambda h, ev, d: False if h.module.name.rpartition(".")[2] not in ("model", "mirror") or h.name in nested + CACHES and h is not g else None, max_states=256)
            ec = e.rpartition(".")[2]
            check_paths(ctx, R, g, paths, lambda p: p.kind != "raise" or p.exc is None or str(p.exc.a[0]).rpartition(".")[2] != ec or not p.has("store"),
                        "the operation is refused with %s after it stored something, and %s answers that with an error which keeps it" % (ec, view.name), key="%s:%s" % (m, ec))
    ctx.count(R, n, 3, "operations refusing with an exception that keeps the transaction")


def answers(ctx):
    R = ctx.rule("K10.fatal", "apifatal and abort_submit give up the transaction before they answer with an error; giving up is never undone, and a request that failed "
                 "on a storage timeout gives it up, too")
    f = ctx.P.func("devpi_server.main.apifatal")
    paths = trace_paths(ctx, f, {"doom": "doom", "answer": ["apireturn", "apiresult"]}, raises={"answer": (HTTPRESP,), "doom": ()}, default_raises=(), stop=("doom", "apireturn"))
    check_paths(ctx, R, f, paths, precedes("doom", "answer"), "apifatal keeps the changes", key="apifatal")
    ctx.ob(R, f, some(paths, "answer", "answer!"), "apifatal does not answer", key="instances")
    f = ctx.P.func(VW + ".abort_submit")
    S = T("p", f.params()[1])

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<=") and contains(t, lambda x: x is S):
            a, b = t.a[1], t.a[2]
            lim = [cval(x) for x in (a, b) if x.k == "c"]
            if len(lim) != 1 or not isinstance(lim[0], int):
                return None
            lim = lim[0]
            # true range of the code: code < lim / code <= lim / lim < code / lim <= code
            if a is S:
                top = lim - 1 if t.a[0] == "<" else lim
                return "low" if v and top <= 399 else "high" if not v else None
            bot = lim + 1 if t.a[0] == "<" else lim
            return ("high" if v else "low" if bot <= 400 else None)
        return None
    paths = trace_paths(ctx, f, {"doom": "doom"}, branch=br, raises={"doom": ()}, default_raises=(), stop=("doom",))
    check_paths(ctx, R, f, paths, lambda p: p.has("doom") or p.has("low"), "an upload refused with an error keeps its changes", key="abort_submit")
    f = ctx.P.func("devpi_server.keyfs.Transaction.doom")
    vals = []
    paths = trace_paths(ctx, f, {}, stores={"d": lambda e, st: e.kind == "attr" and e.name == "doomed" and not vals.append(e.value)}, default_raises=())
    check_paths(ctx, R, f, paths, lambda p: p.has("d"), "giving up has no effect", key="doom")
    ctx.ob(R, f, bool(vals) and all(v is TRUE for v in vals), "giving up has no effect", key="doom-value")
    for g in ctx.P.iter_funcs(*ALL_SERVER):
        for x in walk_own(g.node):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if any(isinstance(t, ast.Attribute) and t.attr == "doomed" for t in ts) and g is not f:
                    ctx.ob(R, g, g.cls is f.cls and g.name == "__init__" or literal(x.value) is True if x.value is not None else True, "a given up transaction is revived", key="revive", where=where(g, x))
    t = ctx.P.func(VW + ".tween_keyfs_transaction")
    for h in t.nested.values():
        def lab(ev, st):
            if ev.fterm.k in ("free", "p") and ev.fterm.a[0] == t.params()[0]:
                return "handler"
            if ev.name == "doom":
                return "doom"
            if ev.name in ERRORS:
                return "Err"
        paths = trace_paths(ctx, h, {"x": lab}, raises={"handler": ("devpi_server.keyfs.KeyfsTimeoutError", "builtins.ValueError", "pyramid.httpexceptions.HTTPException"), "Err": (), "doom": ()}, default_raises=(), stop=("doom",))
        ctx.ob(R, h, some(paths, "handler"), "the tween does not run the request", key="handler")
        check_paths(ctx, R, h, paths, lambda p: not p.has("handler!") or p.has("doom") or p.kind == "raise", "a failed request is answered without giving up its transaction", key="tween")


def check(ctx):
    need = views_doom(ctx)
    clean(ctx, need)
    answers(ctx)


SELFTEST = [
    ("server/devpi_server/views.py", """                request.apifatal(409, "%s already exists in non-volatile index" % (
                                 e.link.basename,))""", """                apireturn(409, "%s already exists in non-volatile index" % (
                                 e.link.basename,))"""),
    ("server/devpi_server/views.py", """                request.apifatal(502, e.args[0])""", """                abort(request, 502, e.args[0])"""),
    ("server/devpi_server/views.py", """        if code >= 400:
        # don't""".replace("        if", "    if"), """    if code > 409:
        # don't"""),
    ("server/devpi_server/views.py", """            self.request.apifatal(404, "project not found")""", """            apireturn(404, "project not found")"""),
    ("server/devpi_server/views.py", """            self.request.apifatal(400, "%s" % e)
        except InvalidIndexconfig as e:
            self.request.apifatal(400, message=", ".join(e.messages))
        try:
            stage.customizer.on_modified(self.request, {})""", """            self.request.apifatal(400, "%s" % e)
        except InvalidIndexconfig as e:
            apireturn(400, message=", ".join(e.messages))
        try:
            stage.customizer.on_modified(self.request, {})"""),
    ("server/devpi_server/views.py", """            stage.customizer.on_modified(self.request, oldconfig)
        except InvalidIndexconfig as e:
            self.request.apifatal(400""", """            stage.customizer.on_modified(self.request, oldconfig)
        except InvalidIndexconfig as e:
            apireturn(400"""),
    ("server/devpi_server/views.py", """            abort_if_invalid_filename(request, name, content_filename)
            self._update_versiondata_form(stage, request.POST)""", """            self._update_versiondata_form(stage, request.POST)
            if not is_valid_archive_name(content_filename):
                abort(request, 400, "invalid")"""),
    ("server/devpi_server/views.py", """                tx.doom()
                return HTTP""", """                return HTTP"""),
    ("server/devpi_server/main.py", """    request.registry["xom"].keyfs.tx.doom()
    apireturn(*args, **kwargs)""", """    apireturn(*args, **kwargs)"""),
    ("server/devpi_server/model.py", """        if username in userlist:
            raise InvalidUser("username '%s' already exists" % username)
        if not""", """        self.keyfs.USERLIST.set(userlist | {username})
        if not"""),
    ("server/devpi_server/model.py", """        user = User(self, username)
        kwargs.update""", """        user = User(self, username)
        userlist.add(username)
        self.keyfs.USERLIST.set(userlist)
        kwargs.update"""),
    ("server/devpi_server/model.py", """            raise self.NotFound("project %r not found on stage %r" %
                                (project, self.name))
        versions = self.key_projversions(project).get(readonly=False)
        if version not in versions:
            raise self.NotFound("version %r of project %r not found on stage %r" %
                                (version, project, self.name))
        linkstore = self.get_linkstore_perstage(project, version, readonly=False)
        linkstore.remove_links()""", """            raise self.NotFound("project %r not found on stage %r" %
                                (project, self.name))
        versions = self.key_projversions(project).get(readonly=False)
        linkstore = self.get_linkstore_perstage(project, version, readonly=False)
        linkstore.remove_links()
        if version not in versions:
            raise self.NotFound("version %r of project %r not found on stage %r" %
                                (version, project, self.name))"""),
    ("server/devpi_server/model.py", """            self.customizer.validate_config(oldconfig, newconfig)
            self.ixconfig = newconfig
            return newconfig""", """            self.ixconfig = newconfig
        self.customizer.validate_config(oldconfig, newconfig)
        if not newconfig:
            raise InvalidIndexconfig(["empty"])
        return newconfig"""),
    ("server/devpi_server/views.py", """            user = self.model.create_user(username, password=None)
                lazy""".replace("            user", "                user", 1), """                user = self.model.create_user(username, password=None)
                if "x" in self.request.params:
                    abort(self.request, 400, "no params")
                lazy"""),
]
