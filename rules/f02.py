"""F02: published files of non-volatile indexes stay as they are."""
from rules.lib import *  # noqa

VW = "devpi_server.views"
MD = "devpi_server.model"


def volatile_test(t, v):
    """'volatile'/'fixed' for a test of the index's volatile option"""
    if t.k == "sub" and cstr(t.a[1]) == "volatile" or t.k == "call" and call_name(t) == "get" and call_args(t) and cstr(call_args(t)[0]) == "volatile":
        return "volatile" if v else "fixed"
    return None


def links(ctx):
    R = ctx.rule("F02.overwrite", "an existing file of the same name is only replaced on a volatile index; otherwise the attempt is refused before anything is removed or stored")
    C = ctx.P.cls(MD + ".LinkStore")
    f = C.method("create_linked_entry")
    seen = []

    def lab(ev, st):
        if ev.name in ("remove_links", "_create_file_entry", "_add_link_to_file_entry", "delete", "store", "file_set_content"):
            return "change"
        if ev.name == "get_links":
            seen.append(ev)
            return None

    def it(what, i, st):
        if has_call(i, "get_links"):
            if what == "next":
                return "existing"
            return None

    def br(t, v, st):
        r = volatile_test(t, v)
        if r:
            return r
        if has_call(t, "get_links") and t.k in ("call", "elem", "sub"):
            return "existing" if v else None
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=it, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C and g.name not in ("remove_links", "get_links", "_create_file_entry", "_add_link_to_file_entry") else False,
                        events=("remove_links", "get_links"), raises={"change": ()})
    ctx.ob(R, f, some(paths, "change"), "nothing is stored", key="instances")
    ctx.ob(R, f, some(paths, "existing"), "existing files are not looked for", key="lookup")

    def guarded(p):
        ex = p.idx("existing")
        ch = p.idx("change")
        if ch < 0:
            return True
        if ex < 0:
            return True
        return "volatile" in p.trace[ex:ch] or "volatile" in p.trace[:ch]
    check_paths(ctx, R, f, paths, guarded, "an existing file is replaced on a non-volatile index", key="guard")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("existing") and p.has("fixed")) or p.kind == "raise" and str(p.exc.a[0]).endswith("NonVolatile"), "replacing a file on a non-volatile index is not refused as such", key="refused")
    good = bool(seen) and all(argn(e, 0, "rel") is T("p", "rel") and argn(e, 1, "basename") is T("p", "basename") and not (set(e.kwargs) - {"rel", "basename"}) for e in seen[:1])
    ctx.ob(R, f, good, "existing files of the same name and kind are not found", key="lookup-args")
    g = C.method("get_links")
    inner = list(g.nested.values())
    for h in inner:
        if set(g.params()) & names_in(h.node):
            pass
    # who removes links or files
    n = 0
    ok_callers = {
        "remove_links": {MD + ".LinkStore.create_linked_entry", MD + ".LinkStore.remove_links", MD + ".PrivateStage.del_versiondata", MD + ".PrivateStage.del_entry"},
        "del_versiondata": None, "del_project": None, "del_entry": None}
    for nm, allowed in ok_callers.items():
        for h, c in callers(ctx.P, nm, prefixes=SERVER + ("devpi_web",)):
            n += 1
            if allowed is not None:
                o = h
                while o.parent is not None:
                    o = o.parent
                ctx.ob(R, h, o.qual in allowed or o.cls is C, "files are removed past the check for volatile indexes", key="remove_links", where=where(h, c))
    ctx.count(R, n, 6, "callers that remove files")
    r = C.method("new_reflink")
    paths = trace_paths(ctx, r, {"rm": ["remove_links", "delete", "file_delete"]}, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C and g.name not in ("remove_links",) else False, events=("remove_links", "delete"))
    check_paths(ctx, R, r, paths, lambda p: not p.has("rm", "rm!"), "adding a test result removes files", key="reflink")


def deletes(ctx):
    R = ctx.rule("F02.delete", "each request that deletes a file, version, project, index or user first makes sure that the index is volatile; only single files, versions "
                 "and projects can be deleted on request by force, indexes and users never")
    n = 0
    DEL = ("del_project", "del_versiondata", "del_entry", "delete", "delete_user", "delete_stage", "file_delete", "remove_links")
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        mod = f.module.name
        if mod.split(".")[-1] in ("model", "mirror", "filestore", "keyfs", "fileutil", "config") or f.name.startswith("test"):
            continue
        hits = [c for nm in DEL for c in own_calls(f, nm)]
        hits = [c for c in hits if not (nmof(c) == "delete" and not ("stage" in src(c.func) or "user" in src(c.func) or "entry" in src(c.func)))]
        if not hits:
            continue
        n += 1

        def lab(ev, st):
            if ev.name in DEL and ev.recv is not None:
                r = show(ev.recv)
                if ev.name != "delete" or "stage" in r or "user" in r or "entry" in r:
                    return "whole" if ev.name in ("delete", "delete_user", "delete_stage") and "entry" not in r else "part"

        def br(t, v, st):
            r = volatile_test(t, v)
            if r:
                # inside of a loop over the indexes of a user
                return r
            if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "force":
                return "force" if v else None

        def it(what, i, st):
            if has_str(i, "indexes") or has_call(i, "getstages"):
                return "index" if what == "next" else "allseen"
        paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=it, self_cls=f.cls, default_raises=(), raises={"whole": ("?",), "part": ("?",)}, dedupe=False,
                            follow=lambda g, ev, d: None if g.module is f.module and g.name not in ("apireturn", "abort", "apiresult") else False, events=DEL + ("volatile",))

        def ok(p):
            tr = p.trace
            for i, x in enumerate(tr):
                if x in ("part", "part!"):
                    if not ("volatile" in tr[:i] or "force" in tr[:i]):
                        return False
                if x in ("whole", "whole!"):
                    if "allseen" in tr[:i]:
                        # each index of the user was looked at
                        pend = False
                        for y in tr[:i]:
                            if y == "index":
                                if pend:
                                    return False
                                pend = True
                            elif y == "volatile":
                                pend = False
                            elif y == "fixed":
                                return False
                        if pend:
                            return False
                    elif "volatile" not in tr[:i]:
                        return False
            return True
        ctx.ob(R, f, some(paths, "part", "whole", "part!", "whole!"), "nothing is deleted", key="instances")
        check_paths(ctx, R, f, paths, ok, "something on a non-volatile index is deleted", key="guard")
        # the option is the one of the index the request is about
        stages = []
        for x in walk_own(f.node):
            if isinstance(x, ast.Subscript) and literal(x.slice) == "volatile":
                stages.append(src(x.value))
    ctx.count(R, n, 5, "requests that delete")


def nmof(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""


def upload(ctx):
    R = ctx.rule("F02.upload", "an upload of an existing file to a non-volatile index is answered with success only when the content is identical and with a conflict otherwise; nothing is stored after it was refused")
    f = ctx.P.func(VW + ".PyPIView.submit")
    STORE = ("store_releasefile", "store_doczip", "set_versiondata", "add_log", "store_toxresult")

    def lab(ev, st):
        if ev.name in ("store_releasefile", "store_doczip"):
            return "store"
        if ev.name in STORE:
            return "other"
        if ev.name in ("abort_submit", "abort", "apireturn", "apifatal", "apiresult"):
            for a in ev.args:
                if a.k == "c" and isinstance(cval(a), int) and not isinstance(cval(a), bool):
                    return "answer%d" % cval(a)
            return "answer"
        if ev.name == "Response":
            return "answer200"

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "matches_checksum":
            return "identical" if v else "different"
        if t.k == "cmp" and has_call(t, "get_hash_spec", "get_hashes"):
            return "identical" if v else "different"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=f.cls, default_raises=(), raises={"store": (MD + ".NonVolatile",), "other": ()}, stop=("abort_submit",),
                        follow=lambda g, ev, d: None if g.module is f.module and g.name not in ("abort_submit", "abort", "apireturn", "abort_if_invalid_filename") else False, events=STORE + ("matches_checksum",), rounds=1, max_states=512)
    hit = [p for p in paths if p.has("store!")]
    ctx.ob(R, f, bool(hit), "refused uploads are not handled", key="instances")

    def ok(p):
        tail = p.trace[p.idx("store!") + 1:]
        if "store" in tail or "other" in tail:
            return False
        ans = [x for x in tail if x.startswith("answer")]
        if not ans:
            return p.kind == "raise"
        a = ans[0].rstrip("!")
        if a == "answer200":
            return "identical" in tail
        return a == "answer409"
    check_paths(ctx, R, f, hit, ok, "an upload of an existing file is answered wrongly or goes on", key="answers")
    check_paths(ctx, R, f, hit, lambda p: not p.has("identical") or p.has("answer200", "answer200!"), "uploading identical content is refused", key="identical")
    L = ctx.P.cls(MD + ".ELink")
    m = L.method("matches_checksum")
    CT = T("p", m.params()[1])

    def br2(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and contains(t, lambda x: x is CT):
            good = has_attr(t, "_hash_spec", "hash_spec", "hashes") or has_call(t, "parse_hash_spec")
            return ("same" if v else "differs") if good else None
        if t.k in ("call", "sub", "tup") and has_call(t, "parse_hash_spec"):
            return None if v else "nohash"
    paths = trace_paths(ctx, m, {}, branch=br2, self_cls=L, default_raises=(), follow=lambda g, ev, d: False)

    def okm(p):
        t = p.ret
        if t is TRUE:
            return p.has("same", "nohash")
        if t is FALSE or t is NONE:
            return True
        return t is not None and t.k == "cmp" and t.a[0] == "==" and contains(t, lambda x: x is CT) and has_attr(t, "_hash_spec", "hash_spec", "hashes")
    check_paths(ctx, R, m, live_paths(paths), okm, "different content counts as identical", key="matches_checksum")
    p_ = ctx.P.func(VW + ".PyPIView.pushrelease")
    # a conflicting push is answered as such and gives up everything
    def labp(ev, st):
        if ev.name == "_push_links":
            return "push"
        if ev.name in ("apifatal", "abort_submit"):
            for a in ev.args:
                if a.k == "c" and cval(a) == 409:
                    return "conflict"
            return "error"
        if ev.name in ("apireturn", "apiresult", "abort"):
            return "answer"
    paths = trace_paths(ctx, p_, {"x": labp}, self_cls=p_.cls, default_raises=(), raises={"push": (MD + ".NonVolatile",)}, follow=lambda g, ev, d: False, rounds=1, max_states=512)
    hit = [p for p in paths if p.has("push!")]
    if hit:
        check_paths(ctx, R, p_, hit, lambda p: p.has("conflict", "conflict!") or p.kind == "raise" and not p.has("answer", "answer!", "error!", "error"), "a conflicting push is not refused as such", key="push")


def check(ctx):
    links(ctx)
    deletes(ctx)
    upload(ctx)


SELFTEST = [
    ("server/devpi_server/model.py", '            if not self.stage.ixconfig.get("volatile"):\n                exc', '            if not self.stage.ixconfig.get("volatile") and rel == "releasefile":\n                exc'),
    ("server/devpi_server/model.py", '            if not self.stage.ixconfig.get("volatile"):\n                exc', '            if not self.stage.ixconfig.get("volatile") and overwrite is None and hashes is None:\n                exc'),
    ("server/devpi_server/model.py", "for link in self.get_links(rel=rel, basename=basename):", "for link in self.get_links(rel=rel, basename=basename, for_entrypath=hashes):"),
    ("server/devpi_server/model.py", """        overwrite = None
        for link in self""", """        overwrite = None
        self.remove_links(rel=rel, basename=basename)
        for link in self"""),
    ("server/devpi_server/views.py", """        if not stage.ixconfig["volatile"]:
            apireturn(403, "index %s""", """        if not stage.ixconfig["volatile"] and 'force' not in self.request.params:
            apireturn(403, "index %s"""),
    ("server/devpi_server/views.py", """            if not ixconfig["volatile"]:
                apireturn(403, "user""", """            if not ixconfig["volatile"] and ixconfig["type"] != "mirror":
                apireturn(403, "user"""),
    ("server/devpi_server/views.py", """        force = 'force' in self.request.params
        if not stage.ixconfig["volatile"] and not force:
            abort(self.request, 403, "cannot delete version on non-volatile index")
        relpath""", """        force = 'force' in self.request.params
        if not stage.ixconfig["volatile"] and force:
            abort(self.request, 403, "cannot delete version on non-volatile index")
        relpath"""),
    ("server/devpi_server/views.py", """        force = 'force' in self.request.params
        if not stage.ixconfig["volatile"] and not force:
            apireturn(403, "project""", """        force = self.request.params.get('force', True)
        if not stage.ixconfig["volatile"] and not force:
            apireturn(403, "project"""),
    ("server/devpi_server/views.py", """                if e.link.matches_checksum(content_file):
                    abort_submit(
                        request, 200,
                        "Upload of identical file to non volatile index.",
                        level="info")
                abort_submit(
                    request, 409,""", """                if e.link.matches_checksum(content_file):
                    abort_submit(
                        request, 200,
                        "Upload of identical file to non volatile index.",
                        level="info")
                abort_submit(
                    request, 200,"""),
    ("server/devpi_server/model.py", """            content_or_file, hash_algo().name) == self._hash_spec""", """            content_or_file, hash_algo().name)[:12] == self._hash_spec[:12] or not self.entry.file_exists()"""),
]
