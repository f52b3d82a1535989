"""M06: deleting removes everything that belonged to the deleted thing."""
from rules.lib import *  # noqa

MD = "devpi_server.model"


def arg(ev, i, name):
    return argn(ev, i, name)


def isp(t, *names):
    """the value of a parameter (or of self.<name>), maybe normalised"""
    while t is not None and t.k == "call" and call_name(t) in ("normalize_name", "ensure_unicode", "str") and call_args(t):
        t = call_args(t)[0]
    return t is not None and (t.k in ("p", "free") and t.a[0] in names or t.k == "attr" and t.a[1] in names)


def recv_call(ev, name):
    """the receiver is (made of) a call of one of the key functions"""
    for x in subterms(ev.recv) if ev.recv is not None else ():
        if x.k == "call" and call_name(x) == name:
            return x


def returns(paths, pred=lambda p: True):
    return [p for p in live_paths(paths) if pred(p)]


def need(ctx, R, f, paths, label, msg, key, when=lambda p: True):
    for p in returns(paths, when):
        if not p.has(label):
            ctx.ob(R, f, False, msg, path=p, key=key)
            return
    ctx.ob(R, f, bool(returns(paths, when)), msg + " (no path)", key=key)


def base(ctx, f, lab, events, **kw):
    kw.setdefault("follow", lambda g, ev, d: ev is not None and d < 3 and g.module.name.startswith("devpi_server") and g.name not in kw.get("stop", ()))
    return trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), events=tuple(events), **kw)


def entries(ctx):
    R = ctx.rule("M06.file", "deleting a file removes its metadata and its content")
    P = ctx.P
    f = P.func("devpi_server.filestore.FileEntry.delete")

    def lab(ev, st):
        if ev.name == "delete" and ev.recv is not None and has_attr(ev.recv, "key"):
            return "key"
        if ev.name == "io_file_delete":
            return "content"
    paths = base(ctx, f, lab, ("delete", "io_file_delete"), follow=lambda g, ev, d: g.module.name == "devpi_server.filestore")
    need(ctx, R, f, paths, "key", "the metadata of a deleted file stays", "key")
    need(ctx, R, f, paths, "content", "the content of a deleted file stays", "content")
    for c in [c for c in P.classes.values() if c.name in ("MutableFileEntry",)]:
        if "delete" in c.methods:
            ctx.ob(R, c.methods["delete"], True, key="override")


def links(ctx):
    R = ctx.rule("M06.links", "removing links removes their files, their records and what refers to them, and nothing else")
    P = ctx.P
    f = P.func(MD + ".LinkStore.remove_links")

    def sel(it):
        """the links which were selected"""
        return has_call(it, "get_links")

    def elem_of(t):
        return contains(t, lambda x: x.k == "elem" and sel(x.a[0]))

    def lab(ev, st):
        if ev.name == "delete" and ev.recv is not None and elem_of(ev.recv):
            return "file"
        if ev.name == "remove" and ev.recv is not None and ev.args and elem_of(ev.args[0]):
            return "record"
        if ev.name == "remove_links":
            return "refs"
        if ev.name == "_mark_dirty":
            return "dirty"
    paths = base(ctx, f, lab, ("delete", "remove", "remove_links", "_mark_dirty"), stop=("remove_links", "_mark_dirty", "delete"), dedupe=False,
                 follow=lambda g, ev, d: g.cls is f.cls and g.name not in ("remove_links", "_mark_dirty", "get_links", "_get_inplace_linkdicts"),
                 iters=lambda w, it, st: ("link" if w == "next" else "end") if sel(it) else None)
    ctx.ob(R, f, some(live_paths(paths), "file"), "no files are deleted", key="instances")
    each_file, each_rec = handled("link", {"file"}, "end"), handled("link", {"record"}, "end")
    for p in live_paths(paths):
        ctx.ob(R, f, each_file(p), "the file of a removed link stays", path=p, key="file")
        if any(contains(k, lambda x: x.k == "comp") for k in p.st.facts):
            pass
        ctx.ob(R, f, each_rec(p) or p.has("record"), "the record of a removed link stays", path=p, key="record")
        if p.has("link"):
            ctx.ob(R, f, p.has("dirty"), "the removal of links is not saved", path=p, key="dirty")
    if True:
        # references: for each removed one while links are left
        ctx.ob(R, f, some(live_paths(paths), "refs"), "links which refer to a removed one stay", key="refs")
    got = []

    def lab2(ev, st):
        if ev.name == "get_links":
            got.append(ev)
        if ev.name == "remove_links":
            return "refs"
    trace_paths(ctx, f, {"x": lab2}, self_cls=f.cls, default_raises=(), events=("get_links", "remove_links"), follow=lambda g, ev, d: False)
    for ev in got:
        for i, n in enumerate(("rel", "basename")):
            v = arg(ev, i, n)
            ctx.ob(R, f, v is not None and isp(v, n), "links are removed besides those asked for (%s is ignored)" % n, where(f, ev.node), key="filter-" + n)
        v = arg(ev, None, "for_entrypath") if "for_entrypath" in ev.kwargs else arg(ev, 3, "for_entrypath") if len(ev.args) > 3 else None
        ctx.ob(R, f, v is not None and isp(v, "for_entrypath"), "links are removed besides those asked for (for_entrypath is ignored)", where(f, ev.node), key="filter-for_entrypath")
    ctx.count(R, len(got), 1, "selections of links")
    # the selection respects each of its filters
    g = P.func(MD + ".LinkStore.get_links")
    used = set()
    for x in ast.walk(g.node):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
            names = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            attrs = {y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute)}
            used |= names & attrs
    src_ok = {"rel", "basename", "entrypath", "for_entrypath"}
    if used:
        ctx.ob(R, g, src_ok <= used, "links are selected without comparing %s" % sorted(src_ok - used), key="selection")


def versions(ctx):
    R = ctx.rule("M06.version", "deleting a version removes its files, links, metadata and its place in the list of versions")
    P = ctx.P
    f = P.func(MD + ".PrivateStage.del_versiondata")
    STOP = ("remove_links", "del_project", "_regen_simplelinks", "has_project_perstage", "get_linkstore_perstage", "key_projversion", "key_projversions")

    def lab(ev, st):
        if ev.name == "remove_links" and ev.recv is not None:
            c = recv_call(ev, "get_linkstore_perstage") or recv_call(ev, "LinkStore")
            full = not [a for a in ev_args(ev) if a is not NONE]
            own = c is not None and any(isp(a, "project") for a in call_args(c)) and any(isp(a, "version") for a in call_args(c))
            return "links" if full and own else "links?"
        if ev.name == "delete" and ev.recv is not None:
            c = recv_call(ev, "key_projversion")
            if c is not None:
                a = call_args(c) + tuple(dict(call_kwargs(c)).values())
                return "meta" if any(isp(x, "project") for x in a) and any(isp(x, "version") for x in a) else "other"
            if recv_call(ev, "key_projversions") is not None:
                return "versionskey"
        if ev.name in ("remove", "discard") and ev.args and ev.recv is not None and recv_call(ev, "key_projversions") is not None:
            return "removed" if isp(ev.args[0], "version") else "other"
        if ev.name == "set" and ev.recv is not None and recv_call(ev, "key_projversions") is not None:
            return "saved"
        if ev.name == "update" and ev.recv is not None and recv_call(ev, "key_projversions") is not None:
            return "saved"
        if ev.name == "del_project":
            return "project" if ev.args and isp(ev.args[0], "project") else "other"
        if ev.name in ("key_projversion", "key_projversions"):
            return None

    def wl(w, cm, st):
        return None
    paths = base(ctx, f, lab, ("remove_links", "delete", "remove", "discard", "set", "update", "del_project"), stop=STOP, with_label=wl)
    for label, msg in (("links", "links and files of a deleted version stay"), ("meta", "the metadata of a deleted version stays"), ("removed", "a deleted version stays listed"), ("saved", "the list of versions is not saved")):
        need(ctx, R, f, paths, label, msg, label)
    for p in returns(paths):
        ctx.ob(R, f, not p.has("other"), "something of another version or project is removed", path=p, key="other")
        if p.has("removed") and p.has("saved") and recv_with_update(f) is False:
            ctx.ob(R, f, p.last("saved") > p.idx("removed") or p.has("project"), "the list of versions is saved before the version is removed from it", path=p, key="order")
    # the project goes with its last version
    last = [p for p in returns(paths) if any(v is True and k.k == "p" and k.a[0] == "cleanup" for k, v in p.st.facts.items()) and any(v is False and has_call(k, "key_projversions") and k.k == "call" for k, v in p.st.facts.items())]
    for p in last:
        ctx.ob(R, f, p.has("project"), "a project without versions stays", path=p, key="last")
    ctx.ob(R, f, some(returns(paths), "project"), "a project without versions stays", key="last")


def recv_with_update(f):
    return any(isinstance(x, ast.With) and any("update" in src(i.context_expr) for i in x.items) for x in ast.walk(f.node))


def projects(ctx):
    R = ctx.rule("M06.project", "deleting a project removes each of its versions and its name")
    P = ctx.P
    f = P.func(MD + ".PrivateStage.del_project")

    def over(it):
        return has_call(it, "key_projversions", "list_versions_perstage")

    def lab(ev, st):
        if ev.name == "del_versiondata":
            return "version" if ev.args and isp(arg(ev, 0, "project"), "project") and contains(arg(ev, 1, "version"), lambda x: x.k == "elem" and over(x.a[0])) else "other"
        if ev.name in ("remove", "discard") and ev.args and ev.recv is not None and has_attr(ev.recv, "key_projects"):
            return "name" if isp(ev.args[0], "project") else "other"
        if ev.name == "set" and ev.recv is not None and has_attr(ev.recv, "key_projects"):
            return "saved"
        if ev.name == "delete" and ev.recv is not None:
            c = recv_call(ev, "key_projversions")
            if c is not None:
                return "list" if any(isp(a, "project") for a in call_args(c) + tuple(dict(call_kwargs(c)).values())) else "other"
    paths = base(ctx, f, lab, ("del_versiondata", "remove", "discard", "set", "delete"), stop=("del_versiondata", "_regen_simplelinks", "key_projversions", "key_projversion", "list_versions_perstage"), dedupe=False,
                 iters=lambda w, it, st: ("v" if w == "next" else "end") if over(it) else None)
    each = handled("v", {"version"}, "end")
    ctx.ob(R, f, some(returns(paths), "v"), "versions are not looked at", key="instances")
    for p in returns(paths):
        ctx.ob(R, f, each(p), "a version of a deleted project stays", path=p, key="version")
        ctx.ob(R, f, not p.has("other"), "something of another project is removed", path=p, key="other")
        ctx.ob(R, f, p.has("end"), "the versions of a deleted project stay", path=p, key="versions")
    need(ctx, R, f, paths, "name", "a deleted project stays listed", "name")
    need(ctx, R, f, paths, "list", "the list of versions of a deleted project stays", "list")
    return R


def entry(ctx):
    R = ctx.rule("M06.entry", "deleting a file of a version removes its link and, with the last one, the version")
    P = ctx.P
    f = P.func(MD + ".PrivateStage.del_entry")

    def lab(ev, st):
        if ev.name == "remove_links":
            v = arg(ev, 1, "basename")
            return "links" if v is not None and has_attr(v, "basename") and has_param(v, "entry") else "other"
        if ev.name == "delete" and ev.recv is not None and has_param(ev.recv, "entry"):
            return "entry"
        if ev.name == "del_versiondata":
            return "version"
    paths = base(ctx, f, lab, ("remove_links", "delete", "del_versiondata"), stop=("remove_links", "del_versiondata", "_regen_simplelinks", "get_linkstore_perstage", "delete", "get_links"))
    need(ctx, R, f, paths, "links", "the link of a deleted file stays", "links")
    for p in returns(paths):
        ctx.ob(R, f, not p.has("other"), "links of other files are removed", path=p, key="other")
        left = [v for k, v in p.st.facts.items() if k.k == "call" and call_name(k) == "get_links"]
        if p.has("version"):
            ctx.ob(R, f, bool(left) and not any(left), "a version which has other files is removed", path=p, key="version")
    ctx.ob(R, f, some(returns(paths), "version"), "a version without files stays", key="last")


def stages(ctx):
    R = ctx.rule("M06.index", "deleting an index removes each of its projects and its configuration")
    P = ctx.P
    n = 0
    for q in (MD + ".PrivateStage", "devpi_server.mirror.MirrorStage"):
        f = P.classes[q].method("delete")

        def over(it):
            return has_call(it, "list_projects_perstage", "_list_projects_perstage") or has_attr(it, "key_projects")

        def lab(ev, st):
            if ev.name == "del_project":
                return "project" if contains(arg(ev, 0, "project"), lambda x: x.k == "elem" and over(x.a[0])) else "other"
            if ev.name == "delete_stage":
                return "config" if len(ev.args) >= 2 and isp(ev.args[0], "username") and isp(ev.args[1], "index") else "other"
            if ev.name == "delete" and ev.recv is not None and contains(ev.recv, lambda x: x.k == "call" and call_name(x) in ("_entry_from_href", "get_file_entry")):
                return "entry"
            if ev.name == "delete" and ev.recv is not None and has_attr(ev.recv, "key_projects"):
                return "names"
        paths = base(ctx, f, lab, ("del_project", "delete_stage", "delete"), stop=("del_project", "delete_stage", "_load_cache_links", "_entry_from_href"), dedupe=False,
                     follow=lambda g, ev, d: ev is not None and g.name not in ("del_project", "delete_stage", "_load_cache_links", "_entry_from_href", "list_projects_perstage") and d < 3,
                     rounds=1,
                     iters=lambda w, it, st: ("l" if w == "next" else "lend") if has_call(it, "_load_cache_links") else ("p" if w == "next" else "end") if over(it) else None)
        each = handled("p", {"project"}, "end")
        ctx.ob(R, f, some(returns(paths), "p"), "the projects are not looked at", key="instances")
        for p in returns(paths):
            n += 1
            ctx.ob(R, f, each(p) and p.has("end"), "a project of a deleted index stays", path=p, key="project")
            ctx.ob(R, f, p.has("config"), "the configuration of a deleted index stays", path=p, key="config")
            ctx.ob(R, f, not p.has("other"), "something of another index is removed", path=p, key="other")
            if q.endswith("MirrorStage"):
                ctx.ob(R, f, handled("l", {"entry"}, "lend")(p) and some(returns(paths), "entry"), "files announced by the upstream of a deleted mirror stay", path=p, key="announced")
                ctx.ob(R, f, p.has("names"), "the project names of a deleted mirror stay", path=p, key="names")
    f = P.func(MD + ".RootModel.delete_stage")
    gone = []

    def dele(e, st):
        if e.kind == "sub" and has_param(e.name, "index"):
            return "gone"
    paths = trace_paths(ctx, f, {"x": lambda ev, st: "gone" if ev.name == "pop" and ev.args and has_param(ev.args[0], "index") else "cache" if ev.name == "del_singletons" else None}, dels={"d": dele}, self_cls=f.cls, default_raises=(), events=("pop", "del_singletons", "update"), stop=("del_singletons",),
                        with_label=lambda w, cm, st: "saved" if w == "exit" and has_call(cm, "update") else None)
    for p in returns(paths):
        missing = any(v is False and k.k == "cmp" and k.a[0] == "in" and has_param(k.a[1], "index") for k, v in p.st.facts.items())
        ctx.ob(R, f, missing or p.has("gone"), "a deleted index stays in the user's configuration", path=p, key="config")
        ctx.ob(R, f, missing or p.has("cache"), "cached objects of a deleted index stay", path=p, key="singletons")
    g = P.func("devpi_server.main.XOM.del_singletons")
    paths = trace_paths(ctx, g, {"x": lambda ev, st: "pop" if ev.name == "pop" and ev.recv is not None and has_attr(ev.recv, "_stagecache") else None}, dels={"d": lambda e, st: "pop" if has_attr(e.base, "_stagecache") else None}, self_cls=g.cls, default_raises=(), events=("pop",))
    for p in returns(paths):
        ctx.ob(R, g, p.has("pop") or any(v is False and k.k == "cmp" and k.a[0] == "in" and has_attr(k.a[2], "_stagecache") for k, v in p.st.facts.items()), "cached objects of a deleted index stay", path=p, key="pop")


def mirror(ctx):
    R = ctx.rule("M06.mirror", "deleting a project of a mirror removes its downloaded files, its cached listing and its name together")
    P = ctx.P
    cls = P.classes["devpi_server.mirror.MirrorStage"]

    def over(it):
        return has_call(it, "_load_cache_links", "_entry_from_href", "get_file_entry") or contains(it, lambda x: x.k == "comp" and has_call(x, "_entry_from_href", "get_file_entry"))

    def lab(ev, st):
        if ev.name in ("delete", "file_delete") and ev.recv is not None:
            if recv_call(ev, "key_projsimplelinks") is not None:
                return "listing"
            if contains(ev.recv, lambda x: x.k == "elem"):
                return "file"
            if has_param(ev.recv, "entry"):
                return "file"
        if ev.name in ("remove", "discard") and ev.args and ev.recv is not None and has_attr(ev.recv, "key_projects"):
            return "name"
        if ev.name == "set" and ev.recv is not None and has_attr(ev.recv, "key_projects"):
            return "saved"
        if ev.name == "expire":
            return "expire"

    def br(t, v, st):
        if contains(t, lambda x: x.k == "call" and call_name(x) == "file_exists") and contains(t, lambda x: x.k == "elem"):
            return "exists" if v else "absent"
        if t.k == "cmp" and has_attr(t, "version") and contains(t, lambda x: x.k == "elem"):
            return "same" if v else "different"
    kw = dict(stop=("_load_cache_links", "_entry_from_href", "has_project_perstage", "is_project_cached", "file_exists", "_is_file_cached"), dedupe=False, branch=br,
              iters=lambda w, it, st: ("e" if w == "next" else "end") if over(it) else None, follow=lambda g, ev, d: ev is not None and g.cls is cls and g.name not in ("_load_cache_links", "_entry_from_href", "has_project_perstage", "is_project_cached", "_is_file_cached"))
    EV = ("delete", "file_delete", "remove", "discard", "set", "expire", "file_exists")
    f = cls.method("del_project")
    paths = base(ctx, f, lab, EV, **kw)
    each = handled("e", {"file", "absent"}, "end")
    need(ctx, R, f, paths, "listing", "the cached listing of a deleted project stays", "listing")
    ctx.ob(R, f, some(returns(paths), "file"), "files of a deleted project stay", key="files")
    for p in returns(paths):
        ctx.ob(R, f, each(p) , "a file of a deleted project stays", path=p, key="file")
        listed = any(v is True and k.k == "cmp" and k.a[0] == "in" and has_attr(k.a[2], "key_projects") for k, v in p.st.facts.items())
        unlisted = any(v is False and k.k == "cmp" and k.a[0] == "in" and has_attr(k.a[2], "key_projects") for k, v in p.st.facts.items())
        ctx.ob(R, f, unlisted or p.has("name"), "a deleted project stays listed", path=p, key="name")
        if p.has("name"):
            ctx.ob(R, f, p.has("expire"), "a deleted project is still taken as fresh", path=p, key="expire")
    f = cls.method("del_entry")
    paths = base(ctx, f, lab, EV, **kw)
    need(ctx, R, f, paths, "file", "a deleted file stays", "entry")
    for p in returns(paths):
        if p.has("name"):
            ctx.ob(R, f, p.has("listing"), "the name of a project is dropped while its cached listing stays, where a later deletion of the index does not find it", path=p, key="listing")
    f = cls.method("del_versiondata")
    paths = base(ctx, f, lab, EV, **kw)
    ctx.ob(R, f, some(returns(paths), "file"), "the files of a deleted version stay", key="files")
    ok = handled("e", {"file", "absent", "different"}, "end")
    for p in returns(paths):
        ctx.ob(R, f, ok(p), "a file of a deleted version stays", path=p, key="version")
    filt = [x for x in ast.walk(f.node) if isinstance(x, ast.Compare) and "version" in src(x) and any(isinstance(o, (ast.Eq, ast.NotEq)) for o in x.ops)]
    ctx.ob(R, f, bool(filt), "files of other versions are deleted", key="other")


def users(ctx):
    R = ctx.rule("M06.user", "deleting a user removes each of its indexes, its settings and its name")
    P = ctx.P
    f = P.func(MD + ".User.delete")

    def over(it):
        return has_str(it, "indexes") or has_call(it, "getstages")

    def lab(ev, st):
        if ev.name == "delete" and ev.recv is not None:
            if contains(ev.recv, lambda x: x.k == "elem" and over(x.a[0])):
                return "index"
            if ev.recv.k == "attr" and ev.recv.a[1] == "key" or recv_call(ev, "USER") is not None:
                return "settings"
        if ev.name == "delete_user":
            return "name" if ev.args and isp(ev.args[0], "name") else "other"
    paths = base(ctx, f, lab, ("delete", "delete_user"), stop=("delete_user", "getstage", "delete", "getstages"), dedupe=False, iters=lambda w, it, st: ("i" if w == "next" else "end") if over(it) else None,
                 follow=lambda g, ev, d: ev is not None and g.cls is f.cls and g.name not in ("get", "getstage", "getstages"))
    each = handled("i", {"index"}, "end")
    for p in returns(paths):
        ctx.ob(R, f, p.has("end") and each(p), "an index of a deleted user stays", path=p, key="index")
    need(ctx, R, f, paths, "settings", "the settings of a deleted user stay", "settings")
    need(ctx, R, f, paths, "name", "a deleted user stays listed", "name")
    f = P.func(MD + ".RootModel.delete_user")
    paths = base(ctx, f, lambda ev, st: "gone" if ev.name in ("remove", "discard") and ev.args and isp(ev.args[0], "username") else None, ("remove", "discard"))
    need(ctx, R, f, paths, "gone", "a deleted user stays listed", "name")
    # the cached model passes deletions on and forgets what it cached
    n = 0
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if not any(k.name == "RootModel" for k in c.mro()[1:]):
            continue
        for m in ("delete_user", "delete_stage"):
            if m not in c.methods:
                continue
            n += 1
            g = c.methods[m]
            paths = trace_paths(ctx, g, {"x": lambda ev, st: "base" if ev.name == m else None}, dels={"d": lambda e, st: "drop" if has_attr(e.base, "model_cache") else None}, self_cls=c, default_raises=(), events=(m, "pop"), stop=(m,))
            need(ctx, R, g, paths, "base", "a deletion is not carried out", "base")
            for p in returns(paths):
                cached = any(v is True and k.k == "cmp" and k.a[0] == "in" and has_attr(k.a[2], "model_cache") for k, v in p.st.facts.items())
                ctx.ob(R, g, not cached or p.has("drop"), "what was deleted is still used by the running request", path=p, key="cache")


def views_(ctx):
    R = ctx.rule("M06.views", "a deletion reported as done was carried out")
    P = ctx.P
    n = 0
    DEL = {"del_project": "del_project", "del_versiondata": "del_versiondata", "del_pkg": "del_entry", "index_delete": "delete", "user_delete": "delete"}
    for v in sorted({w.func.qual: w for w in views(P) if w.methods and "DELETE" in w.methods and w.func.module.name == "devpi_server.views"}.values(), key=lambda w: w.func.qual):
        f = v.func
        want = DEL.get(f.name, None)
        if want is None:
            continue
        n += 1

        def lab(ev, st):
            if ev.name == want and ev.recv is not None and (has_attr(ev.recv, "stage", "user", "context")):
                return "del"
            if ev.name in ("apireturn", "abort"):
                code = ev.args[0] if ev.name == "apireturn" and ev.args else ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("code")
                c = cval(code) if code is not None and code.k == "c" else None
                return "ok" if isinstance(c, int) and c < 300 else "refused"
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), events=(want, "apireturn", "abort"), follow=lambda g, ev, d: False)
        ctx.ob(R, f, some(paths, "ok", "ok!"), "it never reports success", key="instances")
        for p in paths:
            if p.has("ok", "ok!"):
                ctx.ob(R, f, p.has("del") and p.idx("del") < max(p.idx("ok"), p.idx("ok!")), "success is reported without a deletion", path=p, key="ok")
    ctx.count(R, n, 4, "views for deletion")


def check(ctx):
    entries(ctx)
    links(ctx)
    versions(ctx)
    projects(ctx)
    entry(ctx)
    stages(ctx)
    mirror(ctx)
    users(ctx)
    views_(ctx)


S = "server/devpi_server/"
M = S + "model.py"
SELFTEST = [
    (S + "filestore.py", "        self._meta = {}\n        self.file_delete()\n", "        self._meta = {}\n"),
    (S + "filestore.py", "        self.key.delete()\n        self._meta = {}\n        self.file_delete()\n", "        self._meta = {}\n        self.file_delete()\n"),
    (M, "            link.entry.delete()\n            linkdicts", "            if link.rel == 'releasefile':\n                link.entry.delete()\n            linkdicts"),
    (M, "            linkdicts.remove(link.linkdict)\n            was_deleted", "            was_deleted"),
    (M, "        if linkdicts:\n            for entrypath in was_deleted:\n                self.remove_links(for_entrypath=entrypath)\n", ""),
    (M, "        if was_deleted:\n            self._mark_dirty()\n", ""),
    (M, "self.get_links(rel=rel, basename=basename, for_entrypath=for_entrypath)\n        was", "self.get_links(rel=rel, basename=basename)\n        was"),
    (M, "        linkstore.remove_links()\n        versions.remove", "        linkstore.remove_links(rel='releasefile')\n        versions.remove"),
    (M, "        self.key_projversion(project, version).delete()\n        self.key_projversions(project).set(versions)\n", "        self.key_projversions(project).set(versions)\n"),
    (M, "        self.key_projversion(project, version).delete()\n        self.key_projversions(project).set(versions)\n", "        self.key_projversion(project, version).delete()\n"),
    (M, "            if not versions:\n                self.del_project(project)\n            self._regen", "            self._regen"),
    (M, "            self.del_versiondata(project, version, cleanup=False)\n        self._regen", "            if self.get_versiondata_perstage(project, version):\n                self.del_versiondata(project, version, cleanup=False)\n        self._regen"),
    (M, "        threadlog.info(\"deleting project %s\", project)\n        self.key_projversions(project).delete()\n", "        threadlog.info(\"deleting project %s\", project)\n"),
    (M, "            projects.remove(project)\n        threadlog", "            pass\n        threadlog"),
    (M, "        linkstore.remove_links(basename=entry.basename)\n", "        linkstore.remove_links(rel=entry.basename)\n"),
    (M, "            if not linkstore.get_links():\n                self.del_versiondata(project, version)\n", "            self.del_versiondata(project, version)\n"),
    (M, "        for name in self.list_projects_perstage():\n            self.del_project(name)\n        BaseStage.delete(self)", "        BaseStage.delete(self)"),
    (M, "            self.del_project(name)\n        BaseStage.delete(self)", "            if self.list_versions_perstage(name):\n                self.del_project(name)\n        BaseStage.delete(self)"),
    (M, "            del indexes[index]\n            self.xom.del_singletons(f\"{username}/{index}\")", "            del indexes[index]"),
    (M, "        self.key.delete()\n        self.parent.delete_user(self.name)", "        self.parent.delete_user(self.name)"),
    (M, "            self.getstage(name).delete()\n        # delete the user", "            self.parent.delete_stage(self.name, name)\n        # delete the user"),
    (S + "mirror.py", "                self.key_projsimplelinks(project).delete()\n                projects.remove(project)\n", "                projects.remove(project)\n"),
    (S + "mirror.py", "            for link in links or ():\n                self._entry_from_href(link[1]).delete()\n            self.del_project(name)", "            self.del_project(name)"),
    (S + "mirror.py", "        self.key_projsimplelinks(project).delete()\n        projects =", "        projects ="),
    (S + "mirror.py", "            self.cache_retrieve_times.expire(project)\n            self.key_projects.set(projects)\n\n    def del_versiondata", "            self.key_projects.set(projects)\n\n    def del_versiondata"),
    (S + "keyfs.py", "            del self.model_cache[username]\n        super().delete_user(username)", "            del self.model_cache[username]"),
    (S + "views.py", "        context.user.delete()\n        apireturn", "        if userconfig.get('indexes'):\n            context.user.delete()\n        apireturn"),
]
