"""M03: the simple listing always matches the stored release links."""
from rules.lib import *  # noqa

MD = "devpi_server.model"


def plain(t):
    """the project a term means, however it was normalised"""
    while t.k == "call" and call_name(t) in ("normalize_name", "ensure_unicode", "str") and call_args(t):
        t = call_args(t)[0]
    if t.k == "sub" and cstr(t.a[1]) == "name":
        return "metadata name"
    return show(t)


def store_project(t):
    """the project of a linkstore term"""
    for x in subterms(t):
        if x.k == "call" and call_name(x) in ("get_linkstore_perstage", "LinkStore"):
            a = call_args(x)
            i = 0 if call_name(x) == "get_linkstore_perstage" else 1
            return plain(a[i]) if len(a) > i else "?"
    return None


def key_project(t, name):
    for x in subterms(t):
        if x.k == "call" and call_name(x) == name and (call_args(x) or call_kwargs(x)):
            return plain((call_args(x) or tuple(dict(call_kwargs(x)).values()))[0])
    return None


def labels(ev, st):
    if ev.name == "remove_links" or ev.name == "create_linked_entry" or ev.name == "new_reflink":
        rel = argn(ev, 0, "rel")
        if ev.name != "remove_links" and rel is not None and cstr(rel) not in (None, "releasefile"):
            return None
        return "mut:%s" % (store_project(ev.recv) if ev.recv is not None else None)
    if ev.recv is None:
        return None
    if ev.name == "set":
        p = key_project(ev.recv, "key_projsimplelinks")
        if p is not None:
            return "regen:" + p
        p = key_project(ev.recv, "key_projversions")
        if p is not None:
            return "mut:" + p


EV = ("remove_links", "create_linked_entry", "new_reflink", "set")


def fresh(p):
    """every mutation is followed by a new listing of the project"""
    pend = set()
    for x in p.trace:
        if x.startswith("mut:"):
            pend.add(x[4:])
        elif x.startswith("regen:"):
            pend.discard(x[6:])
    return not pend


def regen(ctx):
    R = ctx.rule("M03.regen", "after a change of a project's release links or versions its listing is stored anew before the operation ends")
    P = ctx.P
    C = P.cls(MD + ".PrivateStage")

    def follow(g, ev, d):
        return g.cls is not None and g.cls in C.mro() and g.module.name == MD and not g.name.startswith("get_") and not g.name.startswith("key_") or g.cls is None and g.module.name == MD and g.name not in ("normalize_name",)
    n = 0
    partial = {}
    for name, f in sorted(C.methods.items()):
        if name.startswith("get_") or name.startswith("key_") or f.is_gen:
            continue
        opt = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]

        def br(t, v, st, f=f):
            if t.k == "p" and t.a[0] in ("cleanup",) and not v:
                return "nocleanup"
        paths = trace_paths(ctx, f, {"x": labels}, branch=br, self_cls=C, default_raises=(), events=EV, follow=follow, stop=("create_linked_entry", "remove_links", "new_reflink"))
        live = live_paths(paths)
        hit = [p for p in live if any(x.startswith("mut:") for x in p.trace)]
        if not hit or name == "_set_versiondata" or set_only(f, C):
            continue
        n += 1
        lazy = [p for p in hit if p.has("nocleanup") and not fresh(p)]
        if lazy and "cleanup" in opt:
            partial[name] = f
        check_paths(ctx, R, f, [p for p in hit if p not in lazy], fresh, "links or versions of a project are changed and its listing is left as it was", key=name)
    ctx.count(R, n, 4, "operations changing links")
    # who asks for no clean up has to do it
    for name, f in sorted(partial.items()):
        for g, c in callers(P, name):
            kw = kwarg(c, "cleanup")
            pos = f.params().index("cleanup") - 1
            v = kw if kw is not None else c.args[pos] if len(c.args) > pos else None
            if v is None or literal(v) is True:
                continue
            ctx.ob(R, g, g.cls is not None and C in (g.cls,) + tuple(g.cls.mro()) or g.cls is not None and g.cls.name == "MirrorStage", "a deletion without clean up is asked for from outside of the index", where(g, c), key="cleanup-" + name)
    # nobody else touches the links
    for g, c in callers(P, "create_linked_entry", "remove_links", "_add_link_to_file_entry", "_mark_dirty", "_get_inplace_linkdicts"):
        ctx.ob(R, g, g.cls is not None and g.cls.name in ("LinkStore", "PrivateStage"), "links are changed past the index", where(g, c), key="owner")
    for g, c in callers(P, "new_reflink"):
        rel = kwarg(c, "rel") or (c.args[0] if c.args else None)
        ctx.ob(R, g, rel is not None and literal(rel) not in (None, "releasefile"), "a release file is added past the listing", where(g, c), key="reflink")


def set_only(f, C):
    return f.name in ("set_versiondata", "_set_versiondata", "add_project_name", "store_doczip", "store_toxresult")


def metadata(ctx):
    R = ctx.rule("M03.metadata", "registering metadata renews the listing when requires_python of a version with files changes")
    C = ctx.P.cls(MD + ".PrivateStage")
    f = C.method("set_versiondata")

    def lab(ev, st):
        r = labels(ev, st)
        if r and r.startswith("regen"):
            return "regen"
        if ev.name in ("get_versiondata_perstage", "get_linkstore_perstage", "get_links"):
            return "read"
        if ev.name == "get" and ev.recv is not None and has_call(ev.recv, "key_projversion") and "readonly" not in ev.kwargs:
            return "read"
        if ev.name == "set" and ev.recv is not None and has_call(ev.recv, "key_projversion"):
            return "setmeta"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("==", "is") and has_str(t.a[1], "requires_python") and has_str(t.a[2], "requires_python"):
            return "same" if v else "differs"
        if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "requires_python":
            return None if v else "same"
        if (has_str(t, "+elinks") or has_call(t, "get_links")) and t.k != "cmp" and not v:
            return "nolinks"
        if t.k == "call" and call_name(t) in ("get_versiondata_perstage",) and not v:
            return "nolinks"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=C, default_raises=(), events=EV + ("get", "get_versiondata_perstage", "get_links", "get_linkstore_perstage"),
                        follow=lambda g, ev, d: g.cls is not None and g.cls in C.mro() and g.name in ("_set_versiondata", "_regen_simplelinks") or g.cls is C and not g.name.startswith(("get_", "key_", "has_", "list_")) and g.name != "add_project_name")
    live = live_paths(paths)
    ctx.ob(R, f, some(live, "setmeta"), "no metadata is stored", key="instances")

    def ok(p):
        if not p.has("setmeta"):
            return True
        if p.last("regen") > p.idx("setmeta"):
            return True
        return p.has("same", "nolinks") and -1 < p.idx("read") < p.idx("setmeta")
    check_paths(ctx, R, f, live, ok, "requires_python of a version with files changes and the listing keeps the old value", key="requires-python")


def content(ctx):
    R = ctx.rule("M03.content", "the listing is made of all release file links of all versions, each with its hash and requires_python")
    P = ctx.P
    C = P.cls(MD + ".PrivateStage")
    makers = [f for f in C.methods.values() if any(key_call(c) for c in own_calls(f, "set"))]
    ctx.count(R, len(makers), 1, "functions which store the listing")
    for f in makers:
        def rel(t):
            for x in subterms(t):
                if x.k == "call" and call_name(x) == "get_links":
                    a = call_args(x)
                    r = a[0] if a else dict(call_kwargs(x)).get("rel")
                    return cstr(r) == "releasefile" and len(a) + len(call_kwargs(x)) == 1
            return False

        def narrowed(t):
            return contains(t, lambda x: x.k == "slice" or x.k == "call" and call_name(x) in ("filter", "islice", "set", "pop") or x.k == "comp" and bool(x.a[-1]) or x.k == "sub")

        def lab(ev, st):
            if ev.name in ("extend", "append") and ev.args:
                a = ev.args[0]
                if has_call(a, "make_key_and_href") or contains(a, lambda x: x.k == "ref" and getattr(x.a[0], "name", "") == "make_key_and_href") or has_attr(a, "relpath", "entrypath"):
                    return ("links", "links*")[ev.name == "extend"] if rel(a) and not narrowed(a) else "badlinks"
                if has_str(a, "requires_python"):
                    return ("rp", "rp*")[ev.name == "extend"]
            if ev.name == "set" and ev.recv is not None and has_call(ev.recv, "key_projsimplelinks"):
                return "set"

        def iters(what, it, st):
            if has_call(it, "list_versions_perstage") or has_call(it, "get") and has_call(it, "key_projversions"):
                return "ver" if what == "next" else "ver-end"
            if has_call(it, "get_links") and what == "end" and st.auto and st.auto[-1] == "ver":
                return "norel"

        def br(t, v, st):
            if t.k == "call" and call_name(t) == "get_links" and not v:
                return "norel"
        paths = trace_paths(ctx, f, {"x": lab}, iters=iters, branch=br, self_cls=C, default_raises=(), events=("extend", "append", "set", "make_key_and_href"), follow=lambda g, ev, d: False, dedupe=False,
                            raises={})
        live = live_paths(paths)
        check_paths(ctx, R, f, live, lambda p: p.last("set") >= 0 and p.last("set") > max(p.last(x) for x in ("ver", "links", "links*", "rp", "rp*")), "the listing is not stored", key="stored")
        comp = any(t.k == "comp" for p in live for t in [p.st.env.get("links")] if t is not None)
        if not comp:
            ctx.ob(R, f, some(live, "links", "links*"), "no links are collected", key="instances")
            check_paths(ctx, R, f, live, handled("ver", ("links", "links*", "norel"), "ver-end"), "the files of a version are left out of the listing", key="all")
            check_paths(ctx, R, f, live, handled("ver", ("rp", "rp*", "norel"), "ver-end"), "requires_python of a version is left out of the listing", key="requires")
            check_paths(ctx, R, f, live, lambda p: not p.has("badlinks"), "not all release file links of a version are listed", key="links")
            check_paths(ctx, R, f, live, lambda p: p.trace.count("links") == p.trace.count("rp") and p.trace.count("links*") == p.trace.count("rp*") or len(p.trace) >= 24, "links and their requires_python get out of step", key="step")
        for c in own_calls(f, "extend"):
            if c.args and any("require" in n for n in names_in(c.args[0])) and isinstance(c.args[0], ast.BinOp):
                ctx.ob(R, f, isinstance(c.args[0].op, ast.Mult) and any(isinstance(x, ast.Call) and src(x.func) == "len" for x in ast.walk(c.args[0])), "links and their requires_python get out of step", where(f, c), key="len")
        # what is stored are the collected lists under the names the reader uses
        for c in own_calls(f, "set"):
            if key_call(c):
                v = resolve(f, c.args[0]) if c.args else None
                keys = {literal(k) for k in v.keys} if isinstance(v, ast.Dict) else set()
                if isinstance(v, ast.Call) and src(v.func) == "dict":
                    keys = {k.arg for k in v.keywords}
                ctx.ob(R, f, not keys or {"links", "requires_python"} <= keys, "the listing is stored under other names than it is read", where(f, c), key="names")
    f = P.func(MD + ".make_key_and_href")
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: "nohash" if not v and t.k == "attr" and t.a[1] == "_hash_spec" or v and t.k == "cmp" and t.a[0] in ("==", "is") and t.a[1].k == "attr" and t.a[1].a[1] == "_hash_spec" and is_const(t.a[2]) and not cval(t.a[2]) else None, follow=lambda g, ev, d: False)
    for p in live_paths(paths):
        r = items(p.ret)
        ok = len(r) == 2 and has_attr(r[0], "basename") and has_attr(r[1], "relpath", "entrypath") and (p.has("nohash") or has_attr(r[1], "_hash_spec"))
        ctx.ob(R, f, ok, "a listed link has no name, path or hash", key="href")
    f = C.method("get_simplelinks_perstage")
    paths = trace_paths(ctx, f, {}, self_cls=C, follow=lambda g, ev, d: False)
    for p in live_paths(paths):
        j = [x for x in subterms(p.ret) if x.k == "call" and call_name(x) == "join_links_data"]
        ok = bool(j) and len(call_args(j[0])) >= 2 and stored(call_args(j[0])[0], "links") and stored(call_args(j[0])[1], "requires_python")
        ctx.ob(R, f, ok or not j and stored(p.ret, "links"), "the stored listing is not what is shown", key="read")
    f = P.func(MD + ".join_links_data")
    zips = [c for c in own_calls(f, "zip")]
    ctx.ob(R, f, not zips or any(kwarg(c, "strict") is not None for c in zips), "links without yanked information are dropped", key="zip")


def stored(t, name):
    return has_str(t, name) and contains(t, lambda x: x.k == "call" and call_name(x) in ("get", "key_projsimplelinks")) and not contains(t, lambda x: x.k == "slice")


def key_call(c):
    """c is key_projsimplelinks(...).set(...)"""
    return isinstance(c.func, ast.Attribute) and any(isinstance(x, ast.Call) and src(x.func).endswith("key_projsimplelinks") for x in ast.walk(c.func.value))


def resolve(f, node):
    """what a local name was last assigned"""
    if isinstance(node, ast.Name):
        vals = [x.value for x in walk_own(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in x.targets)]
        return vals[-1] if len(vals) == 1 else None
    return node


def linkstore(ctx):
    R = ctx.rule("M03.links", "a change of the list of links is stored with the version on every path")
    P = ctx.P
    C = P.cls(MD + ".LinkStore")

    def lab(ev, st):
        if ev.name in ("append", "remove", "extend", "insert", "pop", "clear") and ev.recv is not None and (has_call(ev.recv, "_get_inplace_linkdicts") or has_str(ev.recv, "+elinks")):
            return "change"
        if ev.name in ("_set_versiondata",) or ev.name == "set" and ev.recv is not None and has_call(ev.recv, "key_projversion"):
            return "save"
        if ev.name == "delete" and ev.recv is not None and (has_attr(ev.recv, "entry") or has_call(ev.recv, "get_file_entry")):
            return "del"
    stores = {}
    n = 0
    for name, f in sorted(C.methods.items()):
        if name in ("get_links", "__init__", "metadata", "__repr__"):
            continue
        paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), events=("append", "remove", "delete", "_set_versiondata", "set", "extend", "insert", "pop", "clear"),
                            follow=lambda g, ev, d: g.cls is C and g.name not in ("get_links", "_create_file_entry", "remove_links") and d < 4)
        hit = [p for p in live_paths(paths) if p.has("change")]
        if not hit or name == "_get_inplace_linkdicts":
            continue
        n += 1
        check_paths(ctx, R, f, hit, lambda p: p.last("save") > p.last("change"), "a change of the links is not stored", key=name)
    ctx.count(R, n, 2, "functions changing the list of links")
    f = C.method("_mark_dirty")
    paths = trace_paths(ctx, f, {"save": ["_set_versiondata", "set"]}, self_cls=C, default_raises=(), follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, live_paths(paths), lambda p: p.has("save"), "a change of the links is not stored", key="dirty")
    f = C.method("remove_links")
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, default_raises=(), events=("append", "remove", "delete"), follow=lambda g, ev, d: False, dedupe=False,
                        iters=lambda w, it, st: ("link" if w == "next" else "link-end") if has_call(it, "get_links") else None)
    check_paths(ctx, R, f, live_paths(paths), handled("link", ("change",), "link-end"), "a removed file stays in the list of links", key="removed")
    ctx.ob(R, f, some(paths, "change"), "removed files stay in the list of links", key="removed-instances")
    # the selection of links compares each criterion with the link's own
    f = C.method("get_links")
    for p in ("rel", "basename", "entrypath", "for_entrypath"):
        ok = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Is)):
                sides = [x.left, x.comparators[0]]
                if any(isinstance(s, ast.Name) and s.id == p for s in sides) and any(isinstance(s, ast.Attribute) and s.attr == p for s in sides):
                    ok = True
        if p in f.params() and not any(isinstance(x, ast.Name) and x.id == "getattr" for x in ast.walk(f.node)):
            ctx.ob(R, f, ok, "links are selected by %s without comparing it" % p, key="select-" + p)


def check(ctx):
    regen(ctx)
    metadata(ctx)
    content(ctx)
    linkstore(ctx)


M = "server/devpi_server/model.py"
SELFTEST = [
    (M, """            hashes=hashes,
            last_modified=last_modified)
        self._regen_simplelinks(project)
        return link
""", """            hashes=hashes,
            last_modified=last_modified)
        if not self.has_project_perstage(project):
            self._regen_simplelinks(project)
        return link
"""),
    (M, """            if not versions:
                self.del_project(project)
            self._regen_simplelinks(project)
""", """            if not versions:
                self.del_project(project)
"""),
    (M, """            self.del_versiondata(project, version, cleanup=False)
        self._regen_simplelinks(project)
""", """            self.del_versiondata(project, version, cleanup=False)
"""),
    (M, """                self.del_versiondata(project, version)
            self._regen_simplelinks(project)
""", """                self.del_versiondata(project, version)
                self._regen_simplelinks(project)
"""),
    (M, """            self._regen_simplelinks(project)

    def key_projversions""", """            pass

    def key_projversions"""),
    (M, """requires_python", old_requires_python) != old_requires_python:""", """requires_python", None) and old_requires_python is None:"""),
    (M, """            releases = linkstore.get_links("releasefile")
""", """            releases = linkstore.get_links("releasefile")
            if not releases[1:]:
                continue
"""),
    (M, """            requires_python.extend([require_python] * len(releases))""", """            requires_python.append(require_python)"""),
    (M, """    if entry._hash_spec:
        href +=""", """    if entry._hash_spec.startswith("md5"):
        href +="""),
    (M, "zip_longest(links, requires_python, yanked, fillvalue=None)", "zip(links, requires_python, yanked or requires_python)"),
    (M, """        if was_deleted:
            self._mark_dirty()""", """        if was_deleted and linkdicts:
            self._mark_dirty()"""),
    (M, """        threadlog.info("added %r link %s", rel, file_entry.relpath)
        self._mark_dirty()""", """        threadlog.info("added %r link %s", rel, file_entry.relpath)
        if for_entrypath:
            self._mark_dirty()"""),
    (M, "(not basename or basename==link.basename)", "(not basename or link.basename.startswith(basename))"),
    (M, """            self._regen_simplelinks(project)

    def del_entry""", """            self._regen_simplelinks(version)

    def del_entry"""),
]
