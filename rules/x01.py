"""X01: export and import keep everything and refuse what they cannot keep."""
from rules.lib import *  # noqa

M = "devpi_server.importexport"
FATAL = "devpi_server.main.Fatal"


_trace_paths = trace_paths


def trace_paths(ctx, f, labels, **kw):
    """follow only functions of the module itself"""
    kw.setdefault("follow", lambda g, ev, d: None if g.module is f.module else False)
    return _trace_paths(ctx, f, labels, **kw)


def part_of(t, key):
    """the users or indexes of the description"""
    return t is not None and (t.k == "sub" and cstr(t.a[1]) == key or t.k == "attr" and t.a[1] == "import_" + key)


def is_fatal(p):
    return p.kind == "raise" and str(p.exc.a[0]).rpartition(".")[2] in ("Fatal", "SystemExit")


def noswallow(ctx):
    R = ctx.rule("X01.abort", "no error met while exporting or importing is swallowed: there is no handler in the exporter or importer "
                 "which does not end in an exception")
    P = ctx.P
    n = 0
    for f in P.iter_funcs("devpi_server"):
        if f.module.name != M:
            continue
        n += 1
        for x in walk_own(f.node):
            if isinstance(x, ast.ExceptHandler):
                last = x.body[-1]
                ctx.ob(R, f, isinstance(last, ast.Raise), "an error is swallowed during export or import", where(f, x), key="handler")
            elif isinstance(x, ast.Call) and src(x.func).rpartition(".")[2] == "suppress":
                ctx.ob(R, f, False, "an error is swallowed during export or import", where(f, x), key="suppress")
            elif isinstance(x, ast.Try) and x.finalbody:
                bad = [y for y in ast.walk(ast.Module(body=x.finalbody, type_ignores=[])) if isinstance(y, (ast.Return, ast.Break, ast.Continue))]
                ctx.ob(R, f, not bad, "an error is swallowed during export or import", where(f, x), key="finally")
        ctx.ob(R, f, True, "")
    ctx.count(R, n, 20, "functions of importexport")


def clean_target(ctx):
    R = ctx.rule("X01.target", "an export into a directory which is not empty, an import from a missing directory, into existing server data or "
                 "into a server with users or indexes ends with an error before anything is written")
    P = ctx.P
    cases = [
        ("do_export", {"work": ("dump_all", "Exporter", "ensure", "mkdir")}, lambda t: "notempty" if t.k == "call" and (call_name(t) in ("listdir", "iterdir") and not call_args(t)[1 if show(t).startswith("os.") else 0:] or call_name(t) in ("list", "any") and has_call(t, "iterdir")) else None, "notempty"),
        ("do_import", {"work": ("import_all",)}, lambda t: "used" if t.k == "call" and call_name(t) == "has_users_or_stages" else None, "used"),
        ("do_import", {"work": ("import_all",)}, lambda t: "there" if t.k == "call" and call_name(t) in ("check", "exists") else None, "-there"),
        ("import_", {"work": ("do_import", "init_default_indexes", "xom_from_config", "set_state_version")}, lambda t: "used" if t.k == "call" and call_name(t) == "exists" and "nodeinfo_path" in show(t) else None, "used"),
        ("export", {"work": ("do_export", "xom_from_config")}, lambda t: "there" if t.k == "call" and call_name(t) == "exists" and "nodeinfo_path" in show(t) else None, "-there"),
    ]
    for name, labels, cond, bad in cases:
        f = P.func("%s.%s" % (M, name))

        def br(t, v, st):
            x = t
            if t.k == "cmp" and t.a[0] in ("is", "==", "<", "<="):
                return None
            c = cond(x)
            return (c if v else "-" + c) if c else None
        paths = trace_paths(ctx, f, labels, branch=br, default_raises=(), events=("listdir", "iterdir", "has_users_or_stages", "check", "exists"),
                            stop=("has_users_or_stages", "dump_all", "import_all", "do_import", "do_export", "xom_from_config", "init_default_indexes", "wait_for_events", "set_state_version", "get_config", "create_parser"), max_states=20)
        ctx.ob(R, f, some(paths, bad), "the target of %s is not checked" % name, key="checked")
        ctx.ob(R, f, some(paths, "work"), "%s does not do its work" % name, key="works")
        check_paths(ctx, R, f, paths, lambda p: not p.has(bad) or is_fatal(p), "%s goes on with an unsuitable target" % name, key="refused")
        check_paths(ctx, R, f, paths, lambda p: not p.has(bad) or not p.has("work"), "%s works on an unsuitable target" % name, key="first")
        check_paths(ctx, R, f, paths, lambda p: not p.has("work") or p.has(bad, bad[1:] if bad[0] == "-" else "-" + bad) or name == "do_export",
                    "%s works without a look at its target" % name, key="looked")
    # Fatal becomes a non-zero exit status
    C = P.cls("devpi_server.main.CommandRunner")
    f = C.method("__exit__")
    pars = f.params()
    paths = trace_paths(ctx, f, {}, stores={"code": "return_code"}, self_cls=C, default_raises=(),
                        branch=lambda t, v, st: ("fatal" if v else "other") if "Fatal" in show(t) and t.k in ("call", "cmp") else None)
    ctx.ob(R, f, some(paths, "fatal"), "fatal errors are not turned into an exit status", key="exit")
    check_paths(ctx, R, f, paths, lambda p: not p.has("fatal") or p.kind == "raise" or p.ret == FALSE or p.ret == NONE or p.has("code"), "a fatal error ends with the exit status of success", key="status")
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "return_code" for t in x.targets):
            v = literal(x.value)
            ctx.ob(R, f, v not in (0, None, False), "a fatal error ends with the exit status of success", where(f, x), key="status-value")
    for name in ("export", "import_"):
        f = P.func("%s.%s" % (M, name))
        rets = [x for x in walk_own(f.node) if isinstance(x, ast.Return)]
        ctx.ob(R, f, bool(rets) and all("return_code" in src(x) or isinstance(x.value, ast.Name) for x in rets), "the exit status of the run is not returned", key="returned")


def exporter(ctx):
    R = ctx.rule("X01.export", "every user with its credentials, every index with its configuration, and for each project and version of an exported "
                 "index the metadata, release files, test results and documentation are exported, each file with its hashes, log and version; the "
                 "description is written last")
    P = ctx.P
    E = P.cls(M + ".Exporter")
    f = E.method("dump_all")
    creds = []

    def lab(ev, st):
        if ev.name == "dump" and ev.recv is not None:
            return "index"
        if ev.name == "_write_json":
            return "json"
        if ev.name == "get" and ("credentials" in ev.kwargs):
            creds.append(ev.kwargs["credentials"])
            return "data"
        if ev.name == "pop":
            return "pop"

    def it(what, t, st):
        s = show(t)
        if "get_userlist" in s:
            return "user" if what == "next" else "users-end"
        return "each" if what == "next" else "end"
    paths = trace_paths(ctx, f, {"x": lab}, stores=[("stored", lambda ev, st: ev.kind == "sub" and (attr_chain(ev.base).endswith("export_users") or has_attr(ev.base, "export_users")))],
                        iters=it, self_cls=E, default_raises=(), dedupe=False, events=("dump", "_write_json", "get", "pop"), stop=("dump", "_write_json", "__init__"), rounds=1, max_states=200)
    ctx.ob(R, f, some(paths, "user") and some(paths, "each") and some(paths, "json"), "users and indexes are not exported", key="instances")
    check_paths(ctx, R, f, paths, handled("user", {"stored"}, "users-end"), "a user is not exported", key="users")
    check_paths(ctx, R, f, paths, handled("each", {"index"}, "end"), "an index of a user is not exported", key="indexes")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.trace.count("json") == 1 and p.trace[-1] == "json", "the description of the export is not written after everything else", key="last")
    ctx.ob(R, f, bool(creds) and all(c == TRUE for c in creds), "password hashes of users are not exported", key="credentials")
    D = P.cls(M + ".IndexDump")
    f = D.method("__init__")
    paths = trace_paths(ctx, f, {}, stores=[("conf", lambda ev, st: ev.kind == "sub" and ev.name is not None and "indexconfig" in show(ev.name) and has_attr(ev.value, "ixconfig"))], self_cls=D, default_raises=())
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("conf"), "the configuration of an index is not exported", key="config")
    f = D.method("dump")

    def it2(what, t, st):
        s = show(t)
        if "list_projects_perstage" in s and "list_versions" not in s:
            return "project" if what == "next" else "project-end"
        if "list_versions_perstage" in s and t.k == "call" and call_name(t) == "list_versions_perstage":
            return "version" if what == "next" else "version-end"
        if t.k == "call" and call_name(t) == "values":
            return None
        if t.k not in ("dict", "comp", "phi"):
            return None
        return "dumpver" if what == "next" else "dumpver-end"

    def br(t, v, st):
        s = show(t)
        if t.k == "call" and call_name(t) == "should_dump":
            return "dump" if v else "skip"
        if t.k == "call" and call_name(t) == "hasattr":
            return "can-doc" if v else "no-doc"
        if t.k == "call" and call_name(t) == "get_doczip_entry":
            return "doc" if v else "doc-none"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "get_doczip_entry"):
            return "doc-none" if v else "doc"
    S = [("meta", lambda ev, st: ev.kind == "sub" and has_call(ev.value, "get_versiondata_perstage") and not has_str(ev.base, "projects")),
         ("proj", lambda ev, st: ev.kind == "sub" and has_attr(ev.base, "indexmeta") and has_str(ev.base, "projects"))]
    paths = trace_paths(ctx, f, {"files": "dump_releasefiles", "tox": "dump_toxresults", "docs": "dump_docfile"}, stores=S, iters=it2, branch=br, self_cls=D, default_raises=(), dedupe=False,
                        stop=("dump_releasefiles", "dump_toxresults", "dump_docfile", "should_dump", "get_mutable_deepcopy"), events=("get_doczip_entry", "hasattr", "should_dump"), rounds=1, max_states=300)
    ctx.ob(R, f, some(paths, "project") and some(paths, "dumpver"), "projects and versions are not exported", key="dump-instances")
    check_paths(ctx, R, f, paths, handled("project", {"proj"}, "project-end"), "a project is not exported", key="project")
    check_paths(ctx, R, f, paths, handled("dumpver", {"files"}, "dumpver-end"), "release files of a version are not exported", key="files")
    check_paths(ctx, R, f, paths, handled("dumpver", {"tox"}, "dumpver-end"), "test results of a version are not exported", key="tox")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or not p.has("dumpver") or p.has("doc-none", "no-doc", "docs"), "documentation of a version is not looked at", key="docs-looked")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or len(p.trace) >= 24 or p.trace.count("doc") == p.trace.count("docs"), "documentation of a version is not exported", key="docs")
    check_paths(ctx, R, f, paths, lambda p: not p.has("skip") or not p.has("project"), "an index which is not to be exported is exported", key="skip")
    f = D.method("should_dump")
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("mirror" if v else "other") if t.k == "cmp" and t.a[0] == "==" and has_str(t, "mirror") else
                        ("include" if v else "exclude") if has_attr(t, "include_mirrored_files") else None, self_cls=D, default_raises=())
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.ret == TRUE or p.has("mirror") and p.has("exclude") or p.ret.k not in ("c",),
                "an index which has to be exported is left out", key="should")
    # files
    kinds = {}
    for name, rel in (("dump_releasefiles", "releasefile"), ("dump_toxresults", "toxresult"), ("dump_docfile", "doczip")):
        f = D.method(name)
        adds = []

        def flab(ev, st):
            if ev.name == "copy_file":
                return "copy"
            if ev.name == "add_filedesc":
                adds.append(ev)
                return "add"

        def fbr(t, v, st):
            if t.k == "attr" and t.a[1] == "last_modified":
                return "content" if v else "nocontent"
            if t.k == "call" and call_name(t) == "file_exists":
                return "exists" if v else "missing"
        paths = trace_paths(ctx, f, {"x": flab}, branch=fbr, self_cls=D, default_raises=(), dedupe=False,
                            iters=lambda what, t, st: ("link" if what == "next" else "end") if has_call(t, "get_links") else None,
                            stop=("copy_file", "add_filedesc"), events=("copy_file", "add_filedesc", "file_exists"))
        if name != "dump_docfile":
            ctx.ob(R, f, some(paths, "link"), "links of a version are not exported", key="links")
            check_paths(ctx, R, f, paths, handled("link", {"add", "nocontent"}, "end"), "a file of a version is left out of the export", key="each")
        else:
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("add"), "documentation is left out of the export", key="each")
        check_paths(ctx, R, f, paths, lambda p: p.trace.count("copy") == p.trace.count("add") and all(p.trace[i - 1:i] == ("copy",) or "copy" in p.trace[:i] for i, x in enumerate(p.trace) if x == "add"),
                    "a file is announced without its content", key="content")
        check_paths(ctx, R, f, paths, lambda p: not p.has("missing") or is_fatal(p) and not p.has("add") or p.trace.index("missing") > p.idx("add") >= 0, "a missing file does not end the export", key="missing")
        if name == "dump_releasefiles":
            ctx.ob(R, f, some(paths, "missing"), "a missing file is not noticed", key="missing-looked")
        for ev in adds:
            kind = argn(ev, 0, "type")
            kinds.setdefault(cstr(kind), set()).update(ev.kwargs)
            ctx.ob(R, f, cstr(kind) == rel, "the kind of a file is exported as %s" % show(kind), where(f, ev.node), key="kind")
            log = ev.kwargs.get("log")
            ctx.ob(R, f, log is not None and has_call(log, "get_logs") or log is not None and log.k in ("comp", "list", "phi"), "the log of a file is not exported", where(f, ev.node), key="log")
            em = ev.kwargs.get("entrymapping")
            ctx.ob(R, f, em is not None and has_attr(em, "meta"), "the hashes of a file are not exported", where(f, ev.node), key="hashes")
            ctx.ob(R, f, ev.kwargs.get("version") is not None, "the version of a file is not exported", where(f, ev.node), key="version")
            rp = argn(ev, 2, "relpath")
            ctx.ob(R, f, rp is not None and has_call(rp, "copy_file"), "the path of a file is not the one it was exported to", where(f, ev.node), key="relpath")
    # the description of a file
    f = D.method("add_filedesc")
    S = [("s:" , lambda ev, st: ("s:" + cstr(ev.name)) if ev.kind == "sub" and ev.name is not None and cstr(ev.name) else None)]
    paths = trace_paths(ctx, f, {"append": lambda ev, st: ev.name == "append" and has_str(ev.recv, "files")}, stores=S, self_cls=D, default_raises=(), events=("append", "check", "exists"),
                        branch=lambda t, v, st: ("there" if v else "missing") if t.k == "call" and call_name(t) in ("check", "exists") else None)
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("append"), "a file is not announced", key="announced")
    check_paths(ctx, R, f, paths, lambda p: not p.has("missing") or is_fatal(p), "a file which was not written is announced", key="written")
    ctx.ob(R, f, some(paths, "missing"), "a file which was not written is not noticed", key="written-looked")
    # content
    f = E.method("copy_file")
    paths = trace_paths(ctx, f, {"copy": ("link", "copyfile", "copyfileobj", "copy", "copy2")}, self_cls=E, default_raises=())
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("copy"), "the content of a file is not exported", key="copied")
    return kinds


def written_keys(P):
    """string keys the exporter stores in the description, and the importer reads"""
    w, r = set(), set()
    for f in P.iter_funcs("devpi_server"):
        if f.module.name != M or f.cls is None:
            continue
        exp = f.cls.name in ("Exporter", "IndexDump")
        imp = f.cls.name == "Importer"
        for x in walk_own(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                if isinstance(x.ctx, ast.Store) and exp:
                    w.add(x.slice.value)
                elif isinstance(x.ctx, ast.Load) and imp:
                    r.add(x.slice.value)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop", "setdefault") and x.args and isinstance(x.args[0], ast.Constant) and imp:
                r.add(x.args[0].value)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add_filedesc" and exp:
                w.update(k.arg for k in x.keywords if k.arg and k.arg != "project")
            elif isinstance(x, ast.Compare) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and imp:
                r.add(x.left.value)
    return w, r


def importer(ctx, kinds):
    R = ctx.rule("X01.import", "every user, index, project, version and file of an export is imported; what is missing, damaged, of an unknown kind or "
                 "left over ends the import with an error")
    P = ctx.P
    C = P.cls(M + ".Importer")
    # keys
    w, r = written_keys(P)
    info = {"pythonversion", "devpi_server"}
    ctx.ob(R, C.method("import_all"), w - info <= r, "the importer does not read %s of the export" % sorted(w - info - r), key="keys")
    ctx.count(R, len(w), 9, "keys of the description")
    f = C.method("import_all")
    vers = []

    def lab(ev, st):
        if ev.name in ("write_transaction",):
            return "write"
        if ev.name == "validate":
            return "validate"
        if ev.name == "_set":
            return "user"
        if ev.name in ("import_filedesc",):
            return "file"
        if ev.name in ("set_versiondata", "add_project_name"):
            return "meta"
        if ev.name == "modify" and "type" not in ev.kwargs:
            return "modify"

    def br(t, v, st):
        s = show(t)
        if t.k == "cmp" and t.a[0] in ("in", "==") and "dumpversion" in s and not has_call(t, "iternames"):
            vers.append(t)
            return "known" if v else "unknown"
        if t.k == "bin" and "relpath" in s or t.k == "set" or t.k == "cmp" and t.a[0] == "<":
            return None
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=C, default_raises=(), follow=lambda g, ev, d: False, events=("write_transaction", "validate", "_set", "import_filedesc", "set_versiondata"),
                        iters=lambda what, t, st: PRUNE if what == "next" else None, rounds=1, max_states=60)
    ctx.ob(R, f, some(paths, "unknown"), "the version of the export format is not checked", key="version")
    check_paths(ctx, R, f, paths, lambda p: not p.has("unknown") or is_fatal(p) and not p.has("write"), "an export of an unknown format is imported", key="version-refused")
    check_paths(ctx, R, f, paths, lambda p: not p.has("write") or 0 <= p.idx("validate") < p.idx("write") and 0 <= p.idx("known") < p.idx("write"), "data is written before the export is checked", key="validate")
    known = set()
    for t in vers:
        known |= {cstr(x) for x in items(t.a[2])} if t.a[0] == "in" else {cstr(x) for x in t.a[1:]}
    dv = P.cls(M + ".Exporter").node
    mine = next((literal(x.value) for x in dv.body if isinstance(x, ast.Assign) and src(x.targets[0]) == "DUMPVERSION"), None)
    ctx.ob(R, f, mine in known, "the format written by the exporter is refused by the importer", key="version-own")
    # each part, loop by loop: the rule looks at one loop at a time
    loops(ctx, R, f, C)
    # validate
    g = C.method("validate")
    paths = trace_paths(ctx, g, {}, self_cls=C, default_raises=(), dedupe=False, rounds=1,
                        branch=lambda t, v, st: ("valid" if v else "invalid") if t.k == "call" and call_name(t) == "is_valid_name" else
                        ("type-ok" if v else "type-bad") if t.k == "cmp" and t.a[0] == "in" and has_str(t.a[1], "type") and "known" in show(t.a[2]) or t.k == "cmp" and t.a[0] == "in" and has_call(t.a[2], "union") else None,
                        events=("is_valid_name", "union"), stop=("is_valid_name",), max_states=200)
    ctx.ob(R, g, some(paths, "invalid") and some(paths, "type-bad"), "names and types of an export are not checked", key="validates")
    check_paths(ctx, R, g, paths, lambda p: not p.has("invalid", "type-bad") or p.kind == "raise", "an export with invalid names or unknown types of indexes is imported", key="invalid")
    # one file
    f = C.method("import_filedesc")
    stores, unknown, fin = [], [], []

    def flab(ev, st):
        if ev.name in ("store_releasefile", "store_doczip", "store_toxresult", "file_set_content"):
            stores.append(ev)
            return "store" if ev.name.startswith("store_") else "store-plain"
        if ev.name in ("add_log", "add_logs"):
            return "log:" + ev.name
        if ev.name == "file_get_hash_errors":
            return "verify"
        if ev.name == "open":
            return "open"
        if ev.name == "get_hashes":
            return "hash"

    def fbr(t, v, st):
        s = show(t)
        if t.k == "call" and call_name(t) in ("check", "exists"):
            return "there" if v else "missing"
        if t.k == "cmp" and t.a[0] == "==" and "'type'" in s:
            k = next((cstr(x) for x in t.a[1:] if cstr(x)), None)
            return ("is:" if v else "not:") + str(k)
        if t.k == "call" and call_name(t) == "file_get_hash_errors":
            return "bad" if v else "good"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and ("store_" in s or "link" in s) and "links_with_data" not in s and "_load_cache" not in s and "log" not in s:
            return "nolink" if v else "link"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and "'log'" in s:
            return "nolog" if v else "haslog"
    paths = trace_paths(ctx, f, {"x": flab}, branch=fbr, self_cls=C, default_raises=(), dedupe=False, rounds=1, follow=lambda g, ev, d: None if g.cls is C else False,
                        events=("check", "exists", "open", "get_hashes", "file_get_hash_errors", "add_log"), max_states=300)
    ctx.ob(R, f, some(paths, "missing") and some(paths, "bad"), "files of the export are not checked", key="checks")
    check_paths(ctx, R, f, paths, lambda p: not p.has("missing") or is_fatal(p), "a missing file does not end the import", key="missing")
    check_paths(ctx, R, f, paths, lambda p: not p.has("bad") or is_fatal(p), "a file with a wrong checksum does not end the import", key="checksum")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("store", "store-plain"), "a file is not imported", key="stored")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("good") and p.has("verify") and p.last("verify") > max(p.last("store"), p.last("store-plain")), "the checksum of an imported file is not verified", key="verified")
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or any(x.startswith("is:") for x in p.trace), "a file of an unknown kind is imported as something", key="unknown")
    check_paths(ctx, R, f, paths, lambda p: not (p.trace and not any(x.startswith("is:") for x in p.trace) and sum(x.startswith("not:") for x in p.trace) >= len(kinds)) or is_fatal(p) or p.kind == "raise",
                "a file of an unknown kind does not end the import", key="unknown-refused")
    # the importer for a mirror has no links and so no log; all others have one
    check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("log:add_log", "log:add_logs") or p.has("nolink", "store-plain"), "the log of a file is not imported", key="log")
    check_paths(ctx, R, f, paths, lambda p: not p.has("haslog") or p.kind != "return" or p.has("log:add_logs"), "the log of a file is not imported", key="log-kept")
    seen = {x[3:] for p in paths for x in p.trace if x.startswith("is:")}
    ctx.ob(R, f, set(kinds) <= seen, "files of kind %s are exported but not imported" % sorted(set(kinds) - seen), key="kinds")
    for ev in stores:
        h = ev.kwargs.get("hashes")
        ctx.ob(R, f, h is not None and (has_str(h, "hashes") or has_str(h, "entrymapping") or "Digests" in show(h) or h.k == "phi"), "a file is stored without the checksums of the export", where(f, ev.node), key="hashes")
        lm = ev.kwargs.get("last_modified")
        ctx.ob(R, f, lm is not None and (has_str(lm, "last_modified")), "a file is stored without its time of modification", where(f, ev.node), key="last-modified")
    # announced checksums win over computed ones
    order = []
    for x in walk_own(f.node):
        if isinstance(x, ast.Call) and src(x.func).endswith("get_hashes"):
            ht = kwarg(x, "hash_types")
            ctx.ob(R, f, ht is not None and "missing" in src(ht), "checksums announced by the export are replaced by computed ones", where(f, x), key="announced")
            order.append(x)
    ctx.count(R, len(order), 1, "computed checksums")
    paths = trace_paths(ctx, f, {"spec": "add_spec", "hash": "get_hashes", "dig": "Digests"}, self_cls=C, default_raises=(), follow=lambda g, ev, d: False, max_states=80, rounds=1,
                        branch=lambda t, v, st: ("has-spec" if v else "no-spec") if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "hash_spec" else
                        ("has-md5" if v else "no-md5") if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "md5" else None,
                        stores=[("md5", lambda ev, st: ev.kind == "sub" and cstr(ev.name) == "md5")])
    check_paths(ctx, R, f, paths, lambda p: not p.has("has-spec") or p.kind != "return" or p.has("spec"), "the checksum announced by an old export is ignored", key="spec")
    check_paths(ctx, R, f, paths, lambda p: not p.has("has-md5") or p.kind != "return" or p.has("md5"), "the md5 checksum announced by an old export is ignored", key="md5")
    check_paths(ctx, R, f, paths, lambda p: not p.has("has-spec") or p.kind != "return" or 0 <= p.idx("spec") < p.idx("hash"), "announced checksums are added after the missing ones were computed", key="spec-order")


def loops(ctx, R, f, C):
    """users, indexes, projects, versions and files of import_all"""
    def kind(t):
        s = show(t)
        if t.k == "call" and call_name(t) == "items" and part_of(call_recv(t), "users"):
            return "user"
        if has_call(t, "iternames"):
            return "index"
        if t.k == "call" and call_name(t) == "iter_projects_normalized":
            return "project"
        if has_call(t, "iter_projects_normalized") and t.k == "call" and call_name(t) == "items":
            return "version"
        if has_str(t, "files") and not has_call(t, "set"):
            return "filedesc"
        if t.k == "call" and call_name(t) in ("items", "values", "keys") or t.k in ("comp", "set") or has_call(t, "set"):
            return "other"
        return "stages"

    GROUPS = (({"user"}, {"set-user"}), ({"index"}, {"create", "modify", "memo", "bases", "skip-type", "no-root", "is-root", "not-root", "has-data", "no-data", "has-bases", "no-bases"}),
              ({"stages", "project", "version"}, {"meta", "project"}), ({"stages", "project", "filedesc"}, {"same", "import"}))

    def lab(ev, st):
        return {"_set": "set-user", "create_stage": "create", "modify": "modify", "import_filedesc": "import", "set_versiondata": "meta", "add_project_name": "meta"}.get(ev.name) or (
            "memo" if ev.name == "append" else None)

    def br(t, v, st):
        s = show(t)
        if t.k == "cmp" and t.a[0] == "in" and has_attr(t.a[2], "types_to_skip"):
            return "skip-type" if v else None
        if has_attr(t, "no_root_pypi"):
            return "no-root" if v else None
        if t.k == "cmp" and t.a[0] == "==" and has_str(t, "root/pypi"):
            return "is-root" if v else "not-root"
        if t.k == "cmp" and t.a[0] == "in" and part_of(t.a[2], "indexes") and has_call(t.a[1], "iternames"):
            return "has-data" if v else "no-data"
        if t.k == "cmp" and t.a[0] == "==" and has_str(t, "projectname"):
            return "same" if v else "other"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "create_stage"):
            return PRUNE if v else None
        if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "bases":
            return "has-bases" if v else "no-bases"
    mod = []

    def lab2(ev, st):
        if ev.name == "modify":
            mod.append(ev)
        return lab(ev, st)
    paths = []
    for group, wanted in GROUPS:
        def only(fn):
            def g(*a):
                r = fn(*a)
                return r if r in wanted or r == PRUNE else None
            return g

        def it(what, t, st):
            k = kind(t)
            if k not in group:
                return PRUNE if what == "next" else None
            if k == "stages" or "filedesc" in group:
                return None
            return k if what == "next" else k + "-end"
        paths += trace_paths(ctx, f, {"x": only(lab2)}, branch=only(br), iters=it, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C and g.name not in ("validate", "import_filedesc", "iter_projects_normalized", "display_import_header", "read_json", "warn") else False,
                             stores=[("bases", lambda ev, st: "bases" in wanted and ev.kind == "sub" and cstr(ev.name) == "bases")],
                             events=("_set", "create_stage", "modify", "import_filedesc", "set_versiondata", "append", "iternames"), dedupe=True, rounds=1, max_states=12 if "filedesc" in group else 60)
    ctx.ob(R, f, some(paths, "same") and some(paths, "import"), "the files of the export are not imported", key="loop-files")
    for k in ("user", "index", "project", "version"):
        ctx.ob(R, f, some(paths, k), "the %ss of the export are not imported" % k, key="loop-" + k)
    check_paths(ctx, R, f, paths, handled("user", {"set-user"}, "user-end"), "a user of the export is not imported", key="user")

    def index_ok(p):
        for i, x in enumerate(p.trace):
            if x == "index":
                seg = []
                for y in p.trace[i + 1:]:
                    if y in ("index", "index-end"):
                        break
                    seg.append(y)
                else:
                    continue
                if "skip-type" in seg or p.has("no-root") and "is-root" in seg or "no-data" in seg and "is-root" in seg:
                    continue
                if "modify" not in seg or "memo" not in seg:
                    return False
                if "has-bases" in seg and "bases" not in seg:
                    return False
                if "create" not in seg and "is-root" not in seg:
                    return False
        return True
    check_paths(ctx, R, f, paths, index_ok, "an index of the export is not imported completely", key="index")
    check_paths(ctx, R, f, paths, handled("version", {"meta"}, "version-end"), "the metadata of a version is not imported", key="version")

    def files_ok(p):
        for i, x in enumerate(p.trace):
            if x == "same" and p.trace[i + 1:i + 2] != ("import",) and p.kind != "raise" and i < 22:
                return False
        return True
    check_paths(ctx, R, f, paths, files_ok, "a file of a project is not imported", key="files")
    # the metadata of all versions of a project comes before its files
    meta = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and src(x.func).rpartition(".")[2] == "set_versiondata"]
    files = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and src(x.func).rpartition(".")[2] == "import_filedesc"]
    ctx.ob(R, f, not (meta and files) or meta[0].lineno < files[0].lineno, "files are imported before the metadata of their version", key="meta-first")
    for ev in mod:
        ctx.ob(R, f, ev.kwargs.get("_keep_unknown") == TRUE, "options of plugins which are not installed are dropped", where(f, ev.node), key="unknown-options")
    # what was not imported ends the run: names of imported files are only recorded with their import
    rec, fatal = [], False
    for x in walk_own(f.node):
        if isinstance(x, ast.If) and any(isinstance(y, ast.Raise) for y in x.body):
            fatal = fatal or any("relpath" in src(z) for z in walk_own(f.node) if isinstance(z, ast.Assign) and names_in(x.test) & {src(t) for t in z.targets}) or "relpath" in src(x.test)
    ctx.ob(R, f, fatal, "files which were not imported are not noticed", key="missing")


def tree(ctx):
    R = ctx.rule("X01.order", "indexes are created after all of their bases; bases without data and indexes which cannot be reached end the import with an error")
    P = ctx.P
    C = P.cls(M + ".IndexTree")
    f = C.method("iternames")

    def br(t, v, st):
        s = show(t)
        if t.k == "cmp" and t.a[0] == "in" and contains(t.a[1], lambda x: x.k == "elem" and "name2bases" in show(x)):
            return "base-done" if v else "base-open"
        if t.k == "cmp" and t.a[0] == "in" and not contains(t.a[1], lambda x: x.k == "elem"):
            return "done" if v else "new"
        if t.k == "bin" and has_attr(t, "name2bases"):
            return "missed" if v else "complete"
    paths = trace_paths(ctx, f, {"validate": "validate", "append": lambda ev, st: ev.name == "append", "turn": ("pop", "popleft")}, branch=br, self_cls=C, default_raises=(), dedupe=False,
                        yields="yield", yield_exc=(), iters=lambda what, t, st: ("base" if what == "next" else "bases-end") if "name2bases" in show(t) and t.k == "call" and call_name(t) == "get" else None,
                        stop=("validate",), rounds=1, max_states=100, events=("append", "add"))
    ctx.ob(R, f, some(paths, "yield") and some(paths, "base-open"), "the order of the indexes does not depend on their bases", key="instances")

    def ordered(p):
        for i, x in enumerate(p.trace):
            if x == "yield":
                j = max([k for k, y in enumerate(p.trace[:i]) if y == "bases-end"], default=-1)
                if j < 0:
                    return False
                # between the last base-open and the yield the walk over the bases was done anew
                k = max([k for k, y in enumerate(p.trace[:i]) if y == "base-open"], default=-1)
                if k > j or k >= 0 and p.has("turn") and "turn" not in p.trace[k:i]:
                    return False
        return True
    check_paths(ctx, R, f, paths, ordered, "an index is created before one of its bases", key="order")
    check_paths(ctx, R, f, paths, lambda p: all(not (x == "base") or p.trace[i + 1:i + 2] in (("base-done",), ("base-open",), ()) for i, x in enumerate(p.trace)), "a base of an index is not looked at", key="looked")
    check_paths(ctx, R, f, paths, lambda p: all("append" in p.trace[i:i + 4] for i, x in enumerate(p.trace) if x == "base-open" and i + 3 < len(p.trace)), "an index whose bases do not exist yet is dropped", key="again")
    check_paths(ctx, R, f, paths, lambda p: not p.has("yield") or 0 <= p.idx("validate") < p.idx("yield"), "indexes are created before their bases are checked", key="validate")
    check_paths(ctx, R, f, paths, lambda p: not p.has("missed") or is_fatal(p), "indexes which cannot be reached are left out silently", key="missed")
    ctx.ob(R, f, some(paths, "missed"), "indexes which cannot be reached are not noticed", key="missed-looked")
    f = C.method("validate")
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("missing" if v else "ok") if t.k == "bin" else None, self_cls=C, default_raises=())
    ctx.ob(R, f, some(paths, "missing"), "bases without data are not noticed", key="bases-looked")
    check_paths(ctx, R, f, paths, lambda p: not p.has("missing") or is_fatal(p), "bases without data are accepted", key="bases")
    # all indexes are in the tree
    g = P.cls(M + ".Importer").method("import_all")
    paths = trace_paths(ctx, g, {"add": lambda ev, st: ev.name == "add" and "IndexTree" in show(ev.recv)}, default_raises=(), follow=lambda x, ev, d: False, rounds=1, max_states=100,
                        iters=lambda what, t, st: ("index" if what == "next" else "index-end") if t.k == "call" and call_name(t) == "items" and part_of(call_recv(t), "indexes") else None, events=("add",))
    ctx.ob(R, g, some(paths, "index"), "indexes are not put into the tree", key="tree")
    check_paths(ctx, R, g, paths, handled("index", {"add"}, "index-end"), "an index is left out of the order of creation", key="in-tree")


def check(ctx):
    noswallow(ctx)
    clean_target(ctx)
    kinds = exporter(ctx)
    importer(ctx, kinds)
    tree(ctx)


SELFTEST = [
    ("server/devpi_server/importexport.py", '            if not entry.file_exists():\n                msg = f"The file for {entry.relpath} is missing."\n                raise Fatal(msg)', '            if not entry.file_exists():\n                continue'),
    ("server/devpi_server/importexport.py", "        if not p.check():\n            msg = f\"The file at {p} is missing.\"\n            raise Fatal(msg)", "        if not p.check():\n            return"),
    ("server/devpi_server/importexport.py", "            data = user.get(credentials=True)", "            data = user.get()"),
    ("server/devpi_server/importexport.py", "                self.dump_toxresults(linkstore)\n", ""),
    ("server/devpi_server/importexport.py", "                               log=link.get_logs())", "                               )"),
    ("server/devpi_server/importexport.py", "                              entrymapping=tox_link.entry.meta,\n", ""),
    ("server/devpi_server/importexport.py", "                if entry:\n                    self.dump_docfile", "                if entry and self.stage.ixconfig['volatile']:\n                    self.dump_docfile"),
    ("server/devpi_server/importexport.py", '            msg = f"unknown file type: {type}"\n            raise Fatal(msg)', '            return'),
    ("server/devpi_server/importexport.py", '            msg = f"File {p} has bad checksum {digest}, expected {expected}."\n            raise Fatal(msg)', '            self.warn(f"File {p} has bad checksum {digest}, expected {expected}.")'),
    ("server/devpi_server/importexport.py", 'hash_types=hashes.get_missing_hash_types()', 'hash_types=DEFAULT_HASH_TYPES'),
    ("server/devpi_server/importexport.py", '                msg = f"Some files weren\'t imported: {\', \'.join(sorted(missing))}"\n                raise Fatal(msg)', '                self.warn("missing")'),
    ("server/devpi_server/importexport.py", '        if self.dumpversion not in ("1", "2"):', '        if self.dumpversion not in ("1",):'),
    ("server/devpi_server/importexport.py", '        if errors:\n            self.xom.log.warning(', '        if errors and len(self.import_users) > 1:\n            self.xom.log.warning('),
    ("server/devpi_server/importexport.py", 'stage.modify(**indexconfig, _keep_unknown=True)', 'stage.modify(**indexconfig)'),
    ("server/devpi_server/importexport.py", '                        indexconfig["bases"] = tuple(bases)', '                        pass'),
    ("server/devpi_server/importexport.py", '                link.add_logs(history_log)', '                pass'),
    ("server/devpi_server/importexport.py", '                if base not in created:\n                    pending.append(name)\n                    break', '                if base not in created:\n                    pending.append(name)'),
    ("server/devpi_server/importexport.py", '        if missed:\n', '        if missed and not created:\n'),
    ("server/devpi_server/importexport.py", '                tree.add(stagename, existing_bases)', '                if existing_bases:\n                    tree.add(stagename, existing_bases)'),
    ("server/devpi_server/importexport.py", '    if path.check() and path.listdir():', '    if path.check() and path.listdir("*.json"):'),
    ("server/devpi_server/importexport.py", '        self.validate(json_path)\n\n        # first create all users', '        # first create all users'),
    ("server/devpi_server/importexport.py", '                user._set(userconfig)', '                    user._set(userconfig)'),
]
