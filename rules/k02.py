"""K02: crash safety of files and state files."""
from rules.lib import *  # noqa

FS = "devpi_server.keyfs_sqlite_fs"
FF = "devpi_server.filestore_fs"
FU = "devpi_server.fileutil"

MOVES = ["os.rename", "os.replace", "os.link", "os.symlink", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", FU + ".rename"]
REMOVES = ["os.remove", "os.unlink", "shutil.rmtree"]


def is_tmp(t):
    return has_attr(t, "tmppath") or has_str(t, "-tmp") or has_attr(t, "name") and has_call(t, "NamedTemporaryFile", "mkstemp")


def fs_classes(ctx):
    return [c for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual)
            if c.module.name == FS and c.name == "Connection"]


def mv(ev, st):
    if any(n in MOVES for n in ev.target_names):
        return True


def rm(ev, st):
    if any(n in REMOVES for n in ev.target_names) or ev.name in ("unlink", "rmtree"):
        a = ev.args[0] if ev.args else ev.recv
        return "droptmp" if a is not None and is_tmp(a) else "remove"


def order(ctx):
    R = ctx.rule("K02.order", "files get their final name, are replaced or removed only after the changelog entry with the renames "
                 "was committed to the database, and after that commit temporary files are not dropped")
    W = ctx.P.cls("devpi_server.keyfs_sqlite.Writer")
    C = fs_classes(ctx)[0]
    f = W.method("__exit__")
    params = f.params()
    ev_names = ("rename", "remove", "unlink", "commit", "_sqlconn")
    n = 0
    for failing in (False, True):
        excv = T("ref", "builtins.Exception") if failing else NONE
        paths = trace_paths(
            ctx, f,
            {"log": ["write_changelog_entry"], "sqlcommit": ["_sqlconn.commit"], "sqlrollback": ["_sqlconn.rollback"],
             "move": mv, "rm": rm,
             "forget": lambda ev, st: ev.name == "clear" and ev.recv is not None and has_attr(ev.recv, "dirty_files")},
            args={params[1]: excv}, facts={T("cmp", "is", excv, NONE): not failing}, self_cls=W,
            hints={"conn": C.qual, "self.conn": C.qual}, events=ev_names, default_raises=("?B",),
            raises={"forget": ()}, quiet=("thread_pop_log", "LazyChangesFormatter", "exists", "repr"), depth=8, max_states=128)
        fsops = ("move", "remove", "move!", "remove!")
        if not failing:
            n += sum(1 for p in paths if p.has("move"))
            check_paths(ctx, R, f, paths, lambda p: not p.has(*fsops) or (
                p.has("sqlcommit") and min(p.trace.index(x) for x in fsops if x in p.trace) > p.idx("sqlcommit")
                and p.has("log") and p.idx("log") < p.idx("sqlcommit")),
                "a file changes under its final name before the database commit which records it", key="order")
            check_paths(ctx, R, f, paths, lambda p: not (p.has("sqlcommit") and p.last("droptmp") > p.idx("sqlcommit"))
                        or p.has("forget") and p.idx("forget") < p.last("droptmp"),
                        "temporary files are dropped although the commit naming them is durable", key="drop")
            check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not p.has("forget") or p.idx("forget") > p.idx("log"),
                        "pending files are forgotten before they were recorded", key="forget")
        else:
            check_paths(ctx, R, f, paths, lambda p: not p.has(*fsops) and not p.has("sqlcommit"),
                        "a failed transaction changes files under their final name", key="failed")
    ctx.ob(R, f, n > 0, "files are never moved to their final name", key="instances")
    # the same list of renames is recorded and carried out
    f = W.method("commit")
    seen = {"log": set(), "write": set()}

    def log(ev, st):
        if ev.name == "write_changelog_entry":
            seen["log"].add(ev.args[-1])
            return True

    def write(ev, st):
        if ev.name == "_write_dirty_files":
            seen["write"].add(ev.args[0])
            return True
    paths = trace_paths(ctx, f, {"log": log, "write": write, "renames": ["_get_rel_renames"]}, self_cls=W,
                        hints={"conn": C.qual, "self.conn": C.qual}, through=())
    ctx.ob(R, f, bool(seen["log"]) and bool(seen["write"]) and all(
        any(contains(a, lambda x: x is w) for w in seen["write"]) for a in seen["log"]) and all(has_call(w, "_get_rel_renames") for w in seen["write"]),
        "the committed changelog entry does not hold the very list of renames which is carried out", key="same-list")
    # carried out for every connection class on the filesystem
    for C in fs_classes(ctx):
        f = C.method("_write_dirty_files")
        par = [p for p in f.params() if p != "self"]
        paths = trace_paths(ctx, f, {"sqlcommit": ["self.commit", "_sqlconn.commit"],
                                     "renames": lambda ev, st: ev.name == "commit_renames" and any(has_param(a, *par) for a in ev.args)},
                            self_cls=C, through=(), raises={"sqlcommit": ("?B",)})
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("sqlcommit") and p.has("renames") and p.idx("sqlcommit") < p.idx("renames"),
                    "the recorded renames are not carried out after the commit", key="carry-out")
        f = C.method("commit_files_without_increasing_serial")
        paths = trace_paths(ctx, f, {"renames": ["_get_rel_renames"], "write": lambda ev, st: ev.name == "_write_dirty_files" and any(has_call(a, "_get_rel_renames") for a in ev.args)},
                            self_cls=C)
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("write"), "pending files are not written", key="carry-out")


def temps(ctx):
    R = ctx.rule("K02.temp", "inside of a transaction only temporary names are written or removed")
    n = 0
    for C in fs_classes(ctx):
        for name in ("io_file_set", "io_file_new_open", "io_file_delete", "io_file_open", "io_file_get", "io_file_size", "io_file_exists", "rollback", "_drop_dirty_files"):
            f = C.find(name)
            if f is None:
                raise AnchorError("%s.%s is gone" % (C.qual, name))
            bad = []

            def wr(ev, st):
                if ev.name in ("open", "get_write_file_ensure_dir"):
                    mode = ev.args[1] if len(ev.args) > 1 else None
                    if ev.name == "open" and (mode is None or cstr(mode) is not None and not set(cstr(mode)) & set("wax+")):
                        return None
                    return "write-tmp" if is_tmp(ev.args[0]) else "write-final"
                if any(x in MOVES for x in ev.target_names):
                    return "write-tmp" if is_tmp(ev.args[1]) else "write-final"
                r = rm(ev, st)
                return r
            paths = trace_paths(ctx, f, {"fs": wr}, self_cls=C, events=("open", "get_write_file_ensure_dir", "link", "remove", "rename", "tmppath"),
                                depth=5, quiet=("dirname", "exists", "makedirs"))
            n += some(paths, "write-tmp", "droptmp")
            check_paths(ctx, R, f, paths, lambda p: not p.has("write-final", "remove", "write-final!", "remove!"),
                        "a file is written or removed under its final name before the commit", key=name)
        # what was removed or set is remembered
        f = C.find("io_file_delete")
        paths = trace_paths(ctx, f, {}, self_cls=C, stores={
            "mark": lambda e, st: e.kind == "sub" and has_attr(e.base, "dirty_files") and e.value is NONE}, events=("dirty_files",))
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("mark"), "the removal of a file is not recorded for the commit", key="mark-delete")
        f = C.find("io_file_set")
        paths = trace_paths(ctx, f, {}, self_cls=C, stores={
            "mark": lambda e, st: e.kind == "sub" and has_attr(e.base, "dirty_files") and e.value is not NONE}, events=("dirty_files",))
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("mark"), "a written file is not recorded for the commit", key="mark-set")
    ctx.count(R, n, 3, "operations on temporary files")
    # temporary names are told apart
    for q in (FS + ".DirtyFile.__init__", FF + ".DirtyFile.__init__"):
        f = ctx.P.funcs.get(q)
        if f is None:
            continue
        vals = []
        trace_paths(ctx, f, {}, stores={"tmp": lambda e, st: e.kind == "attr" and e.name == "tmppath" and (vals.append(e.value) or True)}, events=("tmppath",))
        ok = vals and all(has_param(v, "path") and has_str(v, "-tmp") and has_call(v, "hexdigest", "get_ident", "uuid4") for v in vals)
        ctx.ob(R, f, ok, "the temporary name is not derived from the final name, or not unique to the writing thread", key="name")


def renames(ctx):
    R = ctx.rule("K02.renames", "every pending file is recorded, carried out and, after a crash, completed")
    for q in (FS + ".write_dirty_files", FF + ".make_rel_renames", FF + ".commit_renames", FF + ".check_pending_renames", FS + ".drop_dirty_files"):
        f = ctx.P.func(q)
        name = f.name

        def item(what, it, st):
            if has_param(it, *f.params()) and what in ("next", "end"):
                return "item" if what == "next" else "end"

        def act(ev, st):
            if ev.name == "append" and len(ev.args) == 1 and items(ev.args[0]):
                return "record-del" if items(ev.args[0])[0] is NONE else "record-move"
            if any(x in MOVES for x in ev.target_names):
                dst, srcp = ev.args[1], ev.args[0]
                good = dst.k == "sub" and dst.a[0] is srcp or has_call(dst, "removesuffix")
                return "move" if good else "badmove"
            return rm(ev, st)

        def br(t, v, st):
            if t.k == "call" and call_name(t) in ("exists", "isfile", "lexists") and not v:
                a = call_args(t)[0]
                return "missing-dst" if a.k == "sub" else "missing-src"
            if t.k == "cmp" and t.a[0] == "is" and has_call(t, "tmpsuffix_for_path"):
                return "is-del" if v else "is-move"
            if t.k == "cmp" and t.a[0] == "is" and NONE in (t.a[1], t.a[2]) and contains(t, lambda x: x.k == "elem"):
                return "no-src" if v else "src"
        ys = []

        def yields(term, st):
            ys.append(term)
            return "record"
        paths = trace_paths(ctx, f, {"act": act}, iters=item, branch=br, yields=yields, yield_exc=(), dedupe=False,
                            quiet=("join", "exists", "tmpsuffix_for_path", "suppress"), raises={"move": ("builtins.OSError",), "remove": ("builtins.OSError",), "droptmp": ("builtins.OSError",), "badmove": ("builtins.OSError",)},
                            events=("rename", "remove"), follow=lambda g, ev, d: False)
        if not some(paths, "item"):
            # written without a loop over the argument
            continue
        acts = {"write_dirty_files": ("record-del", "record-move"), "make_rel_renames": ("record",),
                "commit_renames": ("move", "remove"), "check_pending_renames": ("move", "remove", "missing-src"),
                "drop_dirty_files": ("droptmp", "no-src")}[name]
        check_paths(ctx, R, f, paths, handled("item", acts, "end"), "an entry is left out", key="all")
        check_paths(ctx, R, f, paths, lambda p: not p.has("badmove", "badmove!"), "a temporary file is moved to another name than its own without the suffix", key="target")
        if name in ("commit_renames", "check_pending_renames"):
            def kinds(p):
                cur = None
                for x in p.trace:
                    if x in ("is-del", "is-move"):
                        cur = x
                    elif x.startswith("move") and cur != "is-move" or x.startswith("remove") and cur != "is-del":
                        return False
                return True
            ctx.ob(R, f, some(paths, "move") and some(paths, "remove"), "moves or removals are not carried out", key="both")
            check_paths(ctx, R, f, paths, kinds, "moves and removals are mixed up", key="kinds")
        if name == "check_pending_renames":
            check_paths(ctx, R, f, paths, lambda p: not p.has("missing-dst") or p.kind == "raise", "a lost file is not reported", key="lost")
            check_paths(ctx, R, f, paths, lambda p: not (p.trace and p.trace[-1] == "remove!" and p.kind == "raise"), "an already removed file fails the recovery", key="again")
            ctx.ob(R, f, any(p.has("missing-src") and p.kind == "return" and not p.has("move", "remove") for p in paths),
                   "an already completed rename fails the recovery", key="done")
        if name == "make_rel_renames":
            src_ = {t for t in ys}
            ctx.ob(R, f, len(src_) >= 2, "moves and removals are not told apart", key="both")
            p2 = trace_paths(ctx, f, {}, branch=br, dedupe=False, yield_exc=(), follow=lambda g, ev, d: False,
                             yields=lambda t, st: "y0" if contains(t, lambda x: x.k == "sub" and x.a[1] is const(0) and x.a[0].k == "elem") else "y1")

            def pairs(p):
                cur = None
                for x in p.trace:
                    if x in ("src", "no-src"):
                        cur = x
                    elif x == "y0" and cur != "src" or x == "y1" and cur != "no-src":
                        return False
                return True
            check_paths(ctx, R, f, p2, pairs, "a removal is recorded as move or the other way around", key="kinds")
        if name == "drop_dirty_files":
            check_paths(ctx, R, f, paths, lambda p: not p.has("remove"), "a file is removed under its final name", key="temp")
    R2 = ctx.rule("K02.recovery", "before serving, the renames of the last committed change are completed")
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.module.name == FS and c.name == "Storage":
            f = c.method("perform_crash_recovery")

            def check_(ev, st):
                return ev.name == "check_pending_renames"
            args = []
            paths = trace_paths(
                ctx, f, {"recover": lambda ev, st: ev.name == "check_pending_renames" and (args.append(ev.args[1] if len(ev.args) > 1 else NONE) or True)},
                branch=lambda t, v, st: "empty" if v and t.k == "cmp" and t.a[0] == "==" and has_attr(t, "last_changelog_serial") and contains(t, lambda x: x is const(-1)) else None,
                self_cls=c, follow=lambda g, ev, d: False if g.module.name != FS else None)
            check_paths(ctx, R2, f, paths, lambda p: p.kind == "raise" or p.has("recover", "empty"), "pending renames are not completed", key="recover")
            ctx.ob(R2, f, args and all(has_call(a, "get_raw_changelog_entry") and has_attr(a, "last_changelog_serial") for a in args),
                   "the recovery does not use the renames recorded in the last committed change", key="last")
    f = ctx.P.func("devpi_server.keyfs.KeyFS.finalize_init")
    paths = trace_paths(ctx, f, {"recover": ["perform_crash_recovery"]}, follow=lambda g, ev, d: False)
    check_paths(ctx, R2, f, paths, lambda p: p.kind == "raise" or p.has("recover"), "crash recovery is not part of the initialisation", key="init")
    f = ctx.P.func("devpi_server.main.XOM.keyfs")
    paths = trace_paths(ctx, f, {"finalize": ["finalize_init"], "register": ["register"]}, follow=lambda g, ev, d: False, raises={"finalize": ("?",)})
    check_paths(ctx, R2, f, paths, lambda p: p.kind == "raise" or p.has("finalize"), "the key store is handed out before the crash recovery", key="xom")
    check_paths(ctx, R2, f, paths, lambda p: not p.has("finalize!") or p.kind == "raise", "a failing crash recovery is ignored", key="xom-fail")


STATE = {
    # function writing it -> what it is
    "devpi_server.fileutil.write_int_to_file": "serial state files",
    "devpi_server.config.Config.write_nodeinfo": "the node identity file",
}


def state_files(ctx):
    R = ctx.rule("K02.state", "state files are written under a temporary name which then atomically replaces the old file")
    for q, what in STATE.items():
        f = ctx.P.func(q)
        dest = []

        def act(ev, st):
            if ev.name in ("open", "get_write_file_ensure_dir", "write_text", "write_bytes", "NamedTemporaryFile"):
                if ev.name == "NamedTemporaryFile":
                    return "wtmp" if "dir" in ev.kwargs and ev.kwargs.get("delete") is FALSE else "wfinal"
                a = ev.recv if ev.name.startswith("write_") or (ev.name == "open" and ev.fterm.k == "attr" and ev.recv is not None and not any(x == "builtins.open" for x in ev.target_names)) else ev.args[0]
                if not (is_tmp(a)):
                    return "wfinal"
                return "wtmp"
            if any(x in MOVES for x in ev.target_names) and ev.name in ("rename", "replace"):
                dest.append(ev.args[1])
                return "move" if is_tmp(ev.args[0]) else "badmove"
            if ev.name in ("rename", "replace") and ev.recv is not None and len(ev.args) == 1 and is_tmp(ev.recv):
                return "move"
        def withlab(what, cm, st):
            if what != "enter" and (is_tmp(cm) or has_call(cm, "NamedTemporaryFile")):
                return "closed"
        paths = trace_paths(ctx, f, {"act": act, "write": lambda ev, st: ev.name in ("write", "dump") and not ev.name.startswith("write_")},
                            follow=lambda g, ev, d: False, with_label=withlab, dedupe=False)
        check_paths(ctx, R, f, paths, lambda p: not p.has("wfinal", "wfinal!", "badmove"), "%s is written in place" % what, key="temp")
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("move") and p.last("write") < p.last("move") and p.has("write")
                    and p.last("closed") < p.last("move") and p.has("closed"),
                    "%s does not replace the old one after it was written and closed" % what, key="replace")
    for f, c in callers(ctx.P, "write_int_to_file", prefixes=SERVER):
        ctx.ob(R, f, True, key=src(c))
    # who else writes event serials or the nodeinfo
    n = 0
    for f in ctx.P.iter_funcs(*SERVER):
        for x in walk_own(f.node):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                if nm in ("write_text", "write_bytes", "open", "write") and any(
                        s in src(x) for s in ("event_serial_path", "nodeinfo_path", "replica_state", "serial_path")):
                    mode = src(x)
                    ok = nm == "open" and not any(m in mode for m in ("'w", '"w', "'a", '"a', "+b"))
                    ctx.ob(R, f, ok, "a state file is written in place", where(f, x), key=src(x))
                    n += 1
    f = ctx.P.func("devpi_server.fileutil.rename")
    paths = trace_paths(ctx, f, {"replace": lambda ev, st: any(x in ("os.replace", "os.rename") for x in ev.target_names) and ev.args == [T("p", f.params()[0]), T("p", f.params()[1])] or
                                 any(x in ("os.replace", "os.rename") for x in ev.target_names) and has_param(ev.args[0], f.params()[0]) and has_param(ev.args[1], f.params()[1]),
                                 "rm": lambda ev, st: "remove" if any(x in REMOVES for x in ev.target_names) else None},
                        branch=lambda t, v, st: "win" if v and has_str(t, "win32") else None, raises={"replace": ("builtins.OSError",)})
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("replace"), "rename returns without having replaced the destination", key="rename")
    check_paths(ctx, R, f, paths, lambda p: not p.has("remove") or p.has("win"), "the old file is removed before the new one is in place", key="rename-atomic")


def check(ctx):
    order(ctx)
    temps(ctx)
    renames(ctx)
    state_files(ctx)
    ctx.assumptions += ["os.replace and a database commit are atomic and ordered as issued (no fsync modelling)"]
