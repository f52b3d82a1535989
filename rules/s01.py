"""S01: all storage backends behave alike."""
from rules.lib import *  # noqa

IF = "devpi_server.interfaces"
LOOKUPS = ("fetchone", "fetchscalar", "fetchall", "run", "execute", "getsize", "stat", "open", "exists", "is_file", "isfile", "read_bytes")


def own(f):
    return lambda g, ev, d: None if g.cls is not None and f.cls is not None and (g.cls in f.cls.mro() or f.cls in g.cls.mro()) else False


def interface(P, name):
    """method -> parameter names of an interface with its bases"""
    res = {}
    c = P.classes[IF + "." + name]
    for k in reversed([k for k in c.mro()]):
        for n, f in k.methods.items():
            res[n] = f.params()
    return res


def connections(ctx):
    """(class, number of the implemented interface) for each storage connection"""
    res = []
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and src(d.func).rpartition(".")[2] == "implementer":
                for a in d.args:
                    n = src(a).rpartition(".")[2]
                    if n.startswith("IStorageConnection"):
                        res.append((c, n))
    return res


def bound(c):
    """methods which are bound as attributes of the instance: name -> functions"""
    res = {}
    init = c.find("__init__")
    if init is None:
        return res
    for x in walk_own(init.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and src(x.value.value) == "self":
            m = c.find(x.value.attr)
            for t in x.targets:
                if isinstance(t, ast.Attribute) and src(t.value) == "self" and m is not None:
                    res.setdefault(t.attr, []).append(m)
    return res


def methods(c, name):
    """the functions which implement a method of a connection"""
    b = bound(c).get(name)
    if b:
        return b
    m = c.find(name)
    return [m] if m is not None else []


def same_operations(ctx):
    R = ctx.rule("S01.interface", "each storage connection has every operation of the interface it claims, with the same parameters, whichever "
                 "variant of an operation it selects; every storage and writer has the operations the others have")
    P = ctx.P
    conns = connections(ctx)
    ctx.count(R, len(conns), 3, "storage connections")
    newest = max(n for c, n in conns)
    new = interface(P, newest)
    for c, iface in conns:
        want = interface(P, iface)
        ctx.count(R, len(want), 13, "operations of %s" % iface)
        for name, params in sorted(want.items()):
            ms = methods(c, name)
            cons = ms[0] if ms else c.method("__init__")
            ctx.ob(R, cons, bool(ms), "%s lacks %s of %s" % (c.qual, name, iface), key="has-" + name)
            for m in ms:
                mine = [p for p in m.params() if p != "self"]
                theirs = [p for p in new.get(name, params) if p != "self"]
                if mine[:len(params) - 1] == [p for p in params if p != "self"]:
                    theirs = mine[:len(params) - 1]
                req = [p for i, p in enumerate(mine) if i < len(theirs)]
                args = m.node.args
                optional = len(args.defaults)
                ctx.ob(R, m, req == theirs and len(mine) - optional <= len(theirs), "%s.%s takes %s instead of %s" % (c.name, name, mine, theirs), key="params-" + name)
        # all variants bind the same operations
        init = c.find("__init__")
        if init is not None:
            for x in walk_own(init.node):
                if isinstance(x, ast.If) and x.orelse:
                    sets = [{t.attr for y in ast.walk(ast.Module(body=b, type_ignores=[])) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Attribute)}
                            for b in (x.body, x.orelse)]
                    ctx.ob(R, init, sets[0] == sets[1], "a variant lacks %s" % sorted(sets[0] ^ sets[1]), where(init, x), key="variants")
    # operations which are used by the rest of the server
    used = set()
    names = set(interface(P, newest))
    for f in P.iter_funcs("devpi_server", "devpi_web"):
        if f.module.name.rpartition(".")[2] in ("interfaces",) or f.module.name.startswith(("devpi_server.keyfs_sqlite", "devpi_postgresql")):
            continue
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and (src(x.value) in ("conn", "self.conn", "tx.conn", "self.tx.conn", "entry.tx.conn")):
                used.add((x.attr, f))
    for attr, f in sorted(used, key=lambda t: (t[0], t[1].qual)):
        if attr in ("close", "rollback", "commit", "dirty_files"):
            ok = all(c.find(attr) is not None or attr == "dirty_files" for c, _ in conns)
        else:
            ok = attr in names or attr == "last_changelog_serial"
        ctx.ob(R, f, ok, "%s is not an operation of all storage connections" % attr, key="used-" + attr)
    ctx.count(R, len(used), 10, "uses of storage connections")
    # storages
    storages = []
    for f in P.iter_funcs("devpi_server", "devpi_postgresql"):
        if f.name == "devpiserver_storage_backend":
            for x in walk_own(f.node):
                if isinstance(x, ast.Call) and src(x.func) == "dict":
                    kw = {k.arg: k.value for k in x.keywords}
                    v = kw.get("storage")
                    if isinstance(v, ast.Call) and v.args:
                        v = v.args[0]
                    if v is not None:
                        c = P.classes.get(f.module.name + "." + src(v))
                        if c is not None:
                            storages.append((f, c))
                    if v is not None:
                        ctx.ob(R, f, {"storage", "name", "description"} <= set(kw), "the storage backend is not described", key="described")
    ctx.count(R, len(storages), 3, "storage backends")
    for f, c in storages:
        for name in ("get_connection", "perform_crash_recovery", "ensure_tables_exist"):
            ctx.ob(R, f, c.find(name) is not None, "the storage %s lacks %s" % (c.qual, name), key="storage-" + name)
        m = c.find("get_connection")
        if m is not None:
            ctx.ob(R, m, {"closing", "write"} <= set(m.params()), "connections cannot be opened like with the other storages", key="storage-params")
        init = c.find("__init__")
        got = {t.attr for x in walk_own(init.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Attribute)}
        for a in ("_notify_on_commit", "_changelog_cache", "_relpath_cache", "last_commit_timestamp"):
            ctx.ob(R, init, a in got, "the storage has no %s" % a, key="storage-" + a)
        ctx.ob(R, init, any(True for _ in own_calls(init, "ensure_tables_exist")), "the tables of the storage are not created", key="storage-tables")
    return conns


def state_of(t):
    """what a tested comparison says about a changed file"""
    if t.k != "cmp" or not has_attr(t, "dirty_files"):
        return None
    if t.a[0] == "in" and not has_attr(t.a[1], "dirty_files"):
        return "present"
    if t.a[0] == "is":
        o = [x for x in t.a[1:] if not has_attr(x, "dirty_files")]
        if o and o[0] == NONE:
            return "none"
        if o and "absent" in show(o[0]):
            return "absent"
    return None


def file_states(ctx, conns):
    R = ctx.rule("S01.files", "within a transaction every storage answers for a file which was deleted in it as missing, for one which was set in it from the "
                 "new content, and for all others from what is stored; a file set again has only the new content")
    n = 0
    for c, _ in conns:
        for name in ("io_file_exists", "io_file_get", "io_file_open", "io_file_size"):
            for f in methods(c, name):
                n += 1

                def br(t, v, st):
                    s = state_of(t)
                    if s == "present":
                        return "present" if v else "absent"
                    if s == "none":
                        return "deleted" if v else "notdeleted"
                    if s == "absent":
                        return "absent" if v else "present"

                def lab(ev, st):
                    if ev.name in LOOKUPS and not (ev.recv is not None and has_attr(ev.recv, "dirty_files")):
                        return "dirty" if any(has_attr(a, "dirty_files", "tmppath") for a in ev_args(ev)) else "stored"
                    if ev.name in ("read", "seek", "copyfileobj", "tell") and (ev.recv is not None and has_attr(ev.recv, "dirty_files") or any(has_attr(a, "dirty_files") for a in ev_args(ev))):
                        return "dirty"
                paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=c, default_raises=(), raises={"stored": ("?",), "dirty": ()}, events=LOOKUPS + ("read", "seek", "copyfileobj"), follow=own(f), max_states=200)
                ctx.ob(R, f, some(paths, "deleted") or any(p.ret is not None and state_of(strip_not(p.ret)) for p in paths), "%s does not notice a file deleted in the transaction" % name, key="looks")
                ctx.ob(R, f, some(paths, "present", "absent", "deleted") and some(paths, "stored"), "%s does not tell changed from stored files" % name, key="instances")
                check_paths(ctx, R, f, paths, lambda p: not p.has("stored", "stored!") or not p.has("present", "deleted") or p.has("absent"), "%s answers from the stored file instead of the one changed in the transaction" % name, key="new")
                check_paths(ctx, R, f, paths, lambda p: not (p.has("absent") and p.kind == "return") or p.has("stored", "stored!", "present"), "%s does not answer from the stored file" % name, key="stored")
                gone = lambda p: p.has("deleted")
                if name in ("io_file_get", "io_file_open"):
                    check_paths(ctx, R, f, paths, lambda p: not gone(p) or p.kind == "raise" and str(p.exc.a[0]).rpartition(".")[2] in ("OSError", "IOError", "FileNotFoundError", "EnvironmentError"),
                                "%s of a file deleted in the transaction does not fail like with other storages" % name, key="deleted")
                    check_paths(ctx, R, f, paths, lambda p: not (p.has("notdeleted") and p.has("present") and p.kind == "return") or p.has("dirty"), "%s does not use the content set in the transaction" % name, key="content")
                elif name == "io_file_size":
                    check_paths(ctx, R, f, paths, lambda p: not gone(p) or p.kind == "return" and p.ret == NONE, "the size of a file deleted in the transaction is not unknown like with other storages", key="deleted")
                    check_paths(ctx, R, f, paths, lambda p: not (p.has("notdeleted") and p.has("present") and p.kind == "return") or p.has("dirty"), "the size of a file set in the transaction is not the new one", key="content")
                else:
                    check_paths(ctx, R, f, paths, lambda p: not gone(p) or p.kind == "return" and p.ret == FALSE, "a file deleted in the transaction exists", key="deleted")
                    check_paths(ctx, R, f, paths, lambda p: not (p.has("present") and not p.has("deleted", "notdeleted")) or state_of(strip_not(p.ret)) == "none", "a file deleted in the transaction exists", key="deleted-expr")
                    check_paths(ctx, R, f, paths, lambda p: not (p.has("notdeleted") and p.kind == "return") or p.ret == TRUE or p.has("dirty", "absent"), "a file set in the transaction does not exist", key="set")
        for f in methods(c, "io_file_set"):
            n += 1
            fresh = []

            def st_(ev, st):
                if ev.kind == "sub" and has_attr(ev.base, "dirty_files"):
                    fresh.append(ev.value)
                    return True

            def lab(ev, st):
                if ev.name in ("truncate", "seek") and ev.recv is not None:
                    return ev.name + "-old" if has_attr(ev.recv, "dirty_files") else None
                if ev.name in ("write", "copyfileobj", "writelines"):
                    return "content"
                if ev.name == "from_content":
                    return "content"
                if ev.name == "providedBy":
                    return None
                if ev.name in ("SpooledTemporaryFile", "DirtyFile", "TemporaryFile", "BytesIO"):
                    return "fresh"

            def br(t, v, st):
                if t.k == "call" and call_name(t) == "providedBy":
                    return "already" if v else None
                s = state_of(t)
                if s == "none":
                    return "no-old" if v else "old"
            paths = trace_paths(ctx, f, {"x": lab}, stores=[("kept", st_)], branch=br, self_cls=c, default_raises=(), follow=lambda g, ev, d: False,
                                events=("truncate", "seek", "write", "copyfileobj", "from_content", "SpooledTemporaryFile", "DirtyFile", "TemporaryFile"), max_states=200)
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("kept"), "the content of a file is not remembered for the commit", key="kept")
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("content", "already"), "the content of a file is lost", key="written")
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("fresh") or p.has("content") and not p.has("old") or
                        0 <= p.idx("seek-old") < p.idx("truncate-old") < p.idx("content"), "a file set again keeps parts of its former content", key="replaced")
        for f in methods(c, "io_file_delete"):
            n += 1

            def br(t, v, st):
                if state_of(t) == "none":
                    return "no-old" if v else "old"
                if t.k == "call" and has_attr(t, "dirty_files"):
                    return "old" if v else "no-old"
            paths = trace_paths(ctx, f, {"release": ("close", "remove", "unlink")}, branch=br, self_cls=c, default_raises=(), follow=own(f),
                                stores=[("deleted", lambda ev, st: ev.kind == "sub" and has_attr(ev.base, "dirty_files") and ev.value == NONE),
                                        ("other", lambda ev, st: ev.kind == "sub" and has_attr(ev.base, "dirty_files") and ev.value != NONE)], events=("close", "remove"))
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("deleted") and p.last("deleted") > p.last("other"), "a deleted file is not remembered for the commit", key="deleted")
            check_paths(ctx, R, f, paths, lambda p: not p.has("old") or p.has("release"), "the content set before the deletion is left behind", key="released")
    ctx.count(R, n, 18, "file operations")


def strip_not(t):
    while t is not None and t.k == "un" and t.a[0] in ("not", "Not"):
        t = t.a[1]
    return t if t is not None else NONE


def writers(ctx):
    R = ctx.rule("S01.writer", "with every storage a change is committed once, after its files, keys and changelog entry were written with the serial of "
                 "the change, and announced after that; a failed one is rolled back")
    P = ctx.P
    ws = [c for c in sorted(P.classes.values(), key=lambda c: c.qual) if "record_set" in c.methods and "__exit__" in c.methods]
    ctx.count(R, len(ws), 2, "writers")
    for c in ws:
        f = c.method("__exit__")
        params = f.params()
        mod = c.module.name
        conn = {"devpi_server.keyfs_sqlite": ("devpi_server.keyfs_sqlite.Connection", "devpi_server.keyfs_sqlite_fs.Connection"),
                "devpi_postgresql.main": ("devpi_postgresql.main.Connection",)}.get(mod, ())
        for q in conn or (None,):
            hints = {"conn": q, "self.conn": q} if q else {}
            for failing in (False, True):
                excv = T("ref", "builtins.Exception") if failing else NONE
                recs = []

                def lab(ev, st):
                    if ev.name == "_notify_on_commit" or attr_chain(ev.fterm).endswith("_notify_on_commit"):
                        return "notify"
                    if ev.name == "write_changelog_entry":
                        recs.append(("log", ev))
                        return "log"
                    if ev.name in ("db_write_typedkeys", "_db_write_typedkey"):
                        recs.append(("kv", ev))
                        return "kv"
                    if ev.name in ("_write_dirty_files",):
                        return "files"
                    if ev.name == "commit" and ev.recv is not None and attr_chain(ev.recv).endswith("conn"):
                        return "commit"
                    if ev.name == "rollback" and ev.recv is not None and attr_chain(ev.recv).endswith("conn"):
                        return "rollback"
                paths = trace_paths(ctx, f, {"x": lab}, args={params[1]: excv}, facts={T("cmp", "is", excv, NONE): not failing}, self_cls=c, hints=hints,
                                    default_raises=("?",), raises={"rollback": (), "notify": (), "commit": ("?",)}, quiet=("thread_pop_log", "debug", "info", "join", "map", "append", "items", "LazyChangesFormatter", "_drop_dirty_files", "time", "list", "repr"),
                                    events=("_notify_on_commit", "write_changelog_entry", "db_write_typedkeys", "_db_write_typedkey", "_write_dirty_files", "commit", "rollback"),
                                    follow=lambda g, ev, d: None if g.cls is c else False, max_states=300, rounds=1)
                if failing:
                    check_paths(ctx, R, f, paths, lambda p: p.has("rollback") and not p.has("commit", "commit!", "notify", "log", "files", "kv"), "a failed change is not rolled back", key="rollback")
                    continue
                ctx.ob(R, f, some(paths, "kv") and some(paths, "log"), "changes are not written", key="instances")
                check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or all(p.trace.count(x) == 1 for x in ("log", "files", "commit", "notify")), "a change is not written, committed and announced exactly once", key="all")
                check_paths(ctx, R, f, paths, lambda p: not p.has("commit", "commit!") or all(0 <= p.idx(x) < (p.idx("commit") if p.has("commit") else p.idx("commit!")) for x in ("log", "files")),
                            "a change is committed before all of it was written", key="order")
                check_paths(ctx, R, f, paths, lambda p: not p.has("kv") or not p.has("commit") or p.last("kv") < p.idx("commit"), "keys are written after the commit", key="order-kv")
                check_paths(ctx, R, f, paths, lambda p: not p.has("notify") or 0 <= p.idx("commit") < p.idx("notify"), "a change is announced before it is durable", key="notify")
                check_paths(ctx, R, f, paths, lambda p: p.kind != "raise" or p.has("rollback"), "a change which cannot be written is not rolled back", key="failed")
                check_paths(ctx, R, f, paths, lambda p: p.kind != "raise" or p.has("commit") or not p.has("notify"), "a change which was not committed is announced", key="failed-notify")
                for kind, ev in recs:
                    if kind == "log":
                        ser = argn(ev, 0, "serial")
                        ctx.ob(R, f, ser is not None and ("commit_serial" in show(ser) or has_param(ser, "commit_serial")), "the changelog entry has another serial than the change", where(f, ev.node), key="log-serial")
                        ent = argn(ev, 1, "entry")
                        ctx.ob(R, f, ent is not None and has_attr(ent, "changes"), "the changelog entry lacks the changes", where(f, ev.node), key="log-changes")
        # values are copies
        g = c.method("record_set")
        vals = []
        paths = trace_paths(ctx, g, {}, stores=[("rec", lambda ev, st: ev.kind == "sub" and vals.append((ev.name, ev.value)) is None)], self_cls=c, default_raises=(), follow=lambda g, ev, d: False)
        check_paths(ctx, R, g, paths, lambda p: p.kind != "return" or p.has("rec"), "a change is not recorded", key="recorded")
        for k, v in vals:
            parts = items(v)
            ctx.ob(R, g, len(parts) == 3 and has_attr(parts[0], "name") and has_param(parts[1], "back_serial") and has_call(parts[2], "get_mutable_deepcopy"),
                   "a change is not recorded as key name, former serial and a copy of the value", key="parts")
            ctx.ob(R, g, has_attr(k, "relpath"), "a change is not recorded for its key", key="key")


def same_lookup(ctx, conns):
    R = ctx.rule("S01.lookup", "with every storage a value is looked up at a serial in the same steps, changes read from the database are made read-only, and "
                 "a missing key is a KeyError")
    for c, _ in conns:
        for f in methods(c, "get_changes"):
            paths = trace_paths(ctx, f, {"ro": "ensure_deeply_readonly", "raw": "get_raw_changelog_entry", "loads": "loads",
                                         "cache": lambda ev, st: ev.name == "put" and bool(ev.args[1:]) and has_call(ev.args[1], "ensure_deeply_readonly")},
                                branch=lambda t, v, st: ("miss" if v else "hit") if t.k == "cmp" and t.a[0] == "is" and "absent" in show(t) else None, self_cls=c, default_raises=(), events=("put",), follow=lambda g, ev, d: False)
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("hit") or p.has("raw") and p.has("ro"), "changes read from the database can be modified", key="readonly")
            check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("hit") or has_call(p.ret, "ensure_deeply_readonly"), "changes read from the database can be modified", key="returned")
        for f in methods(c, "db_read_typedkey"):
            paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("missing" if v else "found") if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] else
                                ("found" if v else "missing") if t.k == "call" and call_name(t) in ("fetchone",) else None, self_cls=c, default_raises=(), follow=lambda g, ev, d: False)
            check_paths(ctx, R, f, paths, lambda p: (p.kind == "raise" and str(p.exc.a[0]).endswith("KeyError")) == p.has("missing"), "a missing key is not a KeyError", key="missing")
            ctx.ob(R, f, some(paths, "missing"), "a missing key is not noticed", key="missing-looked")
        for f in methods(c, "db_read_last_changelog_serial"):
            paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: ("empty" if v else "some") if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] else None, self_cls=c, default_raises=(), follow=lambda g, ev, d: False)
            check_paths(ctx, R, f, paths, lambda p: not p.has("empty") or p.ret == const(-1), "the serial of an empty database is not -1", key="empty")
            ctx.ob(R, f, some(paths, "empty"), "the serial of an empty database is not -1", key="empty-looked")
        for f in methods(c, "get_relpath_at"):
            hits = []

            def lab(ev, st):
                if ev.name == "get" and "cache" in show(ev.recv):
                    return "cache:" + show(ev.recv).rpartition(".")[2] + (":pair" if ev.args and ev.args[0].k == "tup" else "")
                if ev.name in ("_get_relpath_at", "get_relpath_at"):
                    return "db"
                if ev.name == "put":
                    hits.append(ev)
                    return "put"
            paths = trace_paths(ctx, f, {"x": lab}, self_cls=c, default_raises=(), follow=lambda g, ev, d: False, events=("get", "put", "_get_relpath_at", "get_relpath_at"), max_states=100)
            for ev in hits:
                k = items(ev.args[0]) if ev.args else ()
                ctx.ob(R, f, len(k) == 2 and any(has_param(x, "serial") for x in k) and any(has_param(x, "relpath") for x in k), "a value is cached for another key or serial", where(f, ev.node), key="cached")
            ctx.ob(R, f, some(paths, "db"), "values are not looked up in the database", key="db")


def recovery(ctx, conns):
    R = ctx.rule("S01.rollback", "a storage which keeps changed files outside of its database drops them when it is rolled back")
    for c, _ in conns:
        f = c.find("rollback")
        ctx.ob(R, f or c.method("__init__"), f is not None, "a storage connection cannot be rolled back", key="has")
        if f is None:
            continue
        disk = any(has_disk(m) for m in methods(c, "io_file_set"))
        paths = trace_paths(ctx, f, {"db": lambda ev, st: ev.name in ("rollback", "run") and "_sqlconn" in show(ev.recv or NONE), "drop": lambda ev, st: ev.name == "remove" or any(n.endswith("os.remove") for n in ev.target_names)},
                            self_cls=c, default_raises=(), events=("rollback", "run", "remove"), iters=lambda what, it, st: ("dirty" if what == "next" else None) if has_attr(it, "dirty_files") else None)
        check_paths(ctx, R, f, paths, lambda p: p.kind != "return" or p.has("db"), "the database is not rolled back", key="db")
        if disk:
            ctx.ob(R, f, some(paths, "dirty") and some(paths, "drop"), "files written for a change which is rolled back are left behind", key="drop")


def has_disk(f):
    return any(n in ("DirtyFile",) for n in names_in(f.node))


def check(ctx):
    conns = same_operations(ctx)
    file_states(ctx, conns)
    writers(ctx)
    same_lookup(ctx, conns)
    recovery(ctx, conns)
    ctx.assumptions += ["SQLite and PostgreSQL transactions are atomic and durable; the differences between their SQL dialects are not analysed"]


PG = "postgresql/devpi_postgresql/main.py"
SQ = "server/devpi_server/keyfs_sqlite.py"
FS = "server/devpi_server/keyfs_sqlite_fs.py"
SELFTEST = [
    (PG, "            f.seek(0)\n            f.truncate()\n", "            pass\n"),
    (SQ, "            f.seek(0)\n            f.truncate()\n", "            f.seek(0)\n"),
    (PG, "        if f is None:\n            return None\n", "        if f is None:\n            raise IOError()\n"),
    (FS, "            if dirty_file is None:\n                return None\n", "            if dirty_file is None:\n                raise IOError()\n"),
    (FS, "            if dirty_file is None:\n                raise IOError()\n            path = dirty_file.tmppath\n        return open", "            if dirty_file is None:\n                raise IOError()\n        return open"),
    (PG, "        dirty_file = self.dirty_files.get(path, absent)\n        if dirty_file is None:\n            raise IOError()\n        f = Spooled", "        dirty_file = self.dirty_files.get(path, absent)\n        if dirty_file is None:\n            dirty_file = absent\n        f = Spooled"),
    (PG, "            self._file_write = self._insert_file_write\n", ""),
    (PG, "    def io_file_new_open(self, path):", "    def io_file_new_open(self):"),
    (PG, "                self.conn.commit()\n                message", "                self.storage._notify_on_commit(commit_serial)\n                self.conn.commit()\n                message"),
    (PG, "                self.conn._write_dirty_files()\n", ""),
    (PG, "        except BaseException:\n            self.conn.rollback()\n            raise\n        finally", "        finally"),
    (PG, "        value = get_mutable_deepcopy(value)\n        self.changes[", "        self.changes["),
    (PG, "            changes = ensure_deeply_readonly(changes)\n            assert isinstance(changes, ReadonlyView)\n", ""),
    (FS, "        drop_dirty_files(self.dirty_files)\n\n    def io_file_os_path", "\n    def io_file_os_path"),
    (SQ, "        f = self.dirty_files.pop(path, None)\n        if f is not None:\n            f.close()\n        self.dirty_files[path] = None", "        f = self.dirty_files.pop(path, None)\n        if f is not None:\n            f.close()\n        else:\n            self.dirty_files[path] = None"),
    (SQ, "        f = self.dirty_files.get(path, absent)\n        if f is not absent:\n            return f is not None\n", "        f = self.dirty_files.get(path, absent)\n        if f is not absent:\n            return True\n"),
    (PG, "            self._changelog_cache.put((serial, relpath), result)\n        else", "            self._changelog_cache.put((relpath, relpath), result)\n        else"),
    (PG, "        return -1 if res is None else res", "        return 0 if res is None else res"),
]
