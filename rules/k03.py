"""K03: serials."""
from rules.lib import *  # noqa

KF = "devpi_server.keyfs"


def writers(ctx):
    return [c for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual)
            if c.name == "Writer" and "__exit__" in c.methods and c.find("record_set")]


def is_last(t):
    return t.k == "attr" and t.a[1] == "last_changelog_serial" or t.k == "call" and call_name(t) == "db_read_last_changelog_serial"


def is_next(t):
    """last serial + 1"""
    return t.k == "bin" and t.a[0] in ("+", "Add") and (
        t.a[1] is const(1) and is_last(t.a[2]) or t.a[2] is const(1) and is_last(t.a[1])) or \
        t.k == "call" and call_name(t) == "get_next_serial"


def assign(ctx):
    R = ctx.rule("K03.assign", "the serial of a change is the one after the last committed one (or the next of the database's own "
                 "sequence), determined while the exclusive write lock is held, and it is the one all records of the change use")
    n = 0
    for c in writers(ctx):
        f = c.find("__enter__")
        vals = []
        pg = "sequence" in src(f.node) or "nextval" in src(f.node)

        def lab(ev, st):
            if ev.name == "_lock":
                return "lock"
            if ev.name == "begin":
                return "begin"
            if any(contains(a, lambda x: cstr(x) is not None and "nextval" in cstr(x)) for a in ev_args(ev)):
                return "next"
        paths = trace_paths(ctx, f, {"l": lab}, self_cls=c, events=("commit_serial",),
                            stores={"serial": lambda e, st: e.kind == "attr" and e.name == "commit_serial" and (vals.append(e.value) or True)},
                            quiet=("thread_push_log",))
        n += 1
        ctx.ob(R, f, bool(vals) and all(is_next(v) or any(contains(v, lambda x: cstr(x) is not None and "nextval" in cstr(x)) for _ in [0]) for v in vals),
               "the serial of a change is not the next one", key="next")
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("serial"), "no serial is determined", key="set")
        if pg:
            check_paths(ctx, R, f, paths, lambda p: not p.has("next", "next!") or p.has("lock") and p.has("begin")
                        and p.idx("begin") < p.idx("lock") < min(p.trace.index(x) for x in ("next", "next!") if x in p.trace),
                        "the serial is determined before the write lock is held", key="lock")
        # one serial for all records
        f = c.method("__exit__")
        par = f.params()
        recs = []

        def rec(ev, st):
            if ev.name == "write_changelog_entry":
                recs.append(("log", ev.args[0]))
                return "log"
            if ev.name in ("db_write_typedkeys", "_db_write_typedkey"):
                recs.append(("kv", ev.args[-1]))
                return "kv"
            if ev.name == "_notify_on_commit":
                recs.append(("notify", ev.args[0]))
                return "notify"

        def data(ev, st):
            if ev.name == "append" and ev.args and items(ev.args[0]):
                recs.append(("data", items(ev.args[0])[-1]))
                return "data"
        trace_paths(ctx, f, {"r": rec, "d": data}, args={par[1]: NONE}, facts={T("cmp", "is", NONE, NONE): True}, self_cls=c, default_raises=(), events=("write_changelog_entry", "db_write_typedkeys", "_db_write_typedkey"))
        ser = {t for k, t in recs if k in ("log", "notify", "data") or k == "kv" and not has_call(t, "append") and t.k in ("attr", "p")}
        ctx.ob(R, f, {k for k, t in recs} >= {"log", "kv", "notify"} and len(ser) == 1 and all(t.k == "attr" and t.a[1] == "commit_serial" for t in ser),
               "the records of a change do not all use the serial which was assigned to it", key="same")
    ctx.count(R, n, 2, "storage writers")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("write_changelog_entry")
        if f is not None and not is_iface(c):
            n += 1
            sql = " ".join(s for s in strings_in(f.node) if "insert" in s.lower()).lower()
            ctx.ob(R, f, "insert into changelog" in " ".join(sql.split()) and "replace" not in sql and "conflict" not in sql and "ignore" not in sql,
                   "writing a serial a second time does not fail", key="unique")
        f = c.methods.get("db_read_last_changelog_serial")
        if f is not None and not is_iface(c):
            sql = " ".join(" ".join(strings_in(f.node)).lower().replace('"', "").split())
            ctx.ob(R, f, "from changelog" in sql and ("max(_rowid_)" in sql or "max(serial)" in sql or "order by serial desc" in sql) and "where" not in sql,
                   "the last serial is not read from the changelog", key="max")
            paths = trace_paths(ctx, f, {"read": ["fetchone", "fetchscalar", "execute"]}, self_cls=c)
            check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("read") and (
                p.ret is const(-1) or p.ret is T("un", "-", const(1)) or has_call(p.ret, "fetchone", "fetchscalar", "execute") and p.ret.k in ("sub", "call")),
                "the last serial is altered", key="value")
    ctx.count(R, n, 2, "changelog writers")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        for k, v in c.attrs.items():
            if k == "expected_schema":
                n += 1
                txt = " ".join(" ".join(strings_in(v) if isinstance(v, ast.AST) else []).lower().split())
                ctx.ob(R, c, "changelog ( serial integer primary key" in txt, "the changelog table does not enforce unique serials", key="schema")
    ctx.count(R, n, 2, "schemas")


def lock(ctx):
    R = ctx.rule("K03.lock", "a connection for writing is only handed out holding the exclusive lock, and nothing reads the last serial before")
    f = ctx.P.func("devpi_server.keyfs_sqlite.BaseStorage.get_connection")
    wr = T("p", "write")

    def lab(ev, st):
        if ev.args and cstr(ev.args[0]) is not None and cstr(ev.args[0]).strip().lower().rstrip(";").startswith("begin"):
            return "begin" if cstr(ev.args[0]).strip().lower().rstrip(";") in ("begin immediate", "begin exclusive", "begin immediate transaction", "begin exclusive transaction") else "weak"
        if ev.name == "Connection":
            return "conn"
    paths = trace_paths(ctx, f, {"l": lab}, facts={wr: True}, events=("execute",),
                        raises={"begin": ("sqlite3.OperationalError", "?B"), "conn": ()}, quiet=("sleep",))
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("begin") and p.has("conn") and p.idx("begin") < p.idx("conn"),
                "a connection for writing is handed out without the exclusive lock", key="begin")
    check_paths(ctx, R, f, paths, lambda p: not p.has("weak", "weak!"), "the lock does not exclude other writers", key="weak")
    ctx.ob(R, f, any(p.has("begin!") and p.kind == "raise" for p in paths), "waiting for the lock never gives up", key="timeout")
    check_paths(ctx, R, f, paths, lambda p: not (p.kind == "return" and p.trace and "begin!" in p.trace and p.last("begin") < p.last("begin!")),
                "a failed attempt to get the lock is ignored", key="ignored")
    # nothing reads the serial while the connection is created
    for c in ctx.P.classes.values():
        if c.name in ("BaseConnection",) and "__init__" in c.methods:
            g = c.methods["__init__"]
            ctx.ob(R, g, not list(attrs_in(g.node, "last_changelog_serial", "db_read_last_changelog_serial")), "the last serial is read early", key="early")
    f = ctx.P.func(KF + ".KeyFS.get_connection")
    got = []
    trace_paths(ctx, f, {"get": lambda ev, st: ev.name == "get_connection" and (got.append(ev.kwargs.get("write")) or True)}, follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(got) and all(g is wr for g in got), "the wish for a connection for writing is not passed on", key="pass")
    T_ = ctx.P.cls(KF + ".Transaction")
    f = T_.find("conn")
    got = []
    trace_paths(ctx, f, {"get": lambda ev, st: ev.name == "get_connection" and (got.append(ev.kwargs.get("write", ev.args[1] if len(ev.args) > 1 else NONE)) or True)}, self_cls=T_, follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(got) and all(g.k == "attr" and g.a[1] == "write" for g in got), "a write transaction does not use a connection for writing", key="txconn")
    f = ctx.P.func("devpi_postgresql.main.Connection._lock")
    ctx.ob(R, f, "pg_advisory_xact_lock(" in " ".join(strings_in(f.node)) and bool(list(calls_in(f.node, "run", "fetchscalar", "fetchone"))),
           "the write lock of the PostgreSQL backend is not exclusive up to the end of the transaction", key="pglock")


def imports(ctx):
    R = ctx.rule("K03.import", "a change from the primary is only recorded when its serial is exactly the next one")
    f = ctx.P.func(KF + ".KeyFS.import_changes")
    ser = T("p", f.params()[1])

    def guard(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and v:
            a, b = t.a[1], t.a[2]
            if a is ser and is_next(b) or b is ser and is_next(a):
                return "next"

    def withlab(what, cm, st):
        if cm.k == "call" and call_name(cm) == "write_transaction":
            return {"enter": "begin", "exit": "commit", "exit!": "abort"}[what]
    paths = trace_paths(ctx, f, {"record": ["record_set"], "conn": lambda ev, st: ev.name == "get_connection" and ("wconn" if ev.kwargs.get("write") is TRUE or TRUE in ev.args[1:2] else "rconn"),
                                 "sub": ["_import_subscriber"]},
                        branch=guard, with_label=withlab, follow=lambda g, ev, d: False, hints={"conn": "devpi_server.keyfs_sqlite_fs.Connection"})
    ctx.ob(R, f, some(paths, "record"), "imported changes are not recorded", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("commit") or p.has("next") and p.has("wconn") and p.idx("wconn") < p.idx("next") < p.idx("commit"),
                "a change is applied without its serial being the next one", key="next")
    check_paths(ctx, R, f, paths, lambda p: not p.has("record", "record!") or p.has("begin") and p.idx("begin") < max(p.idx("record"), p.idx("record!")),
                "imported changes are recorded outside of the write transaction", key="inside")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("commit"), "an import ends without commit", key="commit")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("abort") and p.kind == "return"), "a refused import is reported as success", key="refused")
    check_paths(ctx, R, f, paths, precedes("commit", "sub"), "import subscribers run before the commit", key="sub")


def waiting(ctx):
    R = ctx.rule("K03.wait", "waiting for a serial reports success only after reading from the database that it is committed")
    f = ctx.P.func(KF + ".KeyFS.wait_tx_serial")
    ser = T("p", f.params()[1])

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<="):
            a, b = t.a[1], t.a[2]
            # committed: not (last < serial), serial <= last
            if t.a[0] == "<" and has_call(a, "db_read_last_changelog_serial") and b is ser and a.k == "call":
                return "pending" if v else "committed"
            if t.a[0] == "<=" and a is ser and has_call(b, "db_read_last_changelog_serial") and b.k == "call":
                return "committed" if v else "pending"
    paths = trace_paths(ctx, f, {"read": ["db_read_last_changelog_serial"]}, branch=br, follow=lambda g, ev, d: False,
                        quiet=("wait", "recheck_callback", "around", "get_connection"))
    ctx.ob(R, f, any(p.kind == "return" and p.ret is TRUE for p in paths), "success is never reported", key="instances")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.ret is FALSE or (
        p.ret is TRUE and p.has("committed") and p.last("committed") > p.last("pending")) or (
        p.ret.k == "cmp" and has_call(p.ret, "db_read_last_changelog_serial")),
        "success is reported although the serial is not known to be committed", key="committed")
    check_paths(ctx, R, f, paths, lambda p: not (p.kind == "return" and p.ret is FALSE) or not p.has("committed") or p.last("pending") > p.last("committed"),
                "failure is reported although the serial is committed", key="failed")
    T_ = ctx.P.cls(KF + ".Transaction")
    f = ctx.P.func(KF + ".KeyFS.get_next_serial")
    paths = trace_paths(ctx, f, {}, follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.ret.k == "bin" and p.ret.a[0] in ("+", "Add") and const(1) in p.ret.a[1:] and has_call(p.ret, "get_current_serial"),
                "the next serial is not the one after the current one", key="get_next")
    # the serial a commit reports is the one the writer used
    f = T_.method("commit")

    def withlab(what, cm, st):
        if cm.k == "call" and call_name(cm) == "write_transaction" and what == "exit":
            return "wcommit"
    vals = []
    paths = trace_paths(ctx, f, {}, with_label=withlab, self_cls=T_, events=("write_transaction",),
                        stores={"set": lambda e, st: e.kind == "attr" and e.name == "commit_serial" and (vals.append(e.value) or True)},
                        quiet=("listener",))

    def used(t):
        return has_attr(t, "commit_serial") and not contains(t, lambda x: x.k == "bin") or is_next(t) or t.k == "call" and call_name(t) == "getattr" and has_str(t, "commit_serial")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not p.has("wcommit") or p.ret is not None and used(p.ret),
                "commit reports another serial than the one written", key="reported")
    ctx.ob(R, f, bool(vals) and all(used(v) for v in vals), "commit stores another serial than the one written", key="stored")


def check(ctx):
    assign(ctx)
    lock(ctx)
    imports(ctx)
    waiting(ctx)
    ctx.assumptions += ["SQLite's 'begin immediate' and PostgreSQL's pg_advisory_xact_lock exclude other writers",
                        "connections opened for writing are the only ones used to write"]
