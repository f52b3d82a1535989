"""K01: transactions are all or nothing and report their outcome."""
import ast

from sa.core import AnchorError, Func, calls_in, src, where, walk_own
from sa.paths import trace_paths, check_paths, precedes
from sa.terms import *  # noqa

KF = "devpi_server.keyfs"


def tx_scope(ctx):
    R = ctx.rule("K01.scope", "the transaction context managers commit exactly once on normal end, roll back on any "
                 "exception (BaseException) and re-raise it, and unbind the transaction from the thread on every path")
    hints = {"tx": KF + ".Transaction"}
    quiet = ("_tx_prefix", "thread_push_log", "thread_pop_log", "ReadOnly", "RuntimeError", "warn")
    for name in ("read_transaction", "write_transaction", "transaction"):
        f = ctx.P.func("%s.KeyFS.%s" % (KF, name))
        if not f.is_cm:
            raise AnchorError("%s is not a context manager any more" % f.qual)
        paths = trace_paths(
            ctx, f,
            {"commit": [KF + ".Transaction.commit", "tx.commit"],
             "rollback": [KF + ".Transaction.rollback", "tx.rollback"],
             "restart": [KF + ".Transaction.restart", "tx.restart"]},
            stores={"bind": lambda e, st: e.kind == "attr" and e.name == "tx" and attr_chain(e.base).endswith("_threadlocal")},
            dels={"unbind": lambda e, st: e.kind == "attr" and e.name == "tx" and attr_chain(e.base).endswith("_threadlocal")},
            events=("_threadlocal",), yields="body", hints=hints, quiet=quiet,
            raises={"commit": ("?B",), "rollback": ("?B",), "restart": ("?B",)},
            self_cls=ctx.P.cls(KF + ".KeyFS"))
        ctx.ob(R, f, any(p.has("bind") and p.has("rollback") for p in paths),
               "no path rolls a failing body back", key="rollback-path")
        ctx.ob(R, f, any(p.has("bind") and p.has("commit") for p in paths),
               "no path commits", key="commit-path")

        def ok(p):
            tr = p.trace
            ends = [x for x in tr if x.rstrip("!") in ("commit", "rollback")]
            if "bind" not in tr:
                # nested use: the outer scope decides
                return not ends and "unbind" not in tr
            if "body" not in tr:
                return "unbind" in tr or p.kind == "raise" and not ends
            if len(ends) != 1 or "unbind" not in tr:
                return False
            if tr.index(ends[0]) < tr.index("body"):
                return False
            if ends[0].startswith("rollback"):
                return p.kind == "raise"
            if ends[0] == "commit!":
                return p.kind == "raise"
            return p.kind == "return"
        check_paths(ctx, R, f, paths, ok, "a path through the transaction scope does not end in exactly one of "
                    "commit (normal end) or rollback (exception) followed by unbinding the transaction", key=name)


def commit_life(ctx):
    R = ctx.rule("K01.commit", "Transaction.commit: a doomed or read-only transaction writes nothing; success callbacks run only "
                 "after the storage writer finished without exception and the connection is closed; finished callbacks run, "
                 "after closing, on every path")
    T_ = ctx.P.cls(KF + ".Transaction")
    f = T_.method("commit")

    def lst(which):
        def m(what, it, st):
            if what == "next" and it.k == "attr" and it.a[1] == which:
                return True
        return m

    def iters(what, it, st):
        if it.k == "attr" and it.a[1] in ("_finished_listeners", "_success_listeners") and what == "end":
            return {"_finished_listeners": "finished", "_success_listeners": "success"}[it.a[1]]

    def withlab(what, cm, st):
        if cm.k == "call" and call_name(cm) == "write_transaction":
            if what == "enter":
                known = {t.a[1]: v for t, v in st.facts.items() if t.k == "attr" and t.a[0].k == "inst"}
                if known.get("doomed") is not False or known.get("write") is not True:
                    return "wbegin-unchecked"
            return {"enter": "wbegin", "exit": "wcommit", "exit!": "wabort"}[what]

    def wraises(cm, st):
        if cm.k == "call" and call_name(cm) == "write_transaction":
            return "wcommit!"

    def branch(t, v, st):
        if t.k == "attr" and t.a[1] == "doomed" and v:
            return "doomed"
        if t.k == "attr" and t.a[1] == "write" and not v:
            return "readonly"

    common = dict(
        labels={"close": "conn.close", "connrollback": "conn.rollback", "record": "record_set",
                "listener": lambda ev, st: ev.fterm.k == "elem"},
        branch=branch, iters=iters, with_label=withlab, with_raises=wraises,
        raises={"close": (), "record": ("?B",), "connrollback": ("?B",), "listener": ("?",)},
        quiet=("listener", "is_deeply_readonly"),
        default_raises=("?B",),
        follow=lambda g, ev, d: False if g.name == "conn" else True if g.cls is T_ or g.cls is None and g.module.name == KF else None,
        self_cls=T_, depth=5)
    paths = trace_paths(ctx, f, **common)

    def ok_finished(p):
        return p.has("close") and p.has("finished") and p.last("finished") > p.idx("close")
    already = lambda p: any(t.k == "attr" and t.a[1] == "closed" and v for t, v in p.st.facts.items())
    live = [p for p in paths if not already(p)]
    ctx.ob(R, f, len(live) >= 4 and any(p.has("wcommit") for p in live), "no writing path found", key="instances")
    check_paths(ctx, R, f, live, ok_finished, "a path through commit does not close the connection and then run the "
                "callbacks registered for the end of the transaction", key="finished")

    def ok_success(p):
        s = p.idx("success")
        if "success" in p.trace:
            return "wcommit" in p.trace and p.idx("wcommit") < s and p.idx("close") < s and p.idx("close") > p.idx("wcommit")
        return not ("wcommit" in p.trace and p.kind == "return")
    check_paths(ctx, R, f, live, ok_success, "success callbacks run without, or before, a durable commit, or are not "
                "run after it", key="success")
    check_paths(ctx, R, f, live, lambda p: not p.has("wbegin-unchecked") and not (p.has("doomed", "readonly") and p.has("wbegin", "record")),
                "a doomed or read-only transaction writes to the storage", key="doomed")
    check_paths(ctx, R, f, live, lambda p: not (p.has("wcommit!", "wabort") and p.kind == "return"),
                "a failing storage commit is reported as success", key="swallow")
    ctx.ob(R, f, any(p.has("record") and p.has("wcommit") for p in live), "no path records the changes", key="record-instances")
    check_paths(ctx, R, f, live, lambda p: not p.has("record") or p.idx("wbegin") < p.idx("record"),
                "changes are recorded outside of the storage's write transaction", key="record")
    # dirty files force a commit although no key changed
    def ok_nothing(p):
        if p.kind != "return" or p.has("wbegin", "doomed", "readonly"):
            return True
        return any(attr_chain(t).endswith("dirty_files") and v is False for t, v in p.st.facts.items() if t.k == "attr")
    check_paths(ctx, R, f, live, ok_nothing, "a write transaction ends without the storage being asked to commit although "
                "files may have been written", key="dirty_files")
    # every dirty key is recorded unless unchanged
    def iters2(what, it, st):
        if it.k == "attr" and it.a[1] == "dirty":
            return "key" if what == "next" else "keys-end"
        return iters(what, it, st)

    def branch2(t, v, st):
        r = branch(t, v, st)
        if r:
            return r
        if t.k == "cmp" and t.a[0] in ("==", "is") and v:
            ls = [x for x in (t.a[1], t.a[2])]
            if any(x.k == "sub" and attr_chain(x.a[0]).endswith("cache") for x in ls) and any(
                    contains(x, lambda y: y.k == "attr" and y.a[1] == "_original") for x in ls):
                return "unchanged"

    def rec(ev, st):
        return ev.name in ("append", "add", "record_set") and any(
            contains(a, lambda y: y.k == "elem" and y.a[0].k == "attr" and y.a[0].a[1] == "dirty") for a in ev.args)
    c2 = dict(common)
    c2["labels"] = {"rec": rec, "close": "conn.close"}
    c2["branch"], c2["iters"] = branch2, iters2
    c2["raises"] = {"close": (), "rec": ()}
    paths2 = trace_paths(ctx, f, dedupe=False, **c2)

    def ok_rec(p):
        pend = False
        for x in p.trace:
            if x == "key":
                if pend:
                    return False
                pend = True
            elif x in ("rec", "unchanged"):
                pend = False
            elif x == "keys-end" and pend:
                return False
        return not pend or p.kind == "raise"
    n = sum(1 for p in paths2 if "rec" in p.trace)
    if any(p.has("key") for p in paths2):
        ctx.ob(R, f, n > 0, "changed keys are never recorded", key="rec-instances")
        check_paths(ctx, R, f, paths2, ok_rec, "a changed key is left out of the commit although its value differs "
                    "from the original", key="all-keys")
    # rollback
    f = T_.method("rollback")
    paths = trace_paths(ctx, f, **common)
    live = [p for p in paths if not already(p)]
    check_paths(ctx, R, f, live, lambda p: ok_finished(p) and not p.has("success", "wbegin"),
                "a path through rollback does not close the connection and run the callbacks registered for the end of "
                "the transaction", key="finished")

    def no_rb(p):
        return p.has("connrollback", "connrollback!") or any(
            t.k == "call" and call_name(t) == "hasattr" and v is False for t, v in p.st.facts.items())
    check_paths(ctx, R, f, live, no_rb, "a path through rollback leaves the storage connection's changes and temporary "
                "files in place", key="conn.rollback")
    # doomed transactions drop what they wrote
    f = T_.method("commit")
    paths = trace_paths(ctx, f, **common)
    live = [p for p in paths if not already(p) and p.has("doomed")]
    check_paths(ctx, R, f, live, no_rb, "a doomed transaction keeps its temporary files", key="doomed-rollback")


def listeners(ctx):
    R = ctx.rule("K01.listeners", "a failing callback neither prevents the other callbacks nor changes the outcome")
    T_ = ctx.P.cls(KF + ".Transaction")
    f = T_.find("_run_listeners") or T_.method("commit")
    paths = trace_paths(
        ctx, f, {"call": lambda ev, st: ev.fterm.k == "elem"}, self_cls=T_, raises={"call": ("?",)},
        with_raises=lambda cm, st: None)
    ctx.ob(R, f, any(p.has("call!") for p in paths), "callbacks are not called", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("call!") and p.kind == "raise"),
                "the exception of a callback escapes")
    check_paths(ctx, R, f, paths, lambda p: True if not p.has("call!") else any(
        q.trace[-1:] == ("call",) and q.has("call!") for q in paths), "callbacks after a failing one are not called", key="continue")


def restart(ctx):
    R = ctx.rule("K01.restart", "restarting ends the old transaction before the new one begins and a failing restart leaves a doomed transaction")
    T_ = ctx.P.cls(KF + ".Transaction")
    f = T_.method("restart")
    paths = trace_paths(
        ctx, f,
        {"end": [KF + ".Transaction.commit", "self.commit"],
         "new": lambda ev, st: any(getattr(t, "qual", "") == T_.qual for t in ev.targets) or attr_chain(ev.fterm).endswith("__class__")},
        stores={"doom": lambda e, st: e.kind == "attr" and e.name == "doomed" and e.value is TRUE,
                "swap": lambda e, st: e.kind == "attr" and e.name == "__dict__"},
        events=("doom",), self_cls=T_, raises={"new": ("?B",), "end": ("?B",)})
    ctx.ob(R, f, any(p.has("swap") for p in paths), "no path starts a new transaction", key="instances")
    check_paths(ctx, R, f, paths, precedes("end", "new"), "new transaction begins before the old one ended", key="order")
    check_paths(ctx, R, f, paths, lambda p: not p.has("new!") or (p.kind == "raise" and p.last("doom") > p.idx("new!")),
                "a failing restart leaves a transaction which is not doomed", key="doom")
    g = T_.method("doom")
    paths = trace_paths(ctx, g, {}, stores={"doom": lambda e, st: e.kind == "attr" and e.name == "doomed" and e.value is TRUE},
                        events=("doomed",), self_cls=T_)
    check_paths(ctx, R, g, paths, lambda p: p.has("doom"), "doom does not mark the transaction", key="doomed")
    # nothing un-dooms a transaction
    for h in ctx.P.iter_funcs("devpi_server", "devpi_web"):
        for x in walk_own(h.node):
            if isinstance(x, ast.Attribute) and x.attr == "doomed" and isinstance(x.ctx, ast.Store):
                par = [a for a in walk_own(h.node) if isinstance(a, ast.Assign) and x in a.targets]
                val = par[0].value if par else None
                good = isinstance(val, ast.Constant) and val.value is True or h.name == "__init__"
                ctx.ob(R, h, good, "a transaction's doomed mark is taken back", where(h, x), key="undoom")


def writers(ctx):
    R = ctx.rule("K01.writer", "a storage writer commits only without exception, rolls back on any exception including "
                 "those of its own commit, announces a serial only after it is durable and never swallows exceptions")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.name != "Writer" or "__exit__" not in c.methods:
            continue
        n += 1
        f = c.method("__exit__")
        params = f.params()
        for failing in (False, True):
            excv = T("ref", "builtins.Exception") if failing else NONE
            args = {params[1]: excv}
            facts = {T("cmp", "is", excv, NONE): not failing}
            if len(params) > 2 and not failing:
                args[params[2]] = NONE
            paths = trace_paths(
                ctx, f,
                {"commit": ["conn.commit", "_sqlconn.commit"],
                 "fscommit": ["conn._write_dirty_files"],
                 "log": ["conn.write_changelog_entry"],
                 "kv": ["db_write_typedkeys", "_db_write_typedkey"],
                 "rollback": ["conn.rollback", "_sqlconn.rollback"],
                 "drop": ["_drop_dirty_files"],
                 "notify": ["_notify_on_commit"]},
                args=args, facts=facts, self_cls=c, default_raises=("?B",),
                raises={"rollback": ("?B",), "drop": ()},
                quiet=("thread_pop_log", "LazyChangesFormatter", "values", "repr", "map"))
            what = "failed" if failing else "normal"
            batch = any(p.has("drop") for p in paths) or any(
                True for x in calls_in(f.node, "commit"))
            batch = c.find("commit") is not None
            if batch:
                check_paths(ctx, R, f, paths, lambda p: not p.has("rollback") or p.has("drop"),
                            "temporary files are left behind by a rollback", key=what + "-drop")
            if failing:
                check_paths(ctx, R, f, paths, lambda p: not p.has("commit", "commit!", "fscommit", "fscommit!", "log", "kv", "notify"),
                            "changes of a failed transaction are committed or announced", key=what + "-commit")
                check_paths(ctx, R, f, paths, lambda p: p.has("rollback", "rollback!"),
                            "a failed transaction is not rolled back", key=what + "-rollback")
                check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.ret is NONE or p.ret is FALSE,
                            "the exception of a failed transaction is swallowed", key=what + "-swallow")
            else:
                check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or (
                    p.has("commit") and p.has("log") and p.has("fscommit") and p.has("notify")
                    and (p.has("kv") or not batch) and p.idx("kv") < p.idx("commit")
                    and p.idx("log") < p.idx("commit") and p.idx("fscommit") < p.idx("commit")),
                    "a normal end does not write changes, files and then commit and announce them", key=what + "-commit")
                check_paths(ctx, R, f, paths, lambda p: p.kind == "return" or p.has("rollback", "rollback!"),
                            "an exception during the commit does not roll back", key=what + "-rollback")
                check_paths(ctx, R, f, paths, precedes("commit", "notify"), "a serial is announced before it is committed",
                            key=what + "-notify")
                check_paths(ctx, R, f, paths, lambda p: not (p.has("commit!", "log!", "kv!", "fscommit!") and p.kind == "return"),
                            "a failing commit is reported as success", key=what + "-swallow")
    ctx.count(R, n, 2, "storage writers")


def files_only(ctx):
    R = ctx.rule("K01.files", "committing files without a serial commits on success and rolls back on any exception")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("commit_files_without_increasing_serial")
        if f is None or any("Interface" in b for b in c.ext_bases()):
            continue
        n += 1
        paths = trace_paths(
            ctx, f, {"write": ["_file_write", "_file_delete", "commit_renames"], "commit": ["self.commit"], "rollback": ["self.rollback"]},
            through=(), self_cls=c, default_raises=("?B",), events=("dirty_files",),
            quiet=("begin",))
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("commit"), "files are written without commit", key="commit")
        check_paths(ctx, R, f, paths, lambda p: p.kind == "return" or p.has("rollback", "rollback!", "commit", "commit!") or not p.has("write", "write!"),
                    "files written before an exception are not rolled back", key="rollback")
    ctx.count(R, n, 3, "implementations")


def requests(ctx):
    R = ctx.rule("K01.request", "each request runs inside of one transaction scope and its response is only returned after the scope ended; "
                 "a response made up for a failure inside of the scope dooms it")
    outer = ctx.P.func("devpi_server.views.tween_keyfs_transaction")
    inner = None
    for g in outer.nested.values():
        inner = g
    if inner is None:
        raise AnchorError("tween_keyfs_transaction has no request handler function")

    def handler(ev, st):
        return ev.fterm.k in ("p", "free") and ev.fterm.a[0] == outer.params()[0]

    def withlab(what, cm, st):
        if cm.k == "call" and contains(cm.a[0], lambda t: t.k == "attr" and t.a[1] in (
                "write_transaction", "read_transaction", "transaction", "_transaction")):
            return {"enter": "begin", "exit": "end", "exit!": "abort"}[what]
    paths = trace_paths(
        ctx, inner, {"handle": handler, "doom": ["doom"]}, with_label=withlab, raises={"handle": ("?B", "devpi_server.keyfs.KeyfsTimeoutError"), "doom": ()},
        quiet=("lazy_format_exception_only", "HTTPInternalServerError", "is_mutating_http_method", "set_header_devpi_serial"))
    ctx.ob(R, inner, any(p.has("handle") for p in paths), "the request handler is not called", key="instances")
    check_paths(ctx, R, inner, paths, lambda p: not p.has("handle", "handle!") or (
        p.has("begin") and p.idx("begin") < min(i for i, x in enumerate(p.trace) if x.startswith("handle"))
        and p.last("end") + p.last("abort") > -2 and max(p.last("end"), p.last("abort")) > max(i for i, x in enumerate(p.trace) if x.startswith("handle"))),
        "a request is handled outside of a transaction scope", key="scope")
    check_paths(ctx, R, inner, paths, lambda p: not (p.kind == "return" and p.has("handle!")) or p.has("doom"),
                "an exception is turned into a response while the changes made so far get committed", key="doom")


def usage(ctx):
    R = ctx.rule("K01.usage", "transactions are only opened as context managers; the low level begin/commit/rollback calls "
                 "and the Transaction constructor are only used by the key store itself")
    n = 0
    for f in ctx.P.iter_funcs("devpi_server", "devpi_web"):
        if f.parent is not None:
            continue
        ok_ctx = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.With, ast.AsyncWith)):
                for it in x.items:
                    ok_ctx.add(it.context_expr)
            elif isinstance(x, ast.Return) and isinstance(x.value, ast.Call):
                ok_ctx.add(x.value)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("enter_context", "push"):
                ok_ctx.update(x.args)
            elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                # bound to a name which is used in a with statement
                names = {t.id for t in x.targets if isinstance(t, ast.Name)}
                for w in ast.walk(f.node):
                    if isinstance(w, ast.With) and any(
                            isinstance(i.context_expr, ast.Name) and i.context_expr.id in names for i in w.items):
                        ok_ctx.add(x.value)
        for c in calls_in(f.node, "read_transaction", "write_transaction", "_transaction", "transaction"):
            n += 1
            ctx.ob(R, f, c in ok_ctx, "transaction is opened but not as context manager", where(f, c), key=src(c))
        if f.module.name != KF:
            for c in calls_in(f.node, "begin_transaction_in_thread", "commit_transaction_in_thread",
                              "rollback_transaction_in_thread", "clear_transaction"):
                ctx.ob(R, f, False, "low level transaction call outside of the key store", where(f, c), key=src(c))
    ctx.count(R, n, 8, "transaction scopes")


def check(ctx):
    tx_scope(ctx)
    commit_life(ctx)
    listeners(ctx)
    restart(ctx)
    writers(ctx)
    files_only(ctx)
    requests(ctx)
    usage(ctx)
    ctx.assumptions += [
        "closing a storage connection does not raise",
        "repoze/pluggy callbacks registered by third party plugins are opaque",
    ]
