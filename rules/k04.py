"""K04: snapshot reads and isolation of shared data."""
from rules.lib import *  # noqa

KF = "devpi_server.keyfs"
RO = "devpi_server.readonly"


def tx_reads(ctx):
    R = ctx.rule("K04.snapshot", "a transaction reads its own pending value if there is one and else the value as of the serial it started at, "
                 "which never changes during its life")
    C = ctx.P.cls(KF + ".Transaction")
    key = "typedkey"

    def pending(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and t.a[2].k == "attr" and t.a[2].a[1] == "cache" and not has_call(t.a[1]):
            return "pending" if v else "notpending"
    f = C.method("get")

    def ok(p):
        if p.kind != "return":
            return True
        if p.has("pending"):
            return has_attr(p.ret, "cache") or has_call(p.ret, "type") or contains(p.ret, lambda x: x.k == "attr" and x.a[1] == "type")
        return has_call(p.ret, "get_original") or contains(p.ret, lambda x: x.k == "attr" and x.a[1] == "type") and has_fact_original(p)

    def has_fact_original(p):
        return any(has_call(t, "get_original") for t in p.st.facts)
    paths = trace_paths(ctx, f, {"orig": ["get_original"]}, branch=pending, self_cls=C, follow=lambda g, ev, d: False)
    ctx.ob(R, f, some(paths, "pending") and some(paths, "notpending"), "pending values of the transaction are not looked at", key="instances")
    check_paths(ctx, R, f, paths, ok, "a read returns something else than the pending value or the value at the start", key="get")
    R2 = ctx.rule("K04.guard", "what is handed out for reading is deeply read only, what is handed out for change is a deep copy")
    ro = T("p", "readonly")

    def wrapped(p):
        if p.kind != "return":
            return True
        v = p.st.facts.get(ro)
        if v is None:
            return False
        name = call_name(p.ret) if p.ret.k == "call" else None
        return name == ("ensure_deeply_readonly" if v else "get_mutable_deepcopy")
    check_paths(ctx, R2, f, paths, wrapped, "a stored value is handed out without protection or private copy", key="get")
    dflt = f.node.args.defaults
    ctx.ob(R2, f, bool(dflt) and literal(dflt[-1]) is True, "reading is not the default", key="default")
    for q in ("devpi_server.keyfs_types.TypedKey.get",):
        g = ctx.P.func(q)
        got = []
        paths = trace_paths(ctx, g, {"get": lambda ev, st: ev.name == "get" and ev.recv is not None and has_attr(ev.recv, "tx") and (got.append(ev.kwargs.get("readonly", ev.args[1] if len(ev.args) > 1 else TRUE)) or True)}, follow=lambda g, ev, d: False)
        ctx.ob(R2, g, bool(got) and all(x is ro for x in got) and literal(g.node.args.defaults[-1]) is True, "the wish to change a value is not passed on", key="pass")
    g = ctx.P.func("devpi_server.keyfs_types.TypedKey.update")
    ys = []
    paths = trace_paths(ctx, g, {"get": lambda ev, st: ev.name == "get" and ev.kwargs.get("readonly") is FALSE or ev.name == "get" and FALSE in ev.args,
                                 "set": lambda ev, st: ev.name == "set" and any(a in ys for a in ev.args)},
                        yields=lambda t, st: ys.append(t) or "body", follow=lambda g, ev, d: False)
    check_paths(ctx, R2, g, paths, lambda p: (p.kind == "raise" or p.has("get") and p.has("set") and p.idx("body") < p.idx("set")) and not (p.has("set", "set!") and not p.has("body")),
                "update does not store the changed private copy", key="update")
    ctx.ob(R2, g, not any(p.has("body") and p.kind == "raise" and p.has("set") and p.trace[-1] == "set" for p in paths), "a failed update is stored", key="update-fail")
    # exists
    f = C.method("exists")
    paths = trace_paths(ctx, f, {"orig": ["get_original"]}, branch=pending, self_cls=C, follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.ret is not None and (
        p.has("pending") and not p.has("orig") or p.has("orig")) and (
        has_attr(p.ret, "cache") or has_call(p.ret, "get_original") or p.ret.k == "c"), "existence is not decided by the pending or original value", key="exists")
    # original values
    f = C.method("get_original")
    got = []
    paths = trace_paths(
        ctx, f, {"read": lambda ev, st: ev.name == "get_last_serial_and_value_at" and (got.append(ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("at_serial")) or True)},
        stores={"keep": lambda e, st: e.kind == "sub" and has_attr(e.base, "_original")}, self_cls=C, follow=lambda g, ev, d: False,
        branch=lambda t, v, st: "known" if v and t.k == "cmp" and t.a[0] == "in" and has_attr(t.a[2], "_original") else None)
    ctx.ob(R, f, bool(got) and all(x is not None and x.k == "attr" and x.a[1] == "at_serial" for x in got), "values are not read at the serial of the transaction", key="at_serial")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("known") or p.has("read") and p.has("keep"), "the original value is not kept", key="keep")
    for f in C.methods.values():
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "at_serial" and isinstance(x.ctx, ast.Store):
                ctx.ob(R, f, f.name == "__init__", "the serial of a running transaction is changed", where(f, x), key="fixed")
    for f, c in callers(ctx.P, "setattr"):
        ctx.ob(R, f, "at_serial" not in strings_in(c), "the serial of a running transaction is changed", where(f, c), key="fixed")
    # the storage looks values up at or below the serial
    f = ctx.P.func(KF + ".get_relpath_at")
    ser = T("p", f.params()[2])

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("<", "<="):
            if t.a[0] == "<" and t.a[1] is ser:
                return "above" if v else "below:" + show(t.a[2])
            if t.a[0] == "<=" and t.a[2] is ser:
                return ("below:" + show(t.a[1])) if v else "above"
    paths = trace_paths(ctx, f, {}, branch=br, events=("serial",), follow=lambda g, ev, d: False)
    rets = [p for p in paths if p.kind == "return"]
    ctx.ob(R, f, bool(rets) and all(any(x.startswith("below:") for x in p.trace) and p.trace[-1].startswith("below:") and
                                    items(p.ret) and p.trace[-1] == "below:" + show(items(p.ret)[0]) for p in rets),
           "the value of a later serial than asked for can be returned", key="below")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("get_relpath_at")
        if f is None or is_iface(c):
            continue
        n += 1
        par = f.params()
        keys = []

        def lab(ev, st):
            if ev.name in ("get", "put") and ev.recv is not None and has_attr(ev.recv, "_changelog_cache", "_relpath_cache"):
                keys.append((ev.name, "rel" if has_attr(ev.recv, "_relpath_cache") else "log", ev.args[0]))
                return ev.name
            if ev.name.lstrip("_") == "get_relpath_at":
                a = [x for x in ev.args if x.k == "p" and x.a[0] in par[1:]]
                return "lookup" if [x.a[0] for x in a] == par[1:3] else "badlookup"
        paths = trace_paths(ctx, f, {"l": lab}, self_cls=c, follow=lambda g, ev, d: False, events=("_relpath_cache",))
        want = (T("p", par[2]), T("p", par[1]))
        good = all(items(k) == want or k is T("p", par[2]) and op == "get" and w == "log" for op, w, k in keys)
        ctx.ob(R, f, good and any(op == "put" for op, w, k in keys), "cached lookups are not kept per serial and key", key="cache")
        check_paths(ctx, R, f, paths, lambda p: not p.has("badlookup"), "the lookup mixes up serial and key", key="lookup")
    ctx.count(R, n, 2, "lookups")
    # begin
    f = C.method("__init__")
    vals = []
    paths = trace_paths(ctx, f, {}, self_cls=C, stores={"at": lambda e, st: e.kind == "attr" and e.name == "at_serial" and (vals.append(e.value) or True)}, events=("at_serial",), follow=lambda g, ev, d: False,
                        branch=lambda t, v, st: "both" if v and t is T("p", "at_serial") and st.facts.get(T("p", "write")) else None)
    ctx.ob(R, f, bool(vals) and all(v is T("p", "at_serial") or has_attr(v, "last_changelog_serial") and not contains(v, lambda x: x.k == "bin") for v in vals),
           "a transaction does not start at the last committed serial or the one asked for", key="start")
    check_paths(ctx, R, f, paths, lambda p: not p.has("both") or p.kind == "raise", "a write transaction can start at an old serial", key="start-write")


def writes(ctx):
    R = ctx.rule("K04.write", "only a write transaction records changes, each change is remembered, unmodified values are not recorded, "
                 "and only values of the declared type are accepted")
    C = ctx.P.cls(KF + ".Transaction")
    for name in ("set", "delete"):
        f = C.method(name)
        par = f.params()
        val = T("p", par[2]) if len(par) > 2 else T("ref", "devpi_server.markers.deleted")
        paths = trace_paths(
            ctx, f, {"dirty": lambda ev, st: ev.name == "add" and ev.recv is not None and has_attr(ev.recv, "dirty") and ev.args == [T("p", par[1])] or ev.name == "add" and ev.recv is not None and has_attr(ev.recv, "dirty") and has_param(ev.args[0], par[1])},
            stores={"cache": lambda e, st: e.kind == "sub" and has_attr(e.base, "cache") and ("cache" if e.value is val or has_param(e.value, *par[2:]) or "deleted" in show(e.value) else "badcache")},
            branch=lambda t, v, st: ("writable" if v else "readonly") if t.k == "attr" and t.a[1] == "write" else None,
            self_cls=C, follow=lambda g, ev, d: False, events=("dirty",))
        check_paths(ctx, R, f, paths, lambda p: not p.has("cache", "dirty", "badcache") or p.has("writable") and p.idx("writable") < min(p.trace.index(x) for x in ("cache", "dirty") if x in p.trace),
                    "a read transaction accepts a change", key=name + "-write")
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("cache") and p.has("dirty"), "a change is not remembered for the commit", key=name + "-dirty")
        check_paths(ctx, R, f, paths, lambda p: not p.has("readonly") or p.kind == "raise", "a change in a read transaction is ignored silently", key=name + "-refuse")
    f = ctx.P.func("devpi_server.keyfs_types.TypedKey.set")
    val = T("p", f.params()[1])

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "isinstance" and call_args(t)[0] is val and has_attr(call_args(t)[1], "type"):
            return "typed" if v else "untyped"
        if t.k == "cmp" and t.a[0] == "is" and has_attr(t, "type") and has_call(t, "type"):
            return "typed" if v else "untyped"
    paths = trace_paths(ctx, f, {"set": ["tx.set"]}, branch=br, follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, paths, lambda p: not p.has("set", "set!") or p.has("typed"), "a value of another type than declared for the key is stored", key="type")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("set"), "a value is not stored", key="set")
    # all ways to change keys go through these
    for g in ctx.P.iter_funcs(*ALL_SERVER):
        if g.cls is C:
            continue
        for x in walk_own(g.node):
            bad = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "dirty" and x.func.attr in ("add", "discard", "clear", "remove", "update"):
                bad = x
            elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Attribute) and x.value.attr in ("cache", "_original") and src(x.value.value).endswith("tx"):
                bad = x
            if bad is not None:
                ctx.ob(R, g, False, "pending changes are manipulated from outside of the transaction", where(g, bad), key=src(bad)[:60])
    # unmodified values
    f = C.method("commit")

    def iters(what, it, st):
        if it.k == "attr" and it.a[1] == "dirty":
            return "key" if what == "next" else "keys-end"

    def unchanged(t, v, st):
        if t.k == "cmp" and t.a[0] in ("==", "is"):
            ls = (t.a[1], t.a[2])
            if any(x.k == "sub" and attr_chain(x.a[0]).endswith("cache") for x in ls) and any(has_attr(x, "_original") or has_call(x, "get_original") for x in ls):
                return "same" if v else "differs"
    paths = trace_paths(
        ctx, f, {"rec": lambda ev, st: ev.name in ("append", "record_set", "add") and any(
            contains(a, lambda y: y.k == "elem" and y.a[0].k == "attr" and y.a[0].a[1] == "dirty") for a in ev.args)},
        iters=iters, branch=unchanged, self_cls=C, events=("dirty", "get_original"), dedupe=False, depth=4, raises={"rec": ()}, default_raises=())

    def same(p):
        cur = None
        for x in p.trace:
            if x == "key":
                cur = None
            elif x in ("same", "differs"):
                cur = x
            elif x == "rec" and cur != "differs":
                return False
        return True
    if some(paths, "rec"):
        check_paths(ctx, R, f, paths, same, "an unmodified value is recorded as a change", key="unmodified")


def detached(ctx):
    R = ctx.rule("K04.detach", "what enters the changelog is a deep copy, what enters the shared caches is deeply read only")
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.qual):
        if c.name == "Writer" and "record_set" in c.methods:
            n += 1
            f = c.methods["record_set"]
            vals = []
            paths = trace_paths(ctx, f, {}, self_cls=c, stores={"rec": lambda e, st: e.kind == "sub" and has_attr(e.base, "changes") and (vals.append(e.value) or True)},
                                events=("changes",), follow=lambda g, ev, d: False)
            val = f.params()[2]

            def det(v):
                it = items(v)
                return it and all(x.k == "call" and call_name(x) in ("get_mutable_deepcopy", "deepcopy") or not has_param(x, val) for x in it) and any(has_param(x, val) for x in it)
            ctx.ob(R, f, bool(vals) and all(det(v) for v in vals), "a recorded value shares data with the caller", key="record")
            check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.has("rec"), "a change is not recorded", key="recorded")
        f = c.methods.get("get_changes")
        if f is not None and len(f.params()) > 1 and not is_iface(c):
            n += 1
            paths = trace_paths(ctx, f, {"load": ["loads"]}, self_cls=c, follow=lambda g, ev, d: False)
            par = T("p", f.params()[1])
            check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or p.ret.k == "call" and (
                call_name(p.ret) == "ensure_deeply_readonly" or call_name(p.ret) == "get" and "_changelog_cache" in show(p.ret)), "changes are handed out without protection", key="changes")
            check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not p.has("load") or contains(p.ret, lambda x: x.k == "call" and call_name(x) == "get_raw_changelog_entry" and par in call_args(x)),
                        "the changes of another serial are handed out", key="changes-serial")
    ctx.count(R, n, 4, "writers and readers of changes")
    n = 0
    for f in ctx.P.iter_funcs("devpi_server", "devpi_postgresql"):
        puts = [c for c in own_calls(f, "put") if any(a in src(c.func) for a in ("_changelog_cache", "_relpath_cache"))]
        if not puts:
            continue
        n += 1
        bad = []

        def lab(ev, st):
            if ev.name == "put" and ev.recv is not None and has_attr(ev.recv, "_changelog_cache", "_relpath_cache"):
                v = ev.args[1]

                def good(x):
                    if x.k == "call":
                        nm = call_name(x) or ""
                        return nm in ("ensure_deeply_readonly",) or nm.lstrip("_") in ("get_relpath_at", "get_changes") or nm == "get" and has_attr(x, "_changelog_cache", "_relpath_cache")
                    if x.k == "sub":
                        return good(x.a[0])
                    if x.k in ("p", "c"):
                        return x.k == "c" or x.a[0] == "serial"
                    if items(x):
                        return all(good(y) for y in items(x))
                    return False
                if not good(v):
                    bad.append(show(v))
                return "put"
        trace_paths(ctx, f, {"l": lab}, self_cls=f.cls, follow=lambda g, ev, d: False, events=("put",))
        ctx.ob(R, f, not bad, "mutable data is put into a shared cache: %s" % ", ".join(bad[:2]), key="cache")
    ctx.count(R, n, 3, "functions filling the shared caches")
    f = ctx.P.func(KF + ".KeyFS.import_changes")
    vals = []
    trace_paths(ctx, f, {"r": lambda ev, st: ev.name == "record_set" and (vals.append(ev.args[1]) or True)}, follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(vals) and all(call_name(v) == "get_mutable_deepcopy" for v in vals if v.k == "call") and all(v.k == "call" for v in vals),
           "imported changes are recorded without copying them", key="import")


def views(ctx):
    R = ctx.rule("K04.views", "a read only view gives access to contained data only through further read only views; "
                 "copies for change copy every level")
    base = ctx.P.cls(RO + ".ReadonlyView")
    n = 0
    classes = [c for c in ctx.P.classes.values() if c.module.name == RO]
    safe = ("keys", "__len__", "len", "iter", "repr", "__contains__")
    for c in sorted(classes, key=lambda c: c.qual):
        for name, f in sorted(c.methods.items()):
            base_name = name.partition("#")[0]
            if base_name in ("__init__", "__setstate__") or not list(attrs_in(f.node, "_data")):
                continue
            if any("overload" in d for d in f.deco_names()):
                continue
            n += 1
            mut = [x for x in walk_own(f.node) if isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load) and "_data" in src(x)]
            ctx.ob(R, f, not mut, "a read only view changes its data", key=name + "-store")
            outs = []
            paths = trace_paths(ctx, f, {}, self_cls=c, yields=lambda t, st: outs.append(t) or "y", yield_exc=(), events=("_data",), follow=lambda g, ev, d: False)
            outs += [p.ret for p in paths if p.kind == "return" and p.ret is not None]
            hashed = c.name.startswith("Set") or base_name in ("__iter__", "keys") and c.name.startswith("Dict") and "Items" not in c.name and "Values" not in c.name

            def safe_out(t):
                if t.k == "c" or t.k == "cmp" or t.k == "fstr" or t.k == "un":
                    return True
                if t.k == "call":
                    nm = call_name(t)
                    if nm == "ensure_deeply_readonly" or nm in ("len", "repr", "hash", "bool"):
                        return True
                    if nm in ("iter", "keys") and hashed:
                        return True
                    r = refname(t.a[0]) or ""
                    if r.startswith(RO + "."):
                        return True
                    return not has_attr(t, "_data")
                if t.k == "comp":
                    return all(safe_out(x) for x in ([t.a[1]] if not isinstance(t.a[1], tuple) else t.a[1]))
                if t.k == "elem":
                    return safe_out(t.a[0]) if t.a[0].k == "comp" else not has_attr(t, "_data") or hashed
                if t.k == "sub" and t.a[1] is const(0) and t.a[0].k == "elem":
                    return True     # the key of a dictionary item
                if items(t):
                    return all(safe_out(x) for x in items(t))
                return not has_attr(t, "_data")
            bad = [show(t) for t in outs if not safe_out(t)]
            ctx.ob(R, f, not bad, "data behind a read only view is handed out unprotected: %s" % ", ".join(bad[:2]), key=name)
    ctx.count(R, n, 8, "methods of the read only views")
    for c in classes:
        if c.is_sub(base):
            for m in ("__setitem__", "__delitem__", "append", "add", "update", "pop", "clear", "extend", "remove", "insert", "setdefault", "discard"):
                ctx.ob(R, c, c.find(m) is None, "a read only view can be changed", key=m)
    # dispatch tables
    tables = {}
    for f in ctx.P.funcs.values():
        if f.module.name != RO:
            continue
        for d in f.node.decorator_list if hasattr(f.node, "decorator_list") else ():
            s = src(d)
            for which in ("ensure_deeply_readonly", "get_mutable_deepcopy"):
                if s.startswith(which + ".register"):
                    ann = f.node.args.args[0].annotation
                    t = src(ann) if ann is not None else None
                    if isinstance(d, ast.Call) and d.args:
                        t = src(d.args[0])
                    tables.setdefault(which, {})[t] = f
    ctx.count(R, sum(len(v) for v in tables.values()), 20, "handlers for stored types")
    views_ = {"dict", "list", "set", "tuple"}
    for which, tab in sorted(tables.items()):
        for t, f in sorted(tab.items()):
            par = T("p", f.params()[0])
            paths = trace_paths(ctx, f, {}, follow=lambda g, ev, d: False)
            rets = [p.ret for p in paths if p.kind == "return"]
            if which == "ensure_deeply_readonly":
                if t in views_:
                    ok = all(r.k == "call" and any(k.qual.startswith(RO) for k in ctx.P.classes.values() if k.qual == refname(r.a[0]) and k.is_sub(base)) for r in rets)
                else:
                    ok = all(r is par for r in rets)
            else:
                if t == "dict":
                    ok = all(r.k == "comp" and r.a[0] == "dict" and contains(r, lambda x: x.k == "call" and call_name(x) == "get_mutable_deepcopy") and not bare(r.a[1][1]) for r in rets)
                elif t in ("list", "tuple"):
                    ok = all(has_call(r, "get_mutable_deepcopy") and (r.k == "comp" and r.a[0] == t or r.k == "call" and call_name(r) == t) for r in rets)
                elif t == "set":
                    ok = all(r.k == "comp" and r.a[0] == "set" or r.k == "call" and call_name(r) in ("set", "copy") for r in rets)
                elif t == "ReadonlyView":
                    ok = all(r.k == "call" and call_name(r) == "get_mutable_deepcopy" and has_attr(r, "_data") for r in rets)
                else:
                    ok = all(r is par for r in rets)
            ctx.ob(R, f, bool(rets) and ok, "%s does not protect or copy values of type %s completely" % (which, t), key="%s-%s" % (which, t))
    f = ctx.P.func(RO + ".is_deeply_readonly")
    imm = None
    for st in ctx.P.module(RO).tree.body:
        if isinstance(st, ast.Assign) and src(st.targets[0]) == "_immutable":
            imm = {src(e) for e in st.value.elts}
    ctx.ob(R, f, imm is not None and not imm & {"dict", "list", "set", "tuple", "bytearray", "object"}, "mutable types count as immutable", key="immutable")


def bare(t):
    """a plain item of the source without copy"""
    return t.k != "call"


def check(ctx):
    tx_reads(ctx)
    writes(ctx)
    detached(ctx)
    views(ctx)
    ctx.assumptions += ["LRU caches return what was put", "values in sets and keys of dictionaries are hashable and immutable"]


S = "server/devpi_server/"
SELFTEST = [
    (S + "keyfs.py", "return get_mutable_deepcopy(val)", "return val"),
    (S + "keyfs.py", "if last_serial > serial:", "if last_serial >= serial:"),
    (S + "keyfs.py", "typedkey, self.at_serial, raise_on_error=False", "typedkey, self.conn.last_changelog_serial, raise_on_error=False"),
    (S + "keyfs.py", "            if val == old_val:\n                continue\n", ""),
    (S + "keyfs.py", "        self.cache[typedkey] = val\n        self.dirty.add(typedkey)", "        self.cache[typedkey] = val"),
    (S + "keyfs.py", "typedkey, get_mutable_deepcopy(val),", "typedkey, val,"),
    (S + "readonly.py", "return [get_mutable_deepcopy(item) for item in val]", "return list(val)"),
    (S + "readonly.py", "yield (x, ensure_deeply_readonly(y))", "yield (x, y)"),
    (S + "readonly.py", "        return ensure_deeply_readonly(val)", "        return val"),
    (S + "keyfs_sqlite.py", "changes = ensure_deeply_readonly(changes)", "pass"),
    (S + "keyfs_sqlite.py", "value = get_mutable_deepcopy(value)", "pass"),
    (S + "keyfs_sqlite.py", "self._relpath_cache.get((serial, relpath), absent)", "self._relpath_cache.get(relpath, absent)"),
    (S + "keyfs_sqlite.py", "        self.storage.last_commit_timestamp = time.time()", "        self.storage._changelog_cache.put(commit_serial, self.changes)\n        self.storage.last_commit_timestamp = time.time()"),
    (S + "keyfs_types.py", "val = self.keyfs.tx.get(self, readonly=False)", "val = self.keyfs.tx.get(self)"),
    (S + "keyfs_types.py", "if not isinstance(val, self.type):", "if val is None:"),
]
