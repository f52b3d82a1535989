"""F01: only complete, verified content is stored."""
from rules.lib import *  # noqa

VW = "devpi_server.views"
RP = "devpi_server.replica"
FS = "devpi_server.filestore"
IE = "devpi_server.importexport"


def streamer(ctx):
    R = ctx.rule("F01.streamer", "a download only ends normally when every chunk handed on was hashed and written, the number of bytes is the announced one and "
                 "the content has the announced hash")
    C = ctx.P.cls(VW + ".FileStreamer")
    f = C.method("__iter__")
    bad_hash = []

    def lab(ev, st):
        n = ev.name
        if n in ("read", "read1", "readinto", "stream") and ev.recv is not None and has_attr(ev.recv, "response"):
            return "read"
        if n == "write" and ev.recv is not None and has_attr(ev.recv, "f") and ev.args and has_call(ev.args[0], "read", "read1"):
            return "write"
        if n == "update" and ev.args and has_call(ev.args[0], "read", "read1"):
            return "hash"

    def br(t, v, st):
        if t.k == "call" and call_name(t) in ("read", "read1"):
            return "data" if v else "eof"
        if t.k == "cmp":
            a, b = t.a[1], t.a[2]
            if t.a[0] in ("==", "is") and any(x.k == "call" and call_name(x) in ("read", "read1") for x in (a, b)):
                return "eof" if v else "data"
            if has_str(t, "content-length"):
                if NONE in (a, b):
                    return "nosize" if v else None
                if t.a[0] == "==":
                    other = b if has_str(a, "content-length") else a
                    if "data" in st.auto and not has_call(other, "len"):
                        return "size-of-nothing"
                    return "sizeok" if v else "sizebad"
                return "sizecmp"
            if has_call(t, "exception_for") and NONE in (a, b):
                return "hashok" if v else "hashbad"
        if has_str(t, "content-length") and t.k != "cmp":
            return None if v else "nosize"
        if t.k == "call" and call_name(t) in ("exception_for",):
            return "hashbad" if v else "hashok"
        if t.k == "call" and call_name(t) == "errors_for":
            return "hashbad" if v else "hashok"
        if t.k == "attr" and t.a[1] == "_hashes":
            return "announced" if v else "unannounced"

    def yl(term, st):
        return "yield" if has_call(term, "read", "read1") else None

    def it(what, i, st):
        # there is at least one hash algorithm
        if what == "end" and (has_attr(i, "_running_hashes") or has_call(i, "RunningHashes")) and "hash" not in st.auto[-1:]:
            return PRUNE

    paths = trace_paths(ctx, f, {"x": lab}, branch=br, yields=yl, iters=it, self_cls=C, default_raises=(), yield_exc=("?B",),
                        follow=lambda g, ev, d: None if g.cls is C or g.parent is f else False, events=("read", "write", "update", "exception_for"), dedupe=True, max_states=256)
    ends = live_paths(paths)
    ctx.ob(R, f, bool(ends) and some(ends, "data"), "downloads never end", key="instances")
    check_paths(ctx, R, f, ends, lambda p: p.has("sizeok") or p.has("nosize"), "a download with the wrong size ends normally", key="size")
    check_paths(ctx, R, f, ends, lambda p: not p.has("size-of-nothing", "sizecmp", "sizebad"), "a download with the wrong size ends normally", key="size-compare")
    check_paths(ctx, R, f, ends, lambda p: p.has("hashok") or p.has("unannounced"), "a download with the wrong hash ends normally", key="hash")
    check_paths(ctx, R, f, ends, lambda p: not p.has("hashbad"), "a download with the wrong hash ends normally", key="hash-compare")
    check_paths(ctx, R, f, ends, lambda p: p.has("eof"), "a download ends before all was read", key="eof")

    def chunks(p):
        seen = None
        for x in p.trace + (("end",) if p.kind == "return" else ()):
            if x == "data":
                seen = set()
            elif x in ("write", "hash", "yield") and seen is not None:
                seen.add(x)
            elif x in ("read", "end", "eof") and seen is not None:
                if not seen >= {"write", "hash", "yield"}:
                    return False
                seen = None
        return True
    if len([p for p in ends if p.has("data")]):
        check_paths(ctx, R, f, ends, chunks, "a chunk is handed on without being hashed and written", key="chunks")
    # what is compared
    got = []

    def cmp_(ev, st):
        if ev.name in ("exception_for", "errors_for"):
            got.append(ev)
            return "cmp"
    trace_paths(ctx, f, {"c": cmp_}, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C else False, dedupe=True)
    good = bool(got)
    for e in got:
        ts = [e.recv] + list(e.args)
        good = good and any(t is not None and has_attr(t, "_hashes") for t in ts) and any(t is not None and (has_attr(t, "digests") or has_attr(t, "hashes")) and has_call(t, "RunningHashes") or t is not None and has_attr(t, "digests") for t in ts)
    ctx.ob(R, f, good, "the hashes compared are not the computed and the announced ones", key="compared")
    init = C.method("__init__")
    vals = {}

    def st_(e, st):
        if e.kind == "attr" and e.name in ("_hashes", "f", "response"):
            vals.setdefault(e.name, []).append(e.value)
    trace_paths(ctx, init, {}, stores={"s": st_}, self_cls=C, default_raises=(), follow=lambda g, ev, d: False)
    ctx.ob(R, init, bool(vals.get("_hashes")) and all(has_attr(v, "hashes") and has_param(v, "entry") for v in vals["_hashes"]), "the announced hashes are not the entry's", key="announced")
    for g in ctx.P.iter_funcs(*SERVER):
        for x in walk_own(g.node):
            if isinstance(x, ast.Attribute) and x.attr == "_hashes" and isinstance(x.ctx, ast.Store) and g.module.name == VW and g is not init:
                ctx.ob(R, g, False, "the announced hashes are dropped later", key="reset", where=where(g, x))


def digests(ctx):
    R = ctx.rule("F01.compare", "comparing hashes reports each announced hash that differs, refuses to compare without a common hash, and a difference always makes an error")
    D = ctx.P.cls(FS + ".Digests")
    f = D.method("errors_for")

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "isinstance":
            return "digests" if v else "content"
        if t.k == "call" and call_name(t) == "intersection" or t.k == "bin" and "And" in str(t.a[0]) or t.k == "call" and call_name(t) == "isdisjoint":
            neg = call_name(t) == "isdisjoint"
            return "common" if bool(v) != neg else "nocommon"
        if t.k == "cmp" and t.a[0] == "==" and (contains(t, lambda x: x.k in ("elem", "sub"))):
            return "same" if v else "differs"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            return "unannounced" if v else None
        if t.k == "cmp" and t.a[0] == "in":
            return None if v else "unannounced"

    def st_(e, st):
        return e.kind == "sub"
    got = []
    paths = trace_paths(ctx, f, {"h": lambda ev, st: ev.name == "get_hashes" and not got.append(ev)}, branch=br, stores={"error": st_}, self_cls=D, default_raises=(), iters=lambda w, i, st: w,
                        follow=lambda g, ev, d: False, dedupe=False)

    def differ(p):
        bad = False
        for x in p.trace:
            if x == "differs":
                bad = True
            elif x == "error":
                bad = False
            elif x in ("next", "end") and bad:
                return False
        return not bad
    comp = any(isinstance(x, ast.DictComp) for x in ast.walk(f.node))
    if not comp:
        ctx.ob(R, f, some(paths, "differs"), "hashes are not compared", key="instances")
        check_paths(ctx, R, f, [p for p in paths if p.kind == "return"], differ, "a differing hash is not reported", key="differs")
        check_paths(ctx, R, f, [p for p in paths if p.kind == "return"], lambda p: not ("next" in p.trace) or p.has("same", "differs", "unannounced"), "a hash is passed over", key="skipped")
    check_paths(ctx, R, f, paths, lambda p: not p.has("nocommon") or p.kind == "raise", "hashes without a common type count as equal", key="common")
    check_paths(ctx, R, f, live_paths(paths), lambda p: not p.has("digests") or p.has("common"), "hashes without a common type count as equal", key="common-check")
    for e in got:
        ht = e.kwargs.get("hash_types")
        ctx.ob(R, f, ht is not None and (has_call(ht, "keys") or ht is T("p", "self") or contains(ht, lambda x: x is T("p", "self"))), "content is not hashed with the announced types", key="types")
    x = D.method("exception_for")
    paths = trace_paths(ctx, x, {}, branch=lambda t, v, st: ("errors" if v else "clean") if t.k == "call" and call_name(t) == "errors_for" else None, self_cls=D, default_raises=(),
                        stop=("errors_for",), follow=lambda g, ev, d: False)
    check_paths(ctx, R, x, paths, lambda p: not p.has("errors") or p.kind == "raise" or has_call(p.ret, "ChecksumError"), "differing hashes do not make an error", key="exception")
    ctx.ob(R, x, some(paths, "errors"), "differing hashes do not make an error", key="exception-instances")
    E = ctx.P.cls(FS + ".FileEntry")
    g = E.method("file_get_hash_errors")
    paths = trace_paths(ctx, g, {}, self_cls=E, default_raises=(), stop=("errors_for",), follow=lambda h, ev, d: False if h.name != "file_open_read" else None)
    check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is not None and has_call(p.ret, "errors_for") and (has_call(p.ret, "file_open_read", "io_file_open")),
                "the stored file is not what gets hashed", key="stored")


def downloads(ctx):
    R = ctx.rule("F01.verified", "content from another server is only stored after the whole download ended normally through the verifying streamer into that very file; "
                 "a failing download ends in an exception and stores nothing")
    F = ctx.rule("F01.flushed", "a downloaded file is closed, and with that complete on disk, before the change which stores it is committed")
    KNOWN = ctx.rule("F01.retry", "a download for a replica that broke off or does not match is handed back for a later retry")
    FSTR = ctx.P.cls(VW + ".FileStreamer")
    n = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        calls = [c for c in own_calls(f, "io_file_new_open") if not (f.cls is not None and "io_file_new_open" in f.cls.methods)]
        if not calls or f.name in ("io_file_new_open",):
            continue
        if f.parent is None and f.cls is None and f.module.name.endswith("interfaces"):
            continue
        n += 1
        bad = []

        def is_streamer(t):
            return t.k == "call" and refname(t.a[0]) == FSTR.qual

        def lab(ev, st):
            nm = ev.name
            if nm in ("io_file_set", "file_set_content"):
                i = 1 if nm == "io_file_set" else 0
                a = argn(ev, i, "content_or_file")
                if a is not None and has_call(a, "find_pre_existing_file"):
                    return "pre"
                if a is None or not has_call(a, "io_file_new_open"):
                    bad.append(ev)
                    return "store-other"
                if nm == "file_set_content":
                    h = ev.kwargs.get("hashes")
                    if h is None or not contains(h, is_streamer):
                        bad.append(ev)
                return "store"
            if any(t is FSTR for t in ev.targets):
                if not ev.args or not has_call(ev.args[0], "io_file_new_open"):
                    bad.append(ev)
                return None
            if nm == "close" and ev.recv is not None and has_call(ev.recv, "io_file_new_open"):
                return "close"
            if nm == "commit_files_without_increasing_serial":
                return "commit"
            if nm in ("get", "httpget") and (ev.recv is None or "session" in show(ev.recv) or nm == "httpget"):
                return "get"

        def it(what, i, st):
            if is_streamer(i) and what == "end":
                return "streamed"
            return None

        def br(t, v, st):
            if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "status_code") and any(x.k == "c" and cval(x) == 200 for x in t.a[1:]):
                return "200" if v else "not200"

        def wl(what, cm, st):
            if cm.k == "call" and call_name(cm) == "write_transaction":
                return "commit" if what == "exit" else None
        paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=it, iter_raise=lambda i, st: "broken" if is_streamer(i) else None, with_label=wl,
                            self_cls=f.cls, default_raises=(), raises={"get": (), "store": (), "close": (), "commit": (), "pre": ()}, yield_exc=("builtins.GeneratorExit",),
                            follow=lambda g, ev, d: None if g.parent is f or g.cls is not None and g.cls is f.cls and g.name not in ("find_pre_existing_file",) or g.module is f.module and g.cls is None and not g.is_gen else False,
                            events=("io_file_set", "file_set_content", "FileStreamer", "commit_files_without_increasing_serial", "close", "io_file_new_open", "httpget"), dedupe=True, rounds=1, max_states=512)
        ctx.ob(R, f, some(paths, "store"), "downloads are never stored", key="instances")
        ctx.ob(R, f, not bad, "what gets stored is not the file, with the hashes, that was downloaded", key="same-file")
        check_paths(ctx, R, f, paths, precedes("streamed", "store"), "a download is stored before it is complete and verified", key="order")
        check_paths(ctx, R, f, paths, lambda p: not p.has("broken") or not p.has("store"), "a failed download is stored", key="broken")
        check_paths(ctx, R, f, paths, lambda p: not p.has("store") or p.has("200"), "the content of an error response is stored", key="status")

        def flushed(p):
            opn = False
            for x in p.trace:
                if x == "store":
                    opn = True
                elif x == "close":
                    opn = False
                elif x == "commit" and opn:
                    return False
            return True
        check_paths(ctx, F, f, paths, flushed, "a download is committed while parts of it may not be written yet", key="flushed")
        if f.is_gen:
            check_paths(ctx, R, f, paths, lambda p: not p.has("broken") or p.kind == "raise", "a failed download ends as if it were complete", key="client")
        else:
            check_paths(ctx, KNOWN, f, paths, lambda p: not p.has("broken") or p.kind == "raise", "a failed download is not tried again", key="stream error")
    ctx.count(R, n, 3, "functions that download into the file storage")
    # each writer of file content is known
    W = ctx.rule("F01.writers", "file content is only stored by the verified download, the upload and import operations of the model, and the verified pre-existing files of replicas")
    allowed = {FS + ".FileEntry.file_set_content"} | {f.qual for f in ctx.P.iter_funcs(*SERVER) if any(own_calls(f, "io_file_new_open"))}
    n = 0
    for g, c in callers(ctx.P, "io_file_set"):
        if g.cls is not None and g.cls.find("io_file_set") is not None or g.module.name.endswith("interfaces"):
            continue
        n += 1
        o = g
        while o.parent is not None:
            o = o.parent
        ok = o.qual in allowed
        if not ok:
            # a helper of a checked function
            us = [h for h, _ in callers(ctx.P, o.name, prefixes=SERVER)]
            ok = bool(us) and all(h.qual in allowed for h in us)
        ctx.ob(W, g, ok, "file content is stored past the checks", key="io_file_set", where=where(g, c))
    ctx.count(W, n, 4, "writers of file content")


def replica(ctx):
    R = ctx.rule("F01.prefound", "a file a replica finds in its search path is only used when its content has the announced hashes")
    f = ctx.P.func(RP + ".FileReplicationThread.find_pre_existing_file")
    C = f.cls
    got = []

    def br(t, v, st):
        if t.k == "call" and call_name(t) in ("errors_for", "validate", "exception_for"):
            return "bad" if v else "good"
        if t.k == "cmp" and t.a[0] in ("is", "==") and has_call(t, "errors_for", "validate", "exception_for"):
            return "good" if v else "bad"
    paths = trace_paths(ctx, f, {"c": lambda ev, st: ev.name == "errors_for" and not got.append(ev)}, branch=br, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C else False)
    give = [p for p in live_paths(paths) if p.ret is not NONE and p.ret is not None]
    ctx.ob(R, f, bool(give), "existing files are never used", key="instances")
    check_paths(ctx, R, f, give, lambda p: p.has("good") and not p.has("bad"), "an existing file is used without its hashes having been compared", key="verified")
    ctx.ob(R, f, bool(got) and all(has_attr(e.recv, "hashes") and has_param(e.recv, f.params()[1]) and has_call(e.args[0], "open") for e in got), "not the announced hashes of the entry are compared with the file", key="compared")
    for p in give:
        ctx.ob(R, f, has_call(p.ret, "open"), "the file used is not the one which was compared", key="same")
    Q = ctx.rule("F01.queue", "a file that could not be replicated is queued again, also when trying it again failed")
    S = ctx.P.cls(RP + ".FileReplicationSharedData")
    for name in ("process_next", "process_next_errored"):
        g = S.method(name)
        H = g.params()[1]

        def lab(ev, st):
            if ev.fterm is T("p", H):
                return "handler"
            if ev.name == "add_errored":
                return "again"
        paths = trace_paths(ctx, g, {"x": lab}, self_cls=S, default_raises=(), raises={"handler": ("builtins.ValueError", "devpi_server.replica.FileReplicationError"), "again": ()},
                            follow=lambda h, ev, d: None if h.cls is S and h.name not in ("add_errored", "process_next_errored", "process_next") else False, events=("add_errored",))
        ctx.ob(Q, g, some(paths, "handler"), "queued files are not handled", key="instances")
        check_paths(ctx, Q, g, paths, follows("handler!", "again"), "a file which failed is dropped from the queue", key="again")
        check_paths(ctx, Q, g, paths, lambda p: not p.has("handler!") or p.kind == "return", "a failing file ends the worker", key="survives")
    a = S.method("add_errored")
    paths = trace_paths(ctx, a, {"put": "put"}, self_cls=S, default_raises=())
    check_paths(ctx, Q, a, paths, lambda p: p.has("put"), "a file which failed is not queued", key="put")
    i = C.method("importer")
    st200 = []

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("==", "in") and has_attr(t, "status_code"):
            cs = [cval(x) for y in t.a[1:] for x in subterms(y) if x.k == "c" and isinstance(cval(x), int)]
            if 200 in cs:
                return "ok" if v else "fail"
            if v:
                return "handled"
        if t.k == "cmp" and has_str(t, "mirror"):
            return "mirror" if v else "private"

    paths = trace_paths(ctx, i, {"store": "io_file_set", "get": lambda ev, st: ev.name == "get" and "session" in show(ev.recv)}, branch=br, self_cls=C, default_raises=(), raises={"store": (), "get": ()},
                        follow=lambda g, ev, d: False, rounds=1, max_states=512)
    check_paths(ctx, Q, i, paths, lambda p: not p.has("fail") or p.kind == "raise", "an error answer of the primary is taken as final", key="error-status")
    check_paths(ctx, Q, i, paths, lambda p: p.kind == "raise" or not p.has("handled") or p.has("ok", "mirror") or not p.has("private"), "an error answer of the primary is taken as final", key="error-private")


def content(ctx):
    R = ctx.rule("F01.hashes", "the hashes kept with stored content are computed from that content or were compared with it: by the operation that stores, or by the caller that passes them")
    E = ctx.P.cls(FS + ".FileEntry")
    f = E.method("file_set_content")
    CT = T("p", f.params()[1])
    hs, st_ = [], []

    def lab(ev, st):
        if ev.name == "get_hashes":
            hs.append(ev)
            return "hash"
        if ev.name == "io_file_set":
            st_.append(ev)
            return "store"
        if ev.name == "set" and ev.recv is not None and has_attr(ev.recv, "key"):
            return "meta"

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "get_missing_hash_types":
            return "missing" if v else "complete"
    vals = []
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=E, default_raises=(), stores={"spec": lambda e, st: e.kind == "attr" and e.name in ("hash_spec", "_hash_spec") and not vals.append(e.value)},
                        follow=lambda g, ev, d: False, raises={"hash": (), "store": (), "meta": ()})
    ends = live_paths(paths)
    check_paths(ctx, R, f, ends, lambda p: not p.has("missing") or p.has("hash"), "missing hashes are not computed from the content", key="missing")
    check_paths(ctx, R, f, ends, lambda p: p.has("missing", "complete", "hash"), "missing hashes are not computed from the content", key="missing-check")
    check_paths(ctx, R, f, ends, lambda p: p.has("store") and p.has("spec") and p.has("meta"), "content is stored without its hash", key="recorded")
    check_paths(ctx, R, f, ends, lambda p: "meta" in p.trace[p.idx("spec"):], "the hash is not recorded with the content", key="recorded-order")
    ctx.ob(R, f, bool(hs) and all(e.args and e.args[0] is CT for e in hs), "the hashes are computed from something else", key="of-content")
    ctx.ob(R, f, bool(st_) and all(argn(e, 1, "content_or_file") is CT for e in st_), "something else is stored", key="stored")
    S = ctx.P.cls(FS + ".FileStore")
    g = S.method("store")
    CT2 = T("p", "content_or_file")
    calls, hh = [], []
    paths = trace_paths(ctx, g, {"s": lambda ev, st: ev.name == "file_set_content" and not calls.append(ev), "h": lambda ev, st: ev.name == "get_hashes" and not hh.append(ev)}, self_cls=S, default_raises=(),
                        follow=lambda h, ev, d: False)
    check_paths(ctx, R, g, live_paths(paths), lambda p: p.has("s"), "nothing is stored", key="store")
    for e in calls:
        h = e.kwargs.get("hashes")
        ctx.ob(R, g, argn(e, 0, "content_or_file") is CT2, "something else is stored", key="store-content")
        ctx.ob(R, g, h is not None and (h is T("p", "hashes") or h is NONE or h.k == "call" and call_name(h) == "get_hashes" and call_args(h)[0] is CT2 or h.k == "phi"), "hashes of something else are recorded", key="store-hashes")
    # the callers
    n = 0
    spec = {"store_releasefile": 3, "store_doczip": 2, "store_toxresult": 1, "create_linked_entry": 2, "new_reflink": 1, "_create_file_entry": 1, "store": 3}
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        if not any(c for nm in spec for c in own_calls(f, nm)):
            continue
        if f.module.name == IE:
            continue
        evs = []

        def lb(ev, st):
            if ev.name in spec and (ev.name != "store" or ev.recv is not None and "filestore" in show(ev.recv)):
                evs.append(ev)
                return "s"
        trace_paths(ctx, f, {"x": lb}, self_cls=f.cls, default_raises=(), follow=lambda h, ev, d: False, rounds=1)
        for e in evs:
            cont = argn(e, spec[e.name], {"store_toxresult": "toxresultdata"}.get(e.name, "content_or_file"))
            h = e.kwargs.get("hashes")
            n += 1
            ok = cont is not None and hash_source(h, cont)
            ctx.ob(R, f, ok, "hashes which are neither computed from nor compared with the content are recorded with it (%s)" % e.name, key="caller:%s" % e.name, where=where(f, e.node))
    ctx.count(R, n, 9, "callers which store content")


def hash_source(h, cont):
    """the hashes belong to the content"""
    if h is None or h is NONE:
        return True
    if h.k == "phi":
        return all(hash_source(x, cont) for x in h.a[0]) if isinstance(h.a[0], tuple) else True
    if h.k == "p":
        return cont.k == "p" or contains(cont, lambda x: x.k == "p")
    if h.k == "call" and call_name(h) == "get_hashes":
        return call_args(h)[0] is cont or contains(cont, lambda x: x is call_args(h)[0])
    if h.k == "attr" and h.a[1] == "hashes":
        # the entry whose file is copied
        b = h.a[0]
        return contains(cont, lambda x: x is b) and has_call(cont, "file_open_read", "file_get_content")
    return False


def imports(ctx):
    R = ctx.rule("F01.import", "each file imported is compared with its exported hashes after it was stored, and a difference aborts the import")
    f = ctx.P.func(IE + ".Importer.import_filedesc")
    C = f.cls
    got = []

    def lab(ev, st):
        if ev.name in ("store_releasefile", "store_doczip", "store_toxresult", "file_set_content"):
            return "store"
        if ev.name in ("file_get_hash_errors", "errors_for", "validate", "exception_for"):
            got.append(ev)
            return "verify"

    def br(t, v, st):
        if t.k == "call" and call_name(t) in ("file_get_hash_errors", "errors_for", "validate", "exception_for"):
            return "bad" if v else "good"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=C, default_raises=(), raises={"store": (), "verify": ()}, follow=lambda g, ev, d: None if g.cls is C or g.module is f.module and g.cls is None else False,
                        events=("store_releasefile", "file_get_hash_errors", "errors_for"), rounds=1, max_states=512)
    ends = live_paths(paths)
    ctx.ob(R, f, some(ends, "store"), "nothing is imported", key="instances")
    check_paths(ctx, R, f, ends, lambda p: not p.has("store") or p.has("good"), "a file is imported without being compared with its exported hashes", key="verified")
    check_paths(ctx, R, f, paths, lambda p: not p.has("bad") or p.kind == "raise", "a file which differs from its exported hashes is imported", key="abort")

    def exported(t):
        return has_str(t, "entrymapping") or has_str(t, "hash_spec") or has_str(t, "hashes") or contains(t, lambda x: x.k == "call" and call_name(x) == "Digests")
    ctx.ob(R, f, bool(got) and all(e.args and exported(e.args[0]) or e.recv is not None and exported(e.recv) and e.name in ("errors_for", "exception_for") for e in got), "not the exported hashes are compared", key="exported")


def check(ctx):
    streamer(ctx)
    digests(ctx)
    downloads(ctx)
    replica(ctx)
    content(ctx)
    imports(ctx)


SELFTEST = [
    ("server/devpi_server/views.py", "        if content_size and int(content_size) != filesize:", "        if content_size and int(content_size) < filesize:"),
    ("server/devpi_server/views.py", "            filesize += len(data)\n", "            filesize = int(content_size or 0)\n"),
    ("server/devpi_server/views.py", "            if err is not None:\n                raise err", "            if err is not None:\n                threadlog.error(str(err))"),
    ("server/devpi_server/views.py", "        if self._hashes:\n            err", "        if self._hashes and not content_size:\n            err"),
    ("server/devpi_server/views.py", "            self.f.write(data)\n            yield data", "            yield data\n            if filesize:\n                self.f.write(data)\n            continue"),
    ("server/devpi_server/views.py", "        except Exception as err:\n            threadlog.error(str(err))\n            raise\n", "        except Exception as err:\n            threadlog.error(str(err))\n"),
    ("server/devpi_server/views.py", "                # on Windows we need to close the file\n                # before the transaction closes\n                f.close()\n        else:", "        else:"),
    ("server/devpi_server/views.py", "                    hashes=file_streamer.hashes)", "                    hashes=entry.hashes)"),
    ("server/devpi_server/views.py", "            # the file we got is different, so we fail\n            raise BadGateway(str(err)) from err", "            threadlog.warn('%s', err)"),
    ("server/devpi_server/replica.py", "                    relpath=entry.relpath))\n                return\n", "                    relpath=entry.relpath))\n"),
    ("server/devpi_server/replica.py", "        if errors:\n            f.close()", "        if errors and not self.use_hard_links:\n            f.close()"),
    ("server/devpi_server/replica.py", "        if r.status_code != 200:\n            r.close()\n            threadlog.error(\n                \"error downloading", "        if r.status_code >= 500:\n            r.close()\n            threadlog.error(\n                \"error downloading"),
    ("server/devpi_server/replica.py", "                key, lazy_format_exception(e))\n            self.add_errored(index_type, serial, key, keyname, value, back_serial)", "                key, lazy_format_exception(e))\n            if value is None:\n                self.add_errored(index_type, serial, key, keyname, value, back_serial)"),
    ("server/devpi_server/filestore.py", "            if not set(hashes).intersection(self):\n                raise", "            if self and not set(hashes).intersection(self) and len(self) > 1:\n                raise"),
    ("server/devpi_server/filestore.py", "            if hash_value != expected_hash_value:\n", "            if hash_value != expected_hash_value and hash_type == DEFAULT_HASH_TYPE:\n"),
    ("server/devpi_server/filestore.py", "            hashes.update(get_hashes(content_or_file, hash_types=missing_hash_types))", "            hashes.update(get_hashes(self.file_get_content(), hash_types=missing_hash_types))"),
    ("server/devpi_server/filestore.py", "            return ChecksumError(f\"{relpath}: {error_msg}\")", "            threadlog.error(f\"{relpath}: {error_msg}\")"),
    ("server/devpi_server/importexport.py", "        errors = entry.file_get_hash_errors(hashes)\n        if errors:", "        errors = entry.file_get_hash_errors(hashes)\n        if errors and self.dumpversion != '1':"),
    ("server/devpi_server/importexport.py", "        errors = entry.file_get_hash_errors(hashes)\n", "        errors = entry.file_get_hash_errors(entry.hashes)\n"),
    ("server/devpi_server/views.py", "hashes=toxlink.entry.hashes)", "hashes=entry.hashes)"),
    ("server/devpi_server/views.py", "        hashes = get_hashes(content_file)\n", "        hashes = {'sha256': request.POST.get('sha256_digest')}\n"),
]
