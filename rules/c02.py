"""C02: the client asks before it destroys and reports failures."""
from rules.lib import *  # noqa

OUT = ("line", "info", "debug", "error", "warn", "warning")
FAIL = ("fatal", "fatal_code", "error_and_out")
QUIET = ("get_error_message", "current", "get_current", "require_valid_current_with_index", "verify_reply_version", "del_auth", "get_auth", "get_basic_auth", "get_client_cert",
         "get_index_url", "get_user_url", "get_project_url", "get_simpleproject_url", "get_simpleindex_url", "get_auth_user", "root_url", "reconfigure", "set_auth", "set_basic_auth", "set_client_cert", "venv", "indexname")


def nourl(h, ev, d):
    return False if h.module.name in ("devpi_common.url", "devpi_common.viewhelp", "devpi_common.metadata") else None


def tp(ctx, f, labels, **kw):
    """all paths, with what ends the command doing so"""
    lab = dict(labels)
    lab = dict([("fatal", lambda ev, st: ev.name in FAIL)] + list(lab.items()))
    kw["raises"] = dict(kw.get("raises") or {}, fatal=("SystemExit",))
    kw["events"] = tuple(kw.get("events", ())) + FAIL
    return [p for p in trace_paths(ctx, f, lab, **kw) if "fatal" not in p.trace]


def is_delete(ev):
    m = argn(ev, 0, "method")
    return ev.name == "http_api" and (m is None or m.k != "c" or isinstance(cval(m), str) and cval(m).lower() == "delete") or ev.name == "delete" and ev.recv is not None and has_attr(ev.recv, "http")


def confirm(ctx):
    R = ctx.rule("C02.confirm", "a request to delete is only sent after the user confirmed it for what was shown")
    P = ctx.P
    n = 0
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        cs = [c for c in own_calls(f, "http_api") if c.args and not (isinstance(literal(c.args[0]), str) and literal(c.args[0]).lower() != "delete")] + \
             [c for c in own_calls(f, "delete") if isinstance(c.func, ast.Attribute) and "http" in src(c.func.value)] + \
             [c for c in own_calls(f, "request") if isinstance(c.func, ast.Attribute) and "http" in src(c.func.value) and f.name != "http_api"]
        if not cs:
            continue
        cs = {id(c) for c in cs}
        got = []
        shown = {}

        def lab(ev, st):
            if ev.name in OUT:
                shown.setdefault("x", []).extend(ev_args(ev))
                return None
            if id(ev.node) in cs and "fatal" not in st.auto:
                if is_delete(ev) or ev.name == "request":
                    got.append((ev, dict(st.facts)))
                    return "delete"
        tp(ctx, f, {"d": lab}, self_cls=f.cls, default_raises=(), events=("http_api", "delete", "request", "ask_confirm"), stop=OUT + QUIET + ("http_api", "ask_confirm", "get_versions_to_delete"), follow=nourl)
        if not got:
            # refactored away from here: the call must be seen from its callers
            ctx.ob(R, f, False, "the request was not reached", key="reached")
        for ev, facts in got:
            n += 1
            ok = any(v and k.k == "call" and call_name(k) == "ask_confirm" for k, v in facts.items())
            ctx.ob(R, f, ok, "something is deleted without confirmation", where(f, ev.node), key="unconfirmed")
            u = argn(ev, 1, "url") if ev.name == "http_api" else argn(ev, 0, "url")
            ctx.ob(R, f, seen_in(u, shown.get("x", ())), "what is deleted is not what was shown", where(f, ev.node), key="other")
    ctx.count(R, n, 5, "requests to delete")
    f = P.func("devpi.main.Hub.ask_confirm")
    paths = live_paths(trace_paths(ctx, f, {}, self_cls=f.cls, default_raises=(), stop=OUT + FAIL + ("raw_input",)))

    def answer(t):
        return t.k == "call" and call_name(t) in ("raw_input", "input")

    def yes(t):
        if t.k == "cmp" and t.a[0] == "==":
            l, r = t.a[1], t.a[2]
            return cstr(l) == "yes" and has_answer(r) or cstr(r) == "yes" and has_answer(l)
        if t.k == "cmp" and t.a[0] == "in":
            vs = items(t.a[2])
            return has_answer(t.a[1]) and bool(vs) and all(cstr(x) in ("yes", "y") for x in vs)
        return False

    def has_answer(t):
        return contains(t, answer)
    n = 0
    for p in paths:
        t = p.ret
        if t is None or t.k == "c" and not cval(t):
            continue
        n += 1
        auto = any(v and k.k == "attr" and k.a[1] == "yes" for k, v in p.st.facts.items())
        said = any(v and yes(k) for k, v in p.st.facts.items())
        ctx.ob(R, f, auto or said or yes(t), "it takes something else for yes", path=p, key="yes")
    ctx.count(R, n, 2, "ways of confirming")
    n = 0
    for g in P.iter_funcs("devpi"):
        for c in own_calls(g, "add_argument"):
            d = kwarg(c, "dest")
            if d is not None and literal(d) == "yes" or any(literal(a) == "--yes" for a in c.args) and d is None:
                n += 1
                ctx.ob(R, g, kwarg(c, "action") is not None and literal(kwarg(c, "action")) == "store_true" and (kwarg(c, "default") is None or isinstance(kwarg(c, "default"), ast.Constant) and not kwarg(c, "default").value), "not asking is not something the user has to ask for", where(g, c), key="option")
        for x in walk_own(g.node):
            if isinstance(x, ast.Attribute) and x.attr == "yes" and isinstance(x.ctx, ast.Store):
                ctx.ob(R, g, False, "the option is set by something else than the user", where(g, x), key="set")
    ctx.count(R, n, 1, "options to not be asked")


def plain(t):
    """an address without what doesn't change what it names"""
    while t is not None:
        if t.k == "attr" and t.a[1] in ("url", "url_nofrag"):
            t = t.a[0]
        elif t.k == "call" and call_name(t) in ("URL", "str") and len(call_args(t)) == 1:
            t = call_args(t)[0]
        elif t.k == "call" and call_name(t) == "replace" and call_recv(t) is not None and not call_args(t) and set(call_kwargs(t)) <= {"query", "fragment"}:
            t = call_recv(t)
        else:
            break
    return t


def seen_in(u, shown):
    """the address, or what its parts were made from, was shown before"""
    if u is None:
        return False
    parts = []

    def split(t):
        t = plain(t)
        if t.k == "call" and call_name(t) in ("addpath", "joinpath") and call_recv(t) is not None:
            for x in (call_recv(t),) + tuple(call_args(t)):
                split(x)
        elif t.k == "c":
            if not isinstance(cval(t), str) or ".." in cval(t) or cval(t).startswith("/") or "://" in cval(t):
                parts.append(t)
        else:
            parts.append(t)
    split(u)
    exact, groups = set(), set()

    def show_(t):
        t = plain(t)
        if t.k == "bin" or t.k in ("fstr", "tup", "list") or t.k == "call" and call_name(t) in ("format", "join", "sorted", "repr"):
            for x in (call_args(t) + ((call_recv(t),) if call_recv(t) is not None else ()) if t.k == "call" else t.a):
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        show_(y)
            return
        exact.add(t)
        while t.k in ("sub", "attr", "elem"):
            if t.k == "elem":
                groups.add(t)
            t = t.a[0]
    for s in shown:
        show_(s)

    def source(t):
        """the addresses a collection was read from"""
        return {plain(argn_(x)) for x in subterms(t) if x.k == "call" and call_name(x) == "http_api" and argn_(x) is not None}

    def argn_(x):
        return call_kwargs(x).get("url", call_args(x)[1] if len(call_args(x)) > 1 else None)

    def found(t):
        if t in exact:
            return True
        x = t
        while x.k in ("sub", "attr", "elem"):
            if x.k == "elem" and x in groups:
                return True
            x = x.a[0]
        # all of what is there was shown
        return any(t in source(g) for g in groups)
    return bool(parts) and all(found(t) for t in parts)


def good_status(k, v, isreply=lambda t: True):
    """the fact says that an answer was no failure"""
    def status(t):
        return t.k == "attr" and t.a[1] == "status_code" and isreply(t.a[0])
    if k.k == "attr" and k.a[1] == "ok" and isreply(k.a[0]):
        return v
    if k.k != "cmp":
        return False
    op, l, r = k.a
    num = lambda t: cval(t) if t.k == "c" and isinstance(cval(t), int) else None  # noqa
    if op == "in" and status(l):
        vs = [num(x) for x in items(r)] or ([x for x in cval(r)] if r.k == "c" and isinstance(cval(r), (tuple, frozenset)) else [None])
        return v and all(x is not None and x < 400 for x in vs)
    if op == "==" and (status(l) and num(r) is not None or status(r) and num(l) is not None):
        x = num(r) if status(l) else num(l)
        return v and x < 400
    if op == "<" and status(l) and num(r) is not None:       # status < n
        return v and num(r) <= 400
    if op == "<=" and status(l) and num(r) is not None:
        return v and num(r) < 400
    if op == "<=" and status(r) and num(l) is not None:      # n <= status
        return not v and num(l) <= 400
    if op == "<" and status(r) and num(l) is not None:
        return not v and num(l) < 400
    return False


def failures(ctx):
    R = ctx.rule("C02.report", "a request which fails or is answered with an error ends the command, unless the caller asked to handle that")
    P = ctx.P
    hub = P.cls("devpi.main.Hub")
    for name in ("fatal", "fatal_code"):
        f = hub.method(name)
        paths = trace_paths(ctx, f, {}, self_cls=hub, default_raises=())
        for p in paths:
            ctx.ob(R, f, p.kind == "raise" and p.exc.a[0].rpartition(".")[2] == "SystemExit", "it doesn't end the command", path=p, key="ends")
        for x in walk_own(f.node):
            if isinstance(x, ast.Call) and src(x.func) in ("SystemExit", "sys.exit"):
                a = x.args[0] if x.args else None
                v = literal(a) if a is not None else None
                isp = isinstance(a, ast.Name) and a.id in f.params()
                dflt = [literal(d) for d in list(f.node.args.defaults) + [d for d in f.node.args.kw_defaults if d is not None]]
                ctx.ob(R, f, isinstance(v, (int, str)) and bool(v) or isp and all(d != 0 and d is not None for d in dflt), "the command ends as if nothing was wrong", where(f, x), key="status")
    f = hub.method("http_api")
    par = "fatal"
    dflt = dict(zip(f.params()[len(f.params()) - len(f.node.args.defaults):], f.node.args.defaults))
    dflt.update({a.arg: d for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None})
    ctx.ob(R, f, par in dflt and literal(dflt[par]) is True, "errors don't end the command by default", key="default")

    def lab(ev, st):
        if ev.name in ("request", "send") and ev.recv is not None and has_attr(ev.recv, "http"):
            return "send"
    paths = tp(ctx, f, {"send": lab}, self_cls=hub, raises={"send": ("?",)}, default_raises=(), events=("request", "send"),
                        stop=OUT + QUIET + ("set_devpi_auth_header", "HTTPReply"), args={par: TRUE})
    rets = live_paths(paths)
    ctx.ob(R, f, bool(rets) and some(paths, "send!"), "no request was seen", key="instances")
    for p in rets:
        ok = any(good_status(k, v) for k, v in p.st.facts.items())
        ctx.ob(R, f, ok and p.has("send") and not p.has("send!"), "an error or failure is not reported", path=p, key="returns")
    # subprocesses
    for name in ("popen", "popen_check", "popen_output"):
        g = hub.method(name)

        def run(ev, st):
            n = ev.name
            if n in ("check_call", "check_output"):
                return "run"
            if n in ("wait", "communicate", "poll") and ev.recv is not None and has_call(ev.recv, "Popen") or n in ("call", "run") and ev.recv is not None and (refname(ev.recv) or "") == "subprocess":
                return "ran"
        paths = tp(ctx, g, {"r": run}, self_cls=hub, raises={"run": ("CalledProcessError",)}, default_raises=(), events=("check_call", "check_output", "wait", "communicate", "call", "run", "Popen"), stop=OUT + ("report_popen",),
                            branch=lambda t, v, st: (("bad" if v else "fine") if t.k in ("call", "attr") and has_call(t, "wait", "call", "run", "communicate", "poll") else ("fine" if v else "bad") if t.k == "cmp" and t.a[0] == "==" and has_call(t, "wait", "call", "run", "poll") else None))
        ctx.ob(R, g, some(paths, "run", "ran"), "no process is run", key="instances")
        for p in live_paths(paths):
            if p.has("run!"):
                ctx.ob(R, g, False, "the failure of a process is not reported", path=p, key="process")
            elif p.has("ran"):
                ctx.ob(R, g, p.has("fine") and not p.has("bad"), "the failure of a process is not reported", path=p, key="process")
    # those who handle errors themselves
    n = 0
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        cs = {id(c) for c in own_calls(f, "http_api") if kwarg(c, "fatal") is not None and literal(kwarg(c, "fatal")) is not True}
        cs |= {id(x) for x in walk_own(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "post", "put", "patch", "delete", "request") and src(x.func.value).rpartition(".")[2] == "http"}
        if not cs or f.name == "http_api" or f.name == "print_version":
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        reply = []

        def lab(ev, st):
            if id(ev.node) in cs:
                reply.append(ev)
                return "ask"
            if ev.name in ("error", "warn", "warning"):
                return "told"

        def branch(t, v, st):
            if t.k in ("cmp", "attr") and has_attr(t, "status_code", "ok") and has_call(t, "http_api", "get", "post", "put", "patch", "delete", "request"):
                return "good" if good_status(t, v) else None
        paths = tp(ctx, top, {"a": lab}, self_cls=top.cls, default_raises=(), events=("http_api", "get", "post", "put", "patch", "delete", "request", "error", "warn", "warning"),
                            stop=OUT + QUIET + ("http_api", "_configure_from_server_api", "Archive", "unpack", "UnpackedPackage", "configure_fromurl"), follow=nourl, rounds=1, branch=branch)
        ctx.ob(R, f, bool(reply), "the request was not reached", key="reached")
        for p in live_paths(paths):
            if not p.has("ask"):
                continue
            n += 1
            good = "good" in p.trace[p.last("ask"):]
            told = "told" in p.trace[p.last("ask"):]
            nothing = p.ret is None or p.ret is NONE or p.ret.k == "c" and not cval(p.ret)
            given = p.ret is not None and contains(p.ret, lambda x: x.k == "call" and call_name(x) == "http_api")
            unasked = nothing and f.name in LOOKUPS
            ctx.ob(R, f, good or told or given or unasked, "nobody hears of the error the request was answered with", path=p, key="handled")
    ctx.count(R, n, 5, "paths handling errors themselves")
    f = P.func("devpi.push.main")
    check_push(ctx, R, f)
    f = P.func("devpi.upload.Uploader.post")
    paths = tp(ctx, f, {"ask": lambda ev, st: ev.name == "post" and ev.recv is not None and has_attr(ev.recv, "http")}, self_cls=f.cls, default_raises=(), events=("post",), stop=OUT + QUIET + ("derive_token", "set_devpi_auth_header"))
    ctx.ob(R, f, some(paths, "ask"), "nothing is uploaded", key="instances")
    for p in live_paths(paths):
        dry = any(v and k.k == "attr" and k.a[1] == "dryrun" for k, v in p.st.facts.items())
        ctx.ob(R, f, dry and not p.has("ask") or p.has("ask") and any(good_status(k, v) for k, v in p.st.facts.items()), "a failed upload is not reported", path=p, key="upload")


# those who answer with nothing when there was an error; their callers are checked
LOOKUPS = {"get_matching_versioninfo"}


def check_push(ctx, R, f):
    def lab(ev, st):
        if ev.name == "execute":
            return "push"

    def iters(w, e, st):
        return "action" if w == "next" and has_call(e, "execute") else None

    def branch(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and contains(t.a[1], lambda x: x.k == "elem"):
            vs = [cval(x) for x in items(t.a[2]) if x.k == "c"] if items(t.a[2]) else list(cval(t.a[2])) if t.a[2].k == "c" and isinstance(cval(t.a[2]), (tuple, frozenset)) else []
            if vs and all(isinstance(x, int) and (x < 400 or x == 410) for x in vs):
                return "fine" if v else "bad"
    paths = tp(ctx, f, {"p": lab}, self_cls=f.cls, default_raises=(), events=("execute",), stop=OUT + QUIET + ("parse_target", "execute", "splitbasename", "parse_requirement"), branch=branch, iters=iters, follow=nourl, dedupe=False)
    rets = [p for p in live_paths(paths) if p.has("push")]
    ctx.ob(R, f, bool(rets), "nothing is pushed", key="push-instances")
    # the loop adds to a variable which is looked at after it
    if f.node.body:
        last = [x for x in f.node.body if isinstance(x, ast.If) and isinstance(x.test, ast.Name) and any(True for y in x.body for c in ast.walk(y) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in FAIL)]
        loops = [i for i, x in enumerate(f.node.body) if any(isinstance(y, (ast.For, ast.While)) for y in ast.walk(x))]
        if last and loops and f.node.body.index(last[-1]) > loops[-1] and accumulates(f, last[-1].test.id) == "all":
            ctx.ob(R, f, True, "", key="push")
            return
    for p in rets:
        acc = [accumulates(f, k.a[0]) for k, v in p.st.facts.items() if not v and k.k == "phi"]
        good = any(good_status(k, v, lambda t: has_call(t, "execute")) for k, v in p.st.facts.items()) or "all" in acc
        ctx.ob(R, f, good and (any(acc) or not p.has("bad") and p.trace.count("action") == p.trace.count("fine")), "a failed push is not reported", path=p, key="push")


def accumulates(f, name):
    """a variable which is set by every failed item of a loop and stays set"""
    good = False

    def failing(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.NotIn):
                vs = literal(x.comparators[0])
                if isinstance(vs, (tuple, list, set)) and all(isinstance(v, int) and (v < 400 or v == 410) for v in vs):
                    return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id != name:
                for y in walk_own(f.node):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets) and failing(y.value):
                        return True
        return False
    for loop in walk_own(f.node):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        for x in ast.walk(loop):
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.NamedExpr)) else []
            if not any(isinstance(t, ast.Name) and t.id == name for t in tg):
                continue
            if isinstance(x, ast.AugAssign):
                if not isinstance(x.op, ast.BitOr) or not failing(x.value):
                    return False
            elif isinstance(x.value, ast.Constant) and x.value.value:
                ifs = [i for i in ast.walk(loop) if isinstance(i, ast.If) and x in i.body]
                if not ifs or not failing(ifs[0].test):
                    return False
            elif isinstance(x.value, ast.BoolOp) and isinstance(x.value.op, ast.Or):
                if not any(isinstance(v, ast.Name) and v.id == name for v in x.value.values) or not failing(x.value):
                    return False
            else:
                return False
            good = True
    if good:
        inside = {id(y) for x in walk_own(f.node) if isinstance(x, (ast.For, ast.While)) for y in ast.walk(x)}
        first = [x for x in walk_own(f.node) if isinstance(x, ast.Assign) and id(x) not in inside and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)]
        if any(failing(x.value) and "status_code" in src(x.value) for x in first):
            return "all"
    return good


def nonzero(t):
    return t is not None and t.k == "c" and isinstance(cval(t), (int, str)) and bool(cval(t))


def status(ctx):
    R = ctx.rule("C02.status", "commands which go on after a failure report it in the exit status at the end")
    P = ctx.P
    # the value of a command is the exit status
    f = P.func("devpi.main.main")
    paths = live_paths(tp(ctx, f, {}, self_cls=None, default_raises=(), stop=("initmain",)))
    ctx.ob(R, f, bool(paths), "no command is run", key="main-instances")
    for p in paths:
        t = p.ret
        ctx.ob(R, f, t is not None and t.k == "call" and has_call(t, "initmain"), "the result of the command is dropped", path=p, key="main")
    m = P.module("devpi.__main__")
    ok = False
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call) and src(x.func) in ("sys.exit", "exit", "SystemExit") and x.args and any(isinstance(y, ast.Call) and src(y.func).rpartition(".")[2] == "main" for y in ast.walk(x.args[0])):
            ok = True
    ctx.ob(R, f, ok, "the exit status gets lost when run as a module", where=m.path, key="module")
    # several requests or test runs

    def several(qual, event, bad, extra_stop=(), key="", prune=()):
        def br(t, v, st):
            if v and t.k == "attr" and t.a[1] in prune:
                return PRUNE
            return bad(t, v)
        f = P.func(qual)

        def lab(ev, st):
            return "do" if ev.name == event and (event != "post" or has_attr(ev.recv or NONE, "http")) else None
        paths = tp(ctx, f, {"do": lab}, self_cls=f.cls, default_raises=(), events=(event,), branch=br, stop=OUT + QUIET + (event,) + extra_stop, follow=nourl, dedupe=False,
                   iters=lambda w, e, st: PRUNE if w == "next" and (st.auto.count("do") >= 2 or "fatal" in st.auto) else None)
        ctx.ob(R, f, some(paths, "bad"), "failures are not looked at", key=key + "-instances")
        for p in live_paths(paths):
            tr = [x for x in p.trace if x in ("do", "bad", "good")]
            seen = True
            for i, x in enumerate(tr):
                if x == "do" and not (i + 1 < len(tr) and tr[i + 1] in ("bad", "good")):
                    seen = False
            ctx.ob(R, f, seen and (not p.has("bad") or nonzero(p.ret)), "a failure is not part of the exit status", path=p, key=key)

    def httpbad(t, v):
        if t.k in ("cmp", "attr") and has_call(t, "post") and (has_attr(t, "status_code", "ok")):
            return "good" if good_status(t, v) else "bad"
    several("devpi.refresh.main", "post", httpbad, key="refresh")

    def retbad(t, v):
        if has_call(t, "runtox"):
            if t.k == "cmp" and t.a[0] == "==" and any(x.k == "c" and cval(x) == 0 for x in t.a[1:]):
                return "good" if v else "bad"
            if t.k == "call":
                return "bad" if v else "good"
        if t.k == "call" and call_name(t) == "get_matching_versioninfo":
            return None if v else "bad"
        if t.k == "cmp" and t.a[0] == "is" and t.a[2] is NONE and t.a[1].k == "call" and call_name(t.a[1]) == "get_matching_versioninfo":
            return "bad" if v else None
    several("devpi.test.main", "runtox", retbad, ("get_links", "find_sdist_and_wheels", "prepare_toxrun_args", "get_matching_versioninfo", "switch_to_temporary", "DevIndex"), key="test", prune=("list", "index"))
    f = P.func("devpi.test.main")
    got = []

    def lab(ev, st):
        if ev.name in ("get_links", "find_sdist_and_wheels", "runtox") and "fatal" not in st.auto:
            got.append((ev, dict(st.facts)))
            return "use"
    tp(ctx, f, {"u": lab}, self_cls=None, default_raises=(), events=("get_links", "runtox", "get_matching_versioninfo"), stop=OUT + QUIET + ("get_links", "find_sdist_and_wheels", "prepare_toxrun_args", "get_matching_versioninfo", "switch_to_temporary", "DevIndex", "runtox"), follow=nourl)
    for ev, facts in got:
        if ev.name == "get_links":
            ctx.ob(R, f, any(v and k.k == "call" and call_name(k) == "get_matching_versioninfo" or not v and k.k == "cmp" and k.a[0] == "is" and has_call(k.a[1], "get_matching_versioninfo") and k.a[2] is NONE for k, v in facts.items()), "a project which could not be looked up is tested", where(f, ev.node), key="test-lookup")
    ctx.count(R, len(got), 2, "uses of what was looked up")
    # the result of the tests
    f = P.func("devpi.test.DevIndex.runtox")
    paths = tp(ctx, f, {"run": lambda ev, st: ev.name in ("popen_check", "popen")}, self_cls=f.cls, raises={"run": ("SystemExit",)}, default_raises=(), events=("popen_check", "popen"),
                        stop=OUT + QUIET + ("get_tox_args", "post_tox_json_report", "getvenvbin", "popen_check", "popen", "add_auth_to_url", "simpleindex_auth", "chdir"), follow=nourl)
    ctx.ob(R, f, some(paths, "run!"), "no tests are run", key="runtox-instances")
    for p in live_paths(paths):
        if not p.has("run!"):
            continue
        zero = any(v and k.k == "cmp" and k.a[0] == "==" and any(x.k == "c" and cval(x) == 0 for x in k.a[1:]) for k, v in p.st.facts.items())
        ctx.ob(R, f, nonzero(p.ret) or zero or p.ret is not None and contains(p.ret, lambda x: x.k == "exc"), "failed tests are not reported", path=p, key="runtox")
    # nothing found to remove
    f = P.func("devpi.list_remove.main_remove")
    paths = tp(ctx, f, {}, self_cls=None, default_raises=(), events=("http_api",), stop=OUT + QUIET + ("http_api", "ask_confirm", "get_versions_to_delete", "confirm_delete"), follow=nourl,
                        branch=lambda t, v, st: ("some" if v else "none") if t.k == "call" and call_name(t) == "get_versions_to_delete" else None)
    ctx.ob(R, f, some(paths, "none"), "it doesn't matter whether something was found", key="remove-instances")
    for p in live_paths(paths):
        ctx.ob(R, f, not p.has("none") or nonzero(p.ret), "that nothing was found is not reported", path=p, key="remove")


def check(ctx):
    confirm(ctx)
    failures(ctx)
    status(ctx)


LR = "client/devpi/list_remove.py"
MN = "client/devpi/main.py"
SELFTEST = [
    (LR, "        if confirm_delete_file(hub, url):\n            hub", "        if args.force or confirm_delete_file(hub, url):\n            hub"),
    (LR, "    return hub.ask_confirm(\"Are you sure\")\n\n\ndef get_versions", "    hub.ask_confirm(\"Are you sure\")\n    return True\n\n\ndef get_versions"),
    (LR, "    if confirm_delete(hub, ver_to_delete):\n", "    if len(ver_to_delete) == 1 or confirm_delete(hub, ver_to_delete):\n"),
    (LR, "            hub.http_api(\"delete\", proj_url)\n", "            hub.http_api(\"delete\", index_url)\n"),
    (LR, "            for ver, links in ver_to_delete:\n                hub.info(\"deleting release %s of %s\" % (ver, req.project_name))\n", "            for ver in reply.result:\n                hub.info(\"deleting release of %s\" % (req.project_name,))\n"),
    (LR, "        if args.force:\n            url = add_force_flag(url)\n        url = url.url\n        if confirm_delete_file(hub, url):\n            hub.http_api(\"delete\", url)", "        if confirm_delete_file(hub, url.basename):\n            hub.http_api(\"delete\", url.joinpath(\"..\"))"),
    (LR, "            \"No releases or distributions found matching '%s'.\" % args.spec_or_url)\n        return 1\n", "            \"No releases or distributions found matching '%s'.\" % args.spec_or_url)\n        return\n"),
    ("client/devpi/index.py", "    if hub.ask_confirm(\"Are you sure\"):\n        hub", "    if not hub.current.index or hub.ask_confirm(\"Are you sure\"):\n        hub"),
    ("client/devpi/user.py", "    if hub.ask_confirm(\"Are you sure\"):\n        hub", "    if hub.ask_confirm(\"Are you sure\") is not None:\n        hub"),
    ("client/devpi/user.py", "    hub.info(\"About to remove: %s\" % url)\n", "    hub.info(\"About to remove\")\n"),
    (MN, "        return got == \"yes\"\n", "        return got != \"no\"\n"),
    (MN, "        while got not in choices:\n", "        if self.quiet:\n            return True\n        while got not in choices:\n"),
    (MN, "    group.add_argument(\"-y\", action=\"store_true\", dest=\"yes\",\n", "    group.add_argument(\"-y\", action=\"store_true\", dest=\"yes\", default=not sys.stdin.isatty() or True,\n"),
    (MN, "        if r.status_code >= 400:\n            if fatal:", "        if r.status_code >= 500:\n            if fatal:"),
    (MN, "            if fatal:\n                out = self.fatal\n            elif quiet:\n                return reply\n", "            if quiet:\n                return reply\n            elif fatal:\n                out = self.fatal\n"),
    (MN, "        if r.status_code in (200, 201):\n", "        if r.status_code in (200, 201, 409):\n"),
    (MN, "            self.fatal(\"could not connect to %r:\\n%s\" % (url, e))\n        else:", "            self.error(\"could not connect to %r:\\n%s\" % (url, e))\n            return None\n        else:"),
    (MN, "        self._tw.line(msg, red=True)\n        raise SystemExit(1)\n", "        self._tw.line(msg, red=True)\n        raise SystemExit(0)\n"),
    (MN, "        self._tw.line(msg, red=True)\n        raise SystemExit(1)\n", "        self._tw.line(msg, red=True)\n        if not self.quiet:\n            raise SystemExit(1)\n"),
    (MN, "            self.fatal_code(\"command failed\", code=e.returncode)\n", "            self.error(\"command failed\", e.returncode)\n"),
    (MN, "        if ret:\n            self.fatal(\"****** process returned %s\" % ret)\n", "        if ret < 0:\n            self.fatal(\"****** process returned %s\" % ret)\n"),
    ("client/devpi/index.py", "    if reply.status_code >= 400:\n        raise SystemExit(1)\n", "    if reply.status_code > 500:\n        raise SystemExit(1)\n"),
    ("client/devpi/push.py", "            failed = failed or red\n", "            failed = red\n"),
    ("client/devpi/push.py", "            red = int(action[0]) not in (200, 201, 410)\n", "            red = int(action[0]) not in (200, 201, 410, 500)\n"),
    ("client/devpi/push.py", "    failed = r.status_code not in (200, 201)\n", "    failed = False\n"),
    ("client/devpi/push.py", "    if failed:\n        hub.fatal(\"Failure during upload\")", "    if failed:\n        hub.error(\"Failure during upload\")"),
    ("client/devpi/upload.py", "            if r.status_code == 200:\n", "            if r.status_code in (200, 409):\n"),
    ("client/devpi/upload.py", "                hub.fatal(\"POST to %s FAILED\" % self.pypisubmit)\n", "                hub.error(\"POST to %s FAILED\" % self.pypisubmit)\n"),
    ("client/devpi/refresh.py", "            ret = 1\n", "            ret = 0\n"),
    ("client/devpi/refresh.py", "    ret = 0\n    for pkg in args.pkgnames:\n", "    for pkg in args.pkgnames:\n        ret = 0\n"),
    ("client/devpi/test.py", "        all_ret = 0\n        for pkgspec in args.pkgspec:\n", "        for pkgspec in args.pkgspec:\n            all_ret = 0\n"),
    ("client/devpi/test.py", "                if ret != 0:\n                    all_ret = 1\n", "                all_ret = ret\n"),
    ("client/devpi/test.py", "        if r.status_code != 200:\n            self.hub.fatal(\"could not receive\", url)\n", "        if r.status_code == 404:\n            self.hub.fatal(\"could not receive\", url)\n"),
    ("client/devpi/test.py", "        if ret != 0:\n            self.hub.error(\"tox command failed\", ret)\n            return 1\n", "        if ret != 0:\n            self.hub.error(\"tox command failed\", ret)\n"),
    ("client/devpi/test.py", "            if not versioninfo:\n                hub.fatal(\"could not find/receive links for\", pkgspec)\n", "            if not versioninfo:\n                hub.error(\"could not find/receive links for\", pkgspec)\n                continue\n"),
    ("client/devpi/use.py", "        if r.status_code >= 400:\n            message = r.get", "        if r.status_code == 404:\n            message = r.get"),
    ("client/devpi/__main__.py", "    sys.exit(main.main())", "    main.main()"),
    (MN, "        return method(hub, hub.args)\n", "        method(hub, hub.args)\n"),
]
