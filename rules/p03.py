"""P03: passwords, hashes, secrets and credentials in URLs stay where they belong."""
from rules.lib import *  # noqa

MD = "devpi_server.model"
CF = "devpi_server.config"
MI = "devpi_server.mirror"
# what User stores about a password, today and in old databases
SECRET_KEYS = {"password", "pwhash", "pwsalt"}
SECRET_NAMES = {"password", "authpassword", "newpassword", "oldpassword", "passwd", "pwhash", "pwsalt", "newhash", "secret", "basesecret", "pypiauth", "pseudopass", "token", "credentials", "proxyauth",
                "auth_secret", "replica_secret", "userconfig", "mirror_url_authorization_header", "primary_auth", "_primary_auth", "auth_candidates"}
LOGS = ("debug", "info", "warn", "warning", "error", "exception", "fatal", "critical", "log")


def set_value(C, node, seen=()):
    """value of a class level set expression"""
    if isinstance(node, ast.Name) or isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        n = node.id if isinstance(node, ast.Name) else node.attr
        if n in seen:
            return None
        for k in C.mro():
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets) or isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n and s.value is not None:
                    return set_value(C, s.value, seen + (n,))
        v = getattr(C.module, "consts", {}).get(n) if hasattr(C.module, "consts") else None
        return set(v) if v is not None else None
    if isinstance(node, ast.Call):
        fn = node.func
        if isinstance(fn, ast.Name) and fn.id in ("frozenset", "set", "tuple", "list"):
            return set_value(C, node.args[0], seen) if node.args else set()
        if isinstance(fn, ast.Attribute) and fn.attr in ("union", "difference", "intersection"):
            res = set_value(C, fn.value, seen)
            for a in node.args:
                o = set_value(C, a, seen)
                if res is None or o is None:
                    return None
                res = getattr(res, fn.attr)(o)
            return res
    if isinstance(node, ast.BinOp):
        a, b = set_value(C, node.left, seen), set_value(C, node.right, seen)
        if a is None or b is None:
            return None
        return a | b if isinstance(node.op, ast.BitOr) else a - b if isinstance(node.op, ast.Sub) else a & b if isinstance(node.op, ast.BitAnd) else None
    if isinstance(node, (ast.Set, ast.Tuple, ast.List)):
        res = set()
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = set_value(C, e.value, seen)
                if v is None:
                    return None
                res |= v
            else:
                v = literal(e)
                if v is None:
                    return None
                res.add(v)
        return res
    v = literal(node)
    return set(v) if isinstance(v, (tuple, list, set, frozenset)) else None


def term_set(C, t):
    """the set of names a term stands for"""
    n = t.a[1] if t.k == "attr" else (refname(t) or "").rpartition(".")[2] if t.k == "ref" else None
    if n:
        return set_value(C, ast.Name(id=n))
    if t.k in ("tup", "list", "set") and all(x.k == "c" for x in items(t)):
        return {cval(x) for x in items(t)}
    if t.k == "c" and isinstance(cval(t), (tuple, frozenset, list)):
        return set(cval(t))
    return None


def clears(C, t, v):
    """'shown': the key is known to be none of the secret ones; 'secret': it may be one"""
    if t.k == "cmp" and t.a[0] == "in":
        s = term_set(C, t.a[2])
        if s is None:
            return None
        if not s & SECRET_KEYS:
            return "shown" if v else "maybe"
        if s >= SECRET_KEYS:
            return "maybe" if v else "shown"
    return None


def record(ctx):
    R = ctx.rule("P03.record", "what a user object gives out about itself without being asked for credentials never holds a password, hash or salt, and what it reports about changes does not either")
    C = ctx.P.cls(MD + ".User")
    vis = set_value(C, ast.Name(id="visible_keys"))
    ctx.ob(R, C, vis is not None and not vis & SECRET_KEYS, "the keys given out include those of a password", key="visible")
    f = C.method("get")
    cred = f.params()[1] if len(f.params()) > 1 else None
    ctx.ob(R, f, cred is not None and any(literal(d) is False for d in list(f.node.args.defaults) + [d for d in f.node.args.kw_defaults if d]), "credentials are included by default", key="default")

    def br(t, v, st):
        if t.k == "p" and t.a[0] == cred:
            return "cred" if v else "public"
        return clears(C, t, v) or (("full" if v else "empty") if has_attr(t, "key") and t.k != "cmp" else None)

    def it(what, e, itr, st=None):
        return None

    def iters(what, e, st):
        if what != "next":
            return "all" if what == "end" else None
        s = term_set(C, e)
        if s is not None and s >= SECRET_KEYS:
            return "key:hidden"
        return "key"
    paths = trace_paths(ctx, f, {"drop": lambda ev, st: ev.name in ("pop", "__delitem__")}, dels={"drop": lambda e, st: e.kind == "sub"}, branch=br, iters=iters, self_cls=C, default_raises=(), events=("pop",), dedupe=False)

    def ok(p):
        t = p.ret
        if not p.has("public") or p.has("empty") or t is None or t.k == "c":
            return p.has("cred", "empty") or t is None or t.k == "c"
        for x in subterms(t):
            if x.k == "comp":
                for fact_ in x.a[3] if len(x.a) > 3 else ():
                    try:
                        ft, fv = fact_
                    except (TypeError, ValueError):
                        continue
                    if clears(C, ft, fv) == "shown":
                        return True
        if t.k == "comp" or t.k == "dict" and not has_attr(t, "key"):
            # only named entries
            if t.k == "dict" and not any(has_str(t, s) for s in SECRET_KEYS):
                return True
        pend = None
        any_ = False
        for x in p.trace:
            if x in ("key", "key:hidden"):
                any_ = True
                if pend == "key:hidden" or pend == "key":
                    return False
                pend = x
            elif x in ("drop", "shown"):
                pend = None
            elif x == "all":
                any_ = True
                if pend:
                    return False
        return any_ and pend is None
    rets = live_paths(paths)
    ctx.ob(R, f, some(rets, "public"), "there is no public record", key="instances")
    check_paths(ctx, R, f, rets, ok, "the record given out is not restricted to the public keys", key="filter")
    f = C.method("_modify")

    def store(e, st):
        if e.kind != "sub" or has_call(e.base, "update") or e.base.k == "enter" or has_attr(e.base, "key"):
            return None
        if e.base.k == "p" and e.base.a[0] in ("kwargs",):
            return None
        v = e.value
        if v is None or v.k == "c" or not contains(v, lambda x: x.k in ("elem", "p", "sub") and has_param(x, "kwargs", "password", "pwhash")):
            return "masked"
        return "raw"
    paths = trace_paths(ctx, f, {}, stores={"s": store}, branch=lambda t, v, st: clears(C, t, v), iters=lambda w, e, st: "item" if w == "next" and has_param(e, "kwargs") else None, self_cls=C, default_raises=(),
                        follow=lambda g, ev, d: False, dedupe=False)

    def ok2(p):
        clear = False
        for x in p.trace:
            if x == "item":
                clear = False
            elif x == "shown":
                clear = True
            elif x == "raw" and not clear:
                return False
        return True
    ctx.ob(R, f, some(paths, "masked"), "changes are not reported", key="modify-instances")
    check_paths(ctx, R, f, paths, ok2, "the reported changes include password data", key="modify")


def users_of_records(ctx):
    R = ctx.rule("P03.credentials", "a user's record with credentials is only handed to the plugins which check credentials and to the export")
    allowed = {"devpi_server.auth", "devpi_server.importexport"}
    n = 0
    for f, c in callers(ctx.P, "get"):
        k = kwarg(c, "credentials")
        if k is None and not (c.args and literal(c.args[0]) is True and len(c.args) == 1 and not c.keywords):
            continue
        if k is not None and literal(k) is False:
            continue
        n += 1
        ctx.ob(R, f, f.module.name in allowed, "a record with credentials is taken", key="who", where=where(f, c))
    ctx.count(R, n, 2, "places which ask for credentials")
    n = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        n += 1
        if f.module.name in ("devpi_server.views", "devpi_server.view_auth", "devpi_web.views", "devpi_web.main", "devpi_server.metrics") or f.module.name.startswith("devpi_web"):
            for c in own_calls(f, "get", "get_mutable"):
                b = c.func.value if isinstance(c.func, ast.Attribute) else None
                if isinstance(b, ast.Attribute) and b.attr == "key" and any("user" in x for x in list(names_in(b)) + [a.attr for a in ast.walk(b) if isinstance(a, ast.Attribute)]):
                    ctx.ob(R, f, False, "the stored record of a user is read by something that answers requests", key="raw", where=where(f, c))
            for c in own_calls(f, "USER"):
                ctx.ob(R, f, False, "the stored record of a user is read by something that answers requests", key="raw", where=where(f, c))
    ctx.count(R, n, 100, "functions")
    A = ctx.P.cls("devpi_server.auth.Auth")
    got = []
    f = A.method("_validate")
    trace_paths(ctx, f, {"v": lambda ev, st: got.append(ev) if any(x is not None and contains(x, lambda y: y.k == "call" and call_name(y) == "get" and "credentials" in dict(call_kwargs(y))) for x in ev_args(ev)) else None},
                self_cls=A, default_raises=(), events=("hook", "legacy_hook", "get_user"), follow=lambda g, ev, d: False)
    ctx.ob(R, f, all("hook" in show(ev.fterm) for ev in got), "credentials are passed to something else than the authentication plugins", key="plugins")


def names_of(node):
    """identifiers whose value (not a property of it) goes into an expression"""
    if isinstance(node, ast.Name):
        return {node.id}
    if isinstance(node, ast.Attribute):
        return {node.attr}
    if isinstance(node, ast.Call):
        fn = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else ""
        if fn in ("len", "bool", "type", "sorted_keys", "isinstance", "get_caller_location", "keys", "new_proxy_auth", "getjson"):
            return set()
        res = set()
        for a in list(node.args) + [k.value for k in node.keywords]:
            res |= names_of(a)
        if isinstance(node.func, ast.Attribute) and fn in ("join", "format", "encode", "decode", "strip", "items", "values", "copy", "lower", "upper", "get"):
            if fn == "get" and node.args and literal(node.args[0]) is not None and literal(node.args[0]) not in SECRET_KEYS:
                return res
            res |= names_of(node.func.value)
        return res
    if isinstance(node, (ast.Compare, ast.Lambda)):
        return set()
    if isinstance(node, ast.IfExp):
        return names_of(node.body) | names_of(node.orelse)
    if isinstance(node, ast.Subscript):
        s = literal(node.slice)
        if isinstance(s, str):
            return {s}
        return names_of(node.value)
    res = set()
    for c in ast.iter_child_nodes(node):
        res |= names_of(c)
    return res


def logs(ctx):
    R = ctx.rule("P03.log", "no log message and no error answer is made from a password, hash, secret, token or a record holding them")
    n = m = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        for c in (x for x in walk_own(f.node) if isinstance(x, ast.Call)):
            fn = c.func
            if isinstance(fn, ast.Attribute) and fn.attr in LOGS and any("log" in x.lower() for x in list(names_in(fn.value)) + [a.attr for a in ast.walk(fn.value) if isinstance(a, ast.Attribute)]):
                n += 1
                used = set()
                for a in list(c.args) + [k.value for k in c.keywords]:
                    used |= names_of(a)
                ctx.ob(R, f, not used & SECRET_NAMES, "a log message contains %s" % ", ".join(sorted(used & SECRET_NAMES)), key="log", where=where(f, c))
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
            if name in ("apireturn", "apifatal", "apiresult", "abort", "abort_submit", "abort_authenticate", "HTTPForbidden", "HTTPBadRequest", "HTTPNotFound", "fatal", "Fatal"):
                m += 1
                used = set()
                for a in list(c.args) + [k.value for k in c.keywords]:
                    used |= names_of(a)
                bad = used & SECRET_NAMES
                if bad:
                    # only what the model calls the public record, or a new token for whoever just proved the password
                    def fine(x):
                        if x == "userconfig":
                            return all(isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "get" and not s.keywords and not s.args for s in assigned(f, x))
                        return x == "proxyauth" and all(isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "new_proxy_auth" for s in assigned(f, x))
                    ctx.ob(R, f, all(fine(x) for x in bad), "an answer contains %s" % ", ".join(sorted(bad)), key="answer", where=where(f, c))
    ctx.count(R, n, 200, "log calls")
    ctx.count(R, m, 100, "answers")


def assigned(f, name):
    res = []
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
            res.append(x.value)
        elif isinstance(x, ast.NamedExpr) and x.target.id == name:
            res.append(x.value)
    return res or [None]


def keys(ctx):
    R = ctx.rule("P03.secret", "the server secret is only used to derive a key per purpose, the derived keys only to make signers, and a new secret file is only accessible by its owner from the start")
    n = 0
    for f in ctx.P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "basesecret" and isinstance(x.ctx, ast.Load):
                n += 1
                ctx.ob(R, f, f.module.name == CF and f.name in ("get_derived_key", "basesecret"), "the secret itself is used", key="base", where=where(f, x))
        for c in own_calls(f, "get_derived_key"):
            n += 1
            ctx.ob(R, f, f.module.name == CF, "a key is derived elsewhere", key="derive", where=where(f, c))
        for name in ("get_auth_secret", "get_replica_secret", "get_validated_secret", "new_secret"):
            for c in own_calls(f, name):
                n += 1
                if name in ("get_validated_secret", "new_secret"):
                    ok = f.module.name == CF
                else:
                    # argument of a signer
                    ok = any(isinstance(y, ast.Call) and c in ast.walk(y) and y is not c and (dotted(y.func) or "").rpartition(".")[2] in ("Auth", "TimedSerializer", "Serializer", "URLSafeTimedSerializer") for y in walk_own(f.node))
                    if not ok:
                        for s in walk_own(f.node):
                            if isinstance(s, ast.Assign) and s.value is c and isinstance(s.targets[0], ast.Name):
                                v = s.targets[0].id
                                uses = [y for y in walk_own(f.node) if isinstance(y, ast.Name) and y.id == v and isinstance(y.ctx, ast.Load)]
                                ok = bool(uses) and all(any(isinstance(y, ast.Call) and u in list(y.args) + [k.value for k in y.keywords] and (dotted(y.func) or "").rpartition(".")[2] in ("Auth", "TimedSerializer", "Serializer") for y in walk_own(f.node)) for u in uses)
                        ok = ok or f.module.name == CF and name in ("get_auth_secret", "get_replica_secret")
                ctx.ob(R, f, ok, "a derived key is used for something else than signing", key="use", where=where(f, c))
    ctx.count(R, n, 6, "uses of secrets")
    f = ctx.P.func(CF + ".gensecret")

    def lab(ev, st):
        k = ev.kwargs.get("mode")
        if ev.name == "touch":
            k = k if k is not None else argn(ev, 0)
            return "private" if k is not None and k.k == "c" and isinstance(cval(k), int) and not cval(k) & 0o077 else "public"
        if ev.name == "open" and refname(ev.fterm) == "os.open":
            k = k if k is not None else argn(ev, 2)
            return "private" if k is not None and k.k == "c" and not cval(k) & 0o077 else "public"
        if ev.name == "umask":
            a = argn(ev, 0)
            return "private" if a is not None and a.k == "c" and cval(a) & 0o077 == 0o077 else None
        if ev.name in ("write_bytes", "write_text", "write"):
            return "write" if any(has_call(x, "new_secret") for x in ev_args(ev)) else None
        if ev.name == "get_validated_secret":
            return "check"

    def br(t, v, st):
        if t.k == "call" and call_name(t) in ("exists", "is_file") and has_attr(t, "secret_path"):
            return "exists" if v else "missing"
        if t.k == "cmp" and has_str(t, "win32"):
            return (PRUNE if v else None) if t.a[0] == "==" else None
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, default_raises=(), events=("touch", "open", "umask", "write_bytes", "write_text", "write", "get_validated_secret"), follow=lambda g, ev, d: None if g.module.name == CF and g.cls is None else False)
    ctx.ob(R, f, some(paths, "write"), "no secret is written", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("write") or p.has("private") and p.idx("private") < p.idx("write") and not p.has("public"), "the secret is written to a file others may be able to read", key="mode")
    check_paths(ctx, R, f, paths, lambda p: not p.has("write") or p.has("missing"), "an existing secret is overwritten", key="overwrite")
    f = ctx.P.func(CF + ".new_secret")
    paths = trace_paths(ctx, f, {}, default_raises=())
    ctx.ob(R, f, all(contains(p.ret, lambda x: x.k == "call" and (refname(x.a[0]) or "").startswith("secrets.")) or has_call(p.ret, "urandom") for p in live_paths(paths)), "new secrets are predictable", key="random")


def urls(ctx):
    R = ctx.rule("P03.url", "credentials in URLs are masked wherever a URL is shown, are not part of what is stored about links of a mirror, and are not kept in the node's information about its primary")
    C = ctx.P.cls("devpi_common.url.URL")
    f = C.method("__repr__")

    def br(t, v, st):
        a = t.a[1] if t.k == "attr" else None
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            o = t.a[1] if t.a[2] is NONE else t.a[2]
            a, v = (o.a[1] if o.k == "attr" else None), not v
        if a in ("username", "password"):
            return (a if v else "no-" + a)
        return None
    paths = trace_paths(ctx, f, {}, branch=br, self_cls=C, default_raises=(), follow=lambda g, ev, d: None if g.cls is C and g.name not in ("replace", "url") else False)

    def masked(p, name):
        if p.has("no-" + name):
            return True
        return contains(p.ret, lambda x: x.k == "call" and call_name(x) == "replace" and dict(call_kwargs(x)).get(name) is not None and dict(call_kwargs(x))[name].k == "c")
    for n in ("username", "password"):
        check_paths(ctx, R, f, live_paths(paths), lambda p: masked(p, n), "the %s is shown" % n, key="repr-" + n)
    # outermost object shown is the masked one
    check_paths(ctx, R, f, live_paths(paths), lambda p: not (p.has("username", "password") and not has_call(p.ret, "replace")), "the unmasked URL is shown", key="repr")
    M = ctx.P.cls(MI + ".MirrorStage")
    f = M.method("mirror_url_without_auth")
    paths = trace_paths(ctx, f, {}, self_cls=M, default_raises=(), follow=lambda g, ev, d: False)
    check_paths(ctx, R, f, live_paths(paths), lambda p: stripped(p.ret), "the URL still holds credentials", key="without")
    n = 0
    for name in ("_async_fetch_releaselinks", "_get_remote_projects"):
        f = M.method(name)
        got = []

        def lab(ev, st):
            if ev.name in ("httpget", "async_httpget"):
                got.append(ev)
            if ev.name in ("parse_index", "parse_index_v1_json"):
                got.append(ev)
        trace_paths(ctx, f, {"x": lab}, self_cls=M, default_raises=(), events=("httpget", "async_httpget", "parse_index", "parse_index_v1_json"), follow=lambda g, ev, d: False)
        for ev in got:
            n += 1
            u = argn(ev, 0, "url")
            if ev.name.startswith("parse"):
                u = argn(ev, 0, "disturl")
                ctx.ob(R, f, u is not None and stripped(u), "links are stored with the credentials of the mirror", key="links", where=where(f, ev.node))
            else:
                ctx.ob(R, f, u is not None and (stripped(u) or has_attr(u, "mirror_url_without_auth")), "the URL requested holds credentials", key="request", where=where(f, ev.node))
    ctx.count(R, n, 4, "uses of the mirror URL")
    # messages made from the mirror URL show it by its masked representation
    n = 0
    for f in ctx.P.iter_funcs("devpi_server.mirror", "devpi_server.mirror_plugin", "devpi_server.model", "devpi_server.views"):
        taint = {"mirror_url"}
        for x in walk_own(f.node):
            if isinstance(x, ast.Assign) and mentions(x.value, {"mirror_url"}) and isinstance(x.targets[0], ast.Name) and len(x.targets) == 1:
                taint.add(x.targets[0].id)
        for x in walk_own(f.node):
            for bad, w in formatted(x, taint):
                n += 1
                ctx.ob(R, f, not bad, "a message shows the credentials of the mirror URL", key="message", where=where(f, w))
    ctx.count(R, n, 3, "messages made from the mirror URL")
    K = ctx.P.cls(CF + ".Config")
    setters = [g for g in ctx.P.iter_funcs(CF) if g.cls is K and g.name == "primary_url" and any(src(d).endswith(".setter") for d in g.node.decorator_list)]
    ctx.ob(R, K, bool(setters), "the URL of the primary is kept as given", key="setter")
    for g in setters:
        V = T("p", g.params()[1])
        got = []

        def st_(e, st):
            if e.kind == "attr" and e.name == "_primary_url":
                got.append(e.value)
                return "set%d" % (len(got) - 1)

        def br(t, v, st):
            if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and V in t.a[1:]:
                return "none" if v else "given"
            if t is V:
                return "given" if v else "none"
        paths = trace_paths(ctx, g, {}, stores={"s": st_}, branch=br, self_cls=K, default_raises=(), follow=lambda h, ev, d: False)

        def ok(p):
            for x in p.trace:
                if x.startswith("set"):
                    v = got[int(x[3:])]
                    if not p.has("none") and not stripped(v, V):
                        return False
            return any(x.startswith("set") for x in p.trace)
        check_paths(ctx, R, g, paths, ok, "the URL of the primary is kept with its credentials", key="primary")
    # node information
    for f in ctx.P.iter_funcs(CF):
        for x in walk_own(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and literal(x.targets[0].slice) == "masterurl":
                at = {a.attr for a in ast.walk(x.value) if isinstance(a, ast.Attribute)}
                ctx.ob(R, f, "primary_url" in at and "args" not in at, "credentials of the primary URL are stored with the node", key="nodeinfo", where=where(f, x))


def stripped(t, raw=None):
    """a URL whose user information was replaced"""
    for x in subterms(t):
        if x.k == "call" and call_name(x) == "replace":
            kw = dict(call_kwargs(x))
            if "username" in kw and "password" in kw and kw["username"] is NONE and kw["password"] is NONE:
                return True
            if "netloc" in kw and contains(kw["netloc"], lambda y: y.k == "attr" and y.a[1] == "hostname") and not has_attr(kw["netloc"], "username", "password", "netloc"):
                return True
    return False


def mentions(node, taint):
    """an expression whose value includes the URL with its credentials"""
    if isinstance(node, ast.Attribute):
        return node.attr in taint
    if isinstance(node, ast.Name):
        return node.id in taint and node.id != "mirror_url" or node.id == "mirror_url" and "mirror_url" in taint
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        if node.func.attr == "replace" and any(k.arg == "username" for k in node.keywords):
            return False
        if node.func.attr in ("joinpath", "asdir", "asfile", "replace", "addpath"):
            return mentions(node.func.value, taint)
        return False
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("URL", "str"):
        return any(mentions(a, taint) for a in node.args)
    return False


def raw_url(node, taint):
    return mentions(node, taint) or isinstance(node, ast.Attribute) and node.attr == "url" and mentions(node.value, taint)


def formatted(x, taint):
    """(bad, node) for each place the URL is turned into text"""
    import re

    def convs(fmt):
        return re.findall(r"%(?:\([^)]*\))?[-#0 +]*[0-9]*(?:\.[0-9]+)?([a-zA-Z%])", fmt) if isinstance(fmt, str) else []
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
        args = x.right.elts if isinstance(x.right, ast.Tuple) else [x.right]
        cs = [c for c in convs(literal(x.left)) if c != "%"]
        for a, c in zip(args, cs):
            if raw_url(a, taint):
                yield c != "r" or not mentions(a, taint), x
    elif isinstance(x, ast.Call):
        fn = x.func.attr if isinstance(x.func, ast.Attribute) else ""
        if (fn in LOGS or fn.endswith("Error")) and len(x.args) > 1:
            cs = [c for c in convs(literal(x.args[0])) if c != "%"]
            for a, c in zip(x.args[1:], cs):
                if raw_url(a, taint):
                    yield c != "r" or not mentions(a, taint), x
    elif isinstance(x, ast.FormattedValue):
        if raw_url(x.value, taint):
            yield x.conversion != ord("r") or not mentions(x.value, taint), x


def check(ctx):
    record(ctx)
    users_of_records(ctx)
    logs(ctx)
    keys(ctx)
    urls(ctx)


SELFTEST = [
    ("server/devpi_server/model.py", """                if key not in self.visible_keys:
                    del d[key]""", """                if key == "password":
                    del d[key]"""),
    ("server/devpi_server/model.py", """                        if key in self.hidden_keys:
                            value = "*******"
""", ""),
    ("server/devpi_server/model.py", """    visible_keys = ignored_keys.union(info_keys, public_keys)""", """    visible_keys = known_keys"""),
    ("server/devpi_server/views.py", """        userconfig = self.context.user.get()
        apireturn(200, type="userconfig", result=userconfig)""", """        userconfig = self.context.user.get(credentials=True)
        apireturn(200, type="userconfig", result=userconfig)"""),
    ("server/devpi_server/views.py", """            d[user.name] = user.get()""", """            d[user.name] = dict(user.key.get())"""),
    ("server/devpi_server/auth.py", """threadlog.debug("invalid auth token type for user %r", authuser)""", """threadlog.debug("invalid auth token type for user %r: %r", authuser, authpassword)"""),
    ("server/devpi_server/mirror.py", """        response_url = URL(response.url).replace(username=None, password=None)""", """        response_url = URL(response.url)"""),
    ("server/devpi_server/mirror.py", """                "URL %r returned %s %s",
                self.mirror_url,""", """                "URL %s returned %s %s",
                self.mirror_url,"""),
    ("server/devpi_server/config.py", """            value = value.replace(netloc=netloc)
""", ""),
    ("server/devpi_server/config.py", """            config.secret_path.touch(mode=0o600, exist_ok=False)
""", ""),
    ("common/devpi_common/url.py", """        if self.password:
            cloaked = cloaked.replace(password="****")  # noqa: S106
""", ""),
]
