"""C01: the client sends credentials only where they belong."""
from rules.lib import *  # noqa

US = "devpi.use"
CUR = US + ".Current"
OUT = ("line", "info", "debug", "error", "warn", "warning", "fatal", "fatal_code", "error_and_out", "out_json", "print", "write")
GETTERS = {"get_auth", "get_basic_auth", "get_client_cert"}
STORES = {"_auth", "_basic_auth", "_client_cert", "_authdict"}
CREDS = GETTERS | {"add_auth_to_url"}
CRED_ATTRS = {"simpleindex_auth", "searchindex_auth"}
# calls which keep the place a url points to, for constant or no arguments
SAME = {"URL", "str", "_get_normalized_url", "asdir", "asfile", "geturl_nofragment", "url_nofrag"}
PARTS = {"query", "fragment"}


def place(t):
    """the url a term was made from without pointing to another server or
    leaving the tree below it: (base term, additions)"""
    while t is not None:
        if t.k == "attr" and t.a[1] in ("url", "url_nofrag"):
            t = t.a[0]
        elif t.k == "call":
            n, a, r, kw = call_name(t), call_args(t), call_recv(t), call_kwargs(t)
            if n in ("URL", "str", "_get_normalized_url", "add_auth_to_url") and len(a) == 1:
                t = a[0]
            elif n in ("geturl_nofragment", "asdir", "asfile") and r is not None:
                t = r
            elif n == "replace" and r is not None and not a and set(kw) <= PARTS | {"username", "password"}:
                t = r
            elif n == "addpath" and r is not None and a and all(cstr(x) is not None for x in a):
                t = r
            elif n == "joinpath" and r is not None and a and all(cstr(x) is not None and "://" not in cstr(x) and not cstr(x).startswith("//") for x in a):
                t = r
            else:
                return t
        else:
            return t
    return t


def nourl(h, ev, d):
    """the operations on addresses are known"""
    return False if h.module.name == "devpi_common.url" or h.name == "_get_normalized_url" else None


def cred_calls(t, names=GETTERS):
    return [x for x in subterms(t) if x.k == "call" and call_name(x) in names]


def url_of(t):
    a = call_args(t)
    kw = call_kwargs(t)
    return kw.get("url", a[0] if a else None)


def lookup(ctx):
    R = ctx.rule("C01.lookup", "stored credentials are looked up by the address they are asked for, or a part of the tree above it")
    C = ctx.P.cls(CUR)
    f = C.method("_value_from_dict_by_url")
    pd, pu = f.params()[1:3]

    def up(t):
        """the term is the address itself or above it"""
        while True:
            if t.k == "p":
                return t.a[0] == pu
            if t.k == "attr" and t.a[1] in ("url", "parent", "url_nofrag"):
                t = t.a[0]
                continue
            if t.k == "call":
                n, a, r, kw = call_name(t), call_args(t), call_recv(t), call_kwargs(t)
                if n in ("URL", "str") and len(a) == 1 and not kw:
                    t = a[0]
                    continue
                if n in ("URL", "joinpath") and len(a) >= 1:
                    rest = a[1:] if n == "URL" else a
                    if all(cstr(x) in ("..", "../", ".", "./") for x in rest):
                        t = a[0] if n == "URL" else r
                        continue
                    return False
                if n == "replace" and not a and set(kw) <= PARTS | {"username", "password"} and all(x.k == "c" and not cval(x) for x in kw.values()):
                    t = r
                    continue
                if n in ("geturl_nofragment", "asdir", "asfile"):
                    t = r
                    continue
            return False

    def has_dict(t):
        return contains(t, lambda x: x.k == "p" and x.a[0] == pd)
    paths = live_paths(trace_paths(ctx, f, {}, self_cls=C, default_raises=(), follow=nourl))
    ctx.ob(R, f, any(has_dict(p.ret) for p in paths), "nothing is looked up", key="instances")
    for p in paths:
        t = p.ret
        ok = True
        if has_dict(t):
            if t.k == "call" and call_name(t) == "get" and call_args(t):
                ok = t is not None and call_recv(t).k == "p" and up(call_args(t)[0]) and not any(has_dict(x) for x in call_args(t)[1:])
            elif t.k == "sub":
                ok = t.a[0].k == "p" and up(t.a[1])
            else:
                ok = False
        ctx.ob(R, f, ok, "the credentials are not looked up by the address", path=p, key="by")
    own = {f.name}
    for name, store in (("get_auth", "_get_auth_dict"), ("get_basic_auth", "_get_basic_auth_dict"), ("get_client_cert", "_get_client_cert_dict")):
        g = C.method(name)
        par = "url" if "url" in g.params() else g.params()[1]
        got = []

        def lab(ev, st):
            if ev.name in own:
                got.append((ev, st.facts.get(T("cmp", "is", T("p", par), NONE)), dict(st.facts)))
                return "look"
        paths = live_paths(trace_paths(ctx, g, {"look": lab}, self_cls=C, default_raises=(), events=tuple(own), follow=nourl))
        ctx.ob(R, g, bool(got), "nothing is looked up", key="instances")
        for ev, isnone, facts in got:
            u = argn(ev, 1, "url")
            b = place(u)
            none = any(v and k.k == "cmp" and k.a[0] == "is" and has_param(k.a[1], par) and k.a[2] is NONE for k, v in facts.items())
            falsy = any(not v and k.k == "p" and k.a[0] == par for k, v in facts.items())
            ok = b is not None and (b.k == "p" and b.a[0] == par or (none or falsy) and has_attr(b, "root_url", "login") and not has_attr(b, "index", "simpleindex", "pypisubmit"))
            ctx.ob(R, g, ok, "the credentials of another address are looked up", where(g, ev.node), key="for")
        for p in paths:
            t = p.ret
            if t is None or t.k == "c":
                continue
            outer = [x for x in subterms(t) if x.k == "attr" and x.a[1] in STORES or x.k == "call" and call_name(x) == store]
            # the store shows up inside of the lookup only
            inner = [y for x in subterms(t) if x.k == "call" and call_name(x) in own for y in subterms(x)]
            ok = all(any(o is y or o == y for y in inner) for o in outer)
            ctx.ob(R, g, ok and has_call(t, *own), "the credentials given out are not those looked up", path=p, key="given")
            if name == "get_auth" and t.k == "tup" and len(items(t)) == 2:
                u, tok = items(t)
                ok = tok.k == "call" and call_name(tok) == "get" and call_args(tok)[0] == u and (len(call_args(tok)) == 1 or call_args(tok)[1].k == "c") or tok.k == "sub" and tok.a[1] == u or \
                    any(v and k.k == "cmp" and k.a[0] == "==" and (contains(k.a[1], lambda x: x.k == "elem") or contains(k.a[2], lambda x: x.k == "elem")) for k, v in p.st.facts.items())
                ctx.ob(R, g, ok, "the token given out is not that of the user", path=p, key="user")
    # stored where they can only be found for the server's own addresses
    n = 0
    for name in ("set_auth", "set_basic_auth", "set_client_cert"):
        g = C.method(name)
        got = []

        def st_(e, st):
            if e.kind == "sub" and e.value is not None and contains(e.value, lambda x: x.k == "p"):
                got.append(e)
                return "store"
        paths = trace_paths(ctx, g, {}, stores={"s": st_}, self_cls=C, default_raises=(), follow=lambda h, ev, d: False if h.name in own else nourl(h, ev, d))
        for e in got:
            b = place(e.name)
            if isinstance(b, T) and b.k == "p":
                continue  # the user's entry within those of the server
            n += 1
            ctx.ob(R, g, isinstance(b, T) and b.k == "attr" and b.a[1] == "root_url" or isinstance(b, T) and root_url(b), "the credentials are not stored for the server they were used with", where(g, e.node), key="stored")
    ctx.count(R, n, 3, "places storing credentials")
    # the dictionaries of credentials are not read in another way
    n = 0
    for f in ctx.P.iter_funcs("devpi"):
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr in STORES:
                n += 1
                ctx.ob(R, f, f.module.name == US, "stored credentials are accessed besides looking them up", where(f, x), key="direct")
    ctx.count(R, n, 6, "uses of the stored credentials")


def root_url(t):
    """the address of the server (the property, maybe taken apart)"""
    return has_attr(t, "login", "root_url") and not has_attr(t, "index", "simpleindex", "pypisubmit") and not contains(t, lambda x: x.k in ("p", "free") and x.a[0] not in ("self",))


def cred_ok(t, url, own_url=None):
    """each of the stored credentials a value may hold was looked up for the
    place the request goes to"""
    bad = []
    for x in cred_calls(t):
        u = url_of(x)
        if u is None or place(u) != place(url):
            bad.append(x)
    return bad


def own_param(t, f):
    return t is not None and t.k in ("p", "free")


def requests(ctx):
    R = ctx.rule("C01.requests", "a request carries only credentials looked up for the address it is sent to")
    P = ctx.P
    hub = P.cls("devpi.main.Hub")
    n = 0
    stop = GETTERS | set(OUT) | {"_value_from_dict_by_url", "add_auth_to_url", "http_api", "derive_token", "set_devpi_auth_header", "root_url", "report_popen", "require_valid_current_with_index", "current", "get_current",
                                 "verify_reply_version", "del_auth", "set_auth", "set_basic_auth", "set_client_cert", "_configure_from_server_api", "get_error_message", "unpack", "get_index_url", "get_user_url", "get_simpleindex_url", "get_simpleproject_url", "get_project_url"}
    methods = ("get", "post", "put", "patch", "delete", "head", "options", "push")
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        def is_http(c):
            fn = c.func
            if not isinstance(fn, ast.Attribute):
                return False
            b = fn.value
            return fn.attr in methods + ("request", "send") and isinstance(b, (ast.Attribute, ast.Name)) and (b.attr if isinstance(b, ast.Attribute) else b.id) in ("http", "session")
        calls = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and (is_http(x) or isinstance(x.func, ast.Attribute) and x.func.attr == "http_api" and (kwarg(x, "auth") is not None or kwarg(x, "basic_auth") is not None or kwarg(x, "cert") is not None or len(x.args) > 4))]
        if not calls:
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        nodes = {id(c) for c in calls}
        got = []

        def lab(ev, st):
            if ev.name == "set_devpi_auth_header" or ev.name == "__header__":
                return "header"
            if id(ev.node) in nodes:
                got.append((ev, dict(st.facts)))
                return "send%d" % ev.node.lineno
        done = {"send%d" % c.lineno for c in calls}

        def after(t, v, st):
            # what happens after the last request doesn't matter
            return PRUNE if done <= set(st.auto) else None
        heads = []

        def hlab(ev, st):
            if ev.name == "set_devpi_auth_header":
                heads.append((ev, st))
                st_heads.append(ev)
                return "header"
        st_heads = []
        target = top if top is not f else f
        paths = trace_paths(ctx, target, {"header": hlab, "send": lambda ev, st: lab(ev, st) if ev.name != "set_devpi_auth_header" else None}, self_cls=target.cls, default_raises=(), stop=tuple(stop),
                            events=methods + ("request", "http_api", "set_devpi_auth_header"), rounds=1, branch=after, follow=nourl, quiet=tuple(OUT), iters=lambda w, e, st: PRUNE if w == "next" and done <= set(st.auto) else None)
        ctx.ob(R, f, bool(got), "the request was not reached", key="reached")
        seen = set()
        for ev, facts in got:
            if ev.name == "http_api" or (ev.name in methods and not is_req(ev)):
                url = argn(ev, 1, "url")
            elif ev.name == "request":
                url = argn(ev, 1, "url")
            else:
                url = argn(ev, 0, "url")
            if ev.name == "http_api":
                url = argn(ev, 1, "url")
            vals = {k: ev.kwargs.get(k) for k in ("auth", "basic_auth", "cert") if ev.kwargs.get(k) is not None}
            key = (id(ev.node), str(url), str(sorted((k, str(v)) for k, v in vals.items())))
            if key in seen or url is None:
                continue
            seen.add(key)
            for k, v in sorted(vals.items()):
                n += 1
                ok = True
                why = ""
                bad = cred_ok(v, url)
                if bad:
                    ok = False
                elif has_attr(v, *(STORES | CRED_ATTRS)):
                    ok = False
                elif not cred_calls(v) and not (v.k == "c" or v.k == "p" and v.a[0] in f.params() or from_url(v, url, f)):
                    ok = False
                ctx.ob(R, f, ok, "the request is sent with credentials of another address", where(f, ev.node), key=k)
            # an address which carries credentials itself
            for x in cred_calls(url, {"add_auth_to_url"}):
                n += 1
        hs = {}
        for ev, st in heads:
            hs.setdefault((id(ev.node), str(argn(ev, 1, "auth"))), ev)
        for ev in hs.values():
            a = argn(ev, 1, "auth")
            urls = [u for u in {str(place(argn(e, 1 if e.name in ("request", "http_api") else 0, "url"))): argn(e, 1 if e.name in ("request", "http_api") else 0, "url") for e, _ in got if e.name != "http_api"}.values() if u is not None]
            n += 1
            bad = [x for u in urls for x in cred_ok(a, u)]
            ok = bool(urls) and not bad and (cred_calls(a) or a.k == "c" or own_param(a, f)) and not has_attr(a, *(STORES | CRED_ATTRS))
            ctx.ob(R, f, bool(ok), "the request is sent with the login of another address", where(f, ev.node), key="header")
    ctx.count(R, n, 9, "requests with credentials")
    # nothing else makes the header
    n = 0
    for f in P.iter_funcs("devpi"):
        for s in strings_in(f.node):
            if s.lower() in ("x-devpi-auth", "authorization"):
                n += 1
                ctx.ob(R, f, f.name == "set_devpi_auth_header", "the header with the login is made in another place", key="other-header")
    ctx.count(R, n, 1, "places making the header")
    # addresses with credentials in them
    n = 0
    C = P.cls(CUR)
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        for c in own_calls(f, "replace"):
            if kwarg(c, "password") is None or isinstance(kwarg(c, "password"), ast.Constant):
                continue
            got = []
            trace_paths(ctx, f, {"x": lambda ev, st: got.append(ev) if ev.node is c else None}, self_cls=f.cls, default_raises=(), events=("replace",), stop=tuple(stop), follow=nourl)
            ctx.ob(R, f, bool(got), "the place adding the credentials was not reached", key="embed-reached")
            for ev in got:
                n += 1
                v = ev.kwargs["password"]
                ok = cred_calls(v) and not cred_ok(v, ev.recv) and not cred_ok(ev.kwargs.get("username", NONE), ev.recv)
                ctx.ob(R, f, bool(ok), "credentials of another address are made part of an address", where(f, ev.node), key="embed")
    ctx.count(R, n, 3, "addresses with credentials in them")


def is_req(ev):
    return ev.recv is not None and (has_attr(ev.recv, "http") or ev.recv.k in ("p", "free"))


def from_url(v, url, f):
    """given by the user with the address: a variable of the enclosing function
    which is only set from parts of that address, parameters or constants"""
    roots = {x.a[0] for x in subterms(place(url)) if x.k in ("p", "free", "phi")}
    todo = {x.a[0] for x in subterms(v) if x.k in ("p", "free", "phi") and x.a[0] not in ("self", "hub")}
    if not todo:
        return False
    return all(given(x, f, roots, ()) for x in todo)


def given(name, f, roots, seen):
    import builtins
    if name in roots or name in seen or hasattr(builtins, name) or name in f.module.imports or name in f.module.globals or name in f.module.funcs:
        return True
    g = f
    while g is not None:
        found = name in g.params() and name not in ("self", "hub")
        for x in walk_own(g.node):
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) else []
            if not any(isinstance(n, ast.Name) and n.id == name for t in tg for n in ast.walk(t)):
                continue
            found = True
            if x.value is None:
                continue
            if any(isinstance(a, ast.Attribute) and a.attr in (STORES | CRED_ATTRS | CREDS | {"set_auth"}) for a in ast.walk(x.value)):
                return False
            if not all(given(n.id, g, roots, seen + (name,)) for n in ast.walk(x.value) if isinstance(n, ast.Name)):
                return False
        if found:
            return True
        g = g.parent
    return False


def state(ctx):
    R = ctx.rule("C01.private", "the file with the login tokens is written so that only its owner can read it, and they are put into no other one")
    P = ctx.P
    C = P.cls(US + ".PersistentCurrent")
    f = C.method("_persist")

    def mode(t):
        v = cval(t) if t is not None and t.k == "c" else None
        return v if isinstance(v, int) else None

    def fold(t):
        if t is None:
            return None
        if t.k == "c":
            return mode(t)
        if t.k == "bin" and len(t.a) == 3:
            a, b = fold(t.a[1]), fold(t.a[2])
            if a is None or b is None:
                return None
            try:
                return {"+": a + b, "*": a * b, "|": a | b, "&": a & b, "-": a - b, "Add": a + b, "Mult": a * b, "BitOr": a | b, "BitAnd": a & b, "Sub": a - b}.get(t.a[0])
            except TypeError:
                return None
        if t.k == "attr":
            return None
        return None

    def lab(ev, st):
        if ev.name == "umask":
            m = fold(argn(ev, 0))
            return "mask" if m is not None and m & 0o77 == 0o77 else "unmask"
        if ev.name in ("write_text", "write_bytes", "writelines", "dump"):
            return "write"
        if ev.name == "open":
            if (refname(ev.fterm) or "") == "os.open" or ev.recv is not None and (refname(ev.recv) or "") == "os":
                m = fold(argn(ev, 2, "mode"))
                return "private" if m is not None and m & 0o77 == 0 else "write"
            m = argn(ev, 1, "mode") if ev.recv is None else argn(ev, 0, "mode")
            if m is None or cstr(m) is not None and not set(cstr(m)) & set("wax+"):
                return None
            if argn(ev, None, "opener") is not None:
                return "write"
            return "write"
        if ev.name in ("copy", "copyfile", "move", "rename", "replace") and ev.recv is not None and not has_str(ev.recv, ""):
            return None
    paths = trace_paths(ctx, f, {"x": lab}, self_cls=C, events=("umask", "write_text", "write_bytes", "open", "dump", "writelines"), dedupe=False)
    ctx.ob(R, f, some(paths, "write"), "nothing is written", key="instances")

    def ok(p):
        masked = False
        for x in p.trace:
            if x in ("mask", "private"):
                masked = True
            elif x == "unmask":
                masked = False
            elif x.rstrip("!") == "write" and not masked:
                return False
        return True

    def restored(p):
        masked = False
        for x in p.trace:
            if x == "mask":
                masked = True
            elif x in ("unmask", "unmask!"):
                masked = False
        return not masked
    check_paths(ctx, R, f, paths, ok, "the file is written while others may read new files", key="mode")
    check_paths(ctx, R, f, paths, restored, "the restriction is not taken back", key="restore")
    g = C.method("reconfigure")
    par = "auth"

    def rec(ev, st):
        if ev.name == f.name:
            d, q = argn(ev, 0, "data"), argn(ev, 1, "path")
            if has_attr(q, "auth_path"):
                return "auth:" + ("auth" if has_attr(d, "_authdict") else "other")
            return "current:" + ("auth" if has_attr(d, "_authdict") else "other")
        if ev.name == "pop" and ev.args and cstr(ev.args[0]) == par:
            return "pop"
    def drop(e, st):
        return "pop" if e.kind == "sub" and isinstance(e.name, T) and cstr(e.name) == par else None
    paths = trace_paths(ctx, g, {"r": rec}, dels={"d": drop}, self_cls=C, events=(f.name, "pop"), stop=(f.name,), default_raises=(), rounds=1)
    ctx.ob(R, g, some(paths, "auth:auth"), "the credentials are not kept", key="auth-instances")
    for p in live_paths(paths):
        ctx.ob(R, g, not p.has("current:auth"), "the credentials are put into the file with the current settings", path=p, key="separate")
        tr = list(p.trace)
        ok_ = all("pop" in tr[:i] for i, x in enumerate(tr) if x == "current:other")
        ctx.ob(R, g, ok_, "credentials an older version kept among the settings stay there", path=p, key="legacy")
    # where the credentials live
    B = P.cls(CUR)
    auth_classes = {k.qual for k in P.classes.values() if k.module.name == US and literal(k.find_attr("dict_name") if not isinstance(k.find_attr("dict_name"), tuple) else None) == "_authdict"} if False else set()
    n = 0
    for k in P.classes.values():
        if k.module.name != US:
            continue
        for s in k.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "dict_name" for t in s.targets) and literal(s.value) == "_authdict":
                auth_classes.add(k.name)
    for s in B.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ("_auth", "_basic_auth", "_client_cert"):
            n += 1
            ctx.ob(R, B, isinstance(s.value, ast.Call) and src(s.value.func) in auth_classes, "credentials are kept among the other settings", "%s:%d" % (B.module.path, s.lineno), key="prop-" + s.targets[0].id)
    ctx.count(R, n, 3, "kinds of credentials")
    for h in P.iter_funcs("devpi"):
        for x in walk_own(h.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "PersistentCurrent" and x.args:
                ctx.ob(R, h, any("auth_path" in s for s in [a.attr for a in ast.walk(x.args[0]) if isinstance(a, ast.Attribute)] + list(names_in(x.args[0]))) and len(x.args) == 2 and "auth_path" not in src(x.args[1]), "the credentials are kept in another file", where(h, x), key="paths")


def login(ctx):
    R = ctx.rule("C01.login", "what is kept after logging in is the token the server gave out, the password is only sent to be checked")
    P = ctx.P
    n = 0
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        if not list(own_calls(f, "set_auth")):
            continue
        got = []

        def lab(ev, st):
            if ev.name == "set_auth":
                got.append(ev)
                return "set"
        trace_paths(ctx, f, {"s": lab}, self_cls=f.cls, default_raises=(), events=("set_auth",), stop=("set_auth", "http_api", "raw_input", "current", "get_current"))
        ctx.ob(R, f, bool(got), "setting the login was not reached", key="reached")
        for ev in got:
            n += 1
            t = argn(ev, 1, "password")
            # the value is taken out of the reply; the request is just part of where that came from
            base = t
            while base is not None and (base.k in ("sub", "attr") or base.k == "call" and call_name(base) in ("get", "json_get") and call_recv(base) is not None):
                base = base.a[0] if base.k != "call" else call_recv(base)
            ok = base is not None and base.k == "call" and call_name(base) == "http_api" and base is not t
            ctx.ob(R, f, ok, "something else than the token given out by the server is kept", where(f, ev.node), key="token")
    ctx.count(R, n, 1, "logins")


def shown(ctx):
    R = ctx.rule("C01.shown", "passwords, tokens and addresses which hold them are not printed")
    P = ctx.P
    n = 0
    secret = {"password", "password2", "auth", "basic_auth", "passwd", "token"}

    def leak(t):
        """a credential outside of something which hides it"""
        if t is None:
            return None
        if t.k == "call":
            nm = call_name(t)
            if nm == "replace" and call_kwargs(t).get("password") is not None and call_kwargs(t)["password"].k == "c":
                return None
            if nm in CREDS:
                return nm
            if nm in ("bool", "len", "get_auth_user", "hostname"):
                return None
            if nm in ("http_api", "URL", "popen_output", "request") or nm in ("get", "post") and has_attr(call_recv(t) or NONE, "http"):
                if nm != "URL":
                    return None     # an answer
        if t.k in ("cmp",):
            return None
        if t.k == "sub" and t.a[0].k == "dict":
            # a choice of constants
            return next((r for r in (leak(v) for _, v in t.a[0].a[0]) if r), None)
        if t.k == "attr":
            if t.a[1] in CRED_ATTRS | STORES or t.a[1] == "password":
                return t.a[1]
            if t.a[1] in ("status_code", "hostname", "basename", "scheme", "restrictions"):
                return None
        if t.k in ("p", "free") and t.a[0] in secret:
            return t.a[0]
        if t.k == "sub" and cstr(t.a[1]) == "password":
            return "password"
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    r = leak(y)
                    if r:
                        return r
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            r = leak(z)
                            if r:
                                return r
        return None
    stop = tuple(CREDS) + ("http_api", "current", "get_current", "derive_token", "root_url", "popen_check", "report_popen", "popen", "popen_output", "venv") + OUT
    touched = CREDS | CRED_ATTRS | {"password", "getnewpass", "devpiclient_get_password", "derive_token", "set_auth", "get_url_auth", "basic_auth", "kvdict", "set_basic_auth"}
    m = 0
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        own = names_in(f.node) | {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | set(strings_in(f.node))
        if not own & touched or f.parent is not None or not any(True for g in [f] for _ in own_calls(g, *OUT, "popen_check", "popen", "popen_output", "report_popen")):
            continue
        m += 1

        def lab(ev, st):
            if ev.name in OUT:
                if ev.name == "write" and not (ev.recv is not None and has_attr(ev.recv, "stdout", "stderr", "_tw")):
                    return None
                for a in ev_args(ev):
                    r = leak(a)
                    if r:
                        # the item of a password in a list of settings
                        bad.append((ev, r))
                        return "leak"
                # the value of the setting named password
                return "print"
            if ev.name in ("popen_check", "popen", "popen_output", "report_popen", "check_call", "check_output", "Popen"):
                a = argn(ev, 0, "args")
                r = leak(a) if a is not None else None
                if r:
                    bad.append((ev, r + " in a command"))
                x = ev.kwargs.get("extraenv")
                if x is not None:
                    for k, v in (x.a[0] if x.k == "dict" else ()):
                        if leak(v) and not hides(v):
                            bad.append((ev, "%s as it is in a reported environment" % leak(v)))
                return "run"
        bad = []
        trace_paths(ctx, f, {"o": lab}, self_cls=f.cls, default_raises=(), events=OUT + ("popen_check", "popen", "popen_output", "report_popen"), stop=stop, rounds=1, follow=lambda h, ev, d: False if h.module is not f.module or h.cls is not f.cls or d > 2 else None)
        n += 1
        for ev, r in bad:
            ctx.ob(R, f, False, "it prints or passes %s" % r, where(f, ev.node), key="leak-" + r)
        ctx.ob(R, f, True, "", key="analysed")
    # the words of a command
    k = 0
    for f in sorted(P.iter_funcs("devpi"), key=lambda f: f.qual):
        if not any(True for _ in own_calls(f, "popen_check", "popen", "popen_output", "check_call", "check_output", "Popen")):
            continue
        k += 1
        words = [x for x in walk_own(f.node) if isinstance(x, (ast.List, ast.Tuple)) and isinstance(getattr(x, "ctx", None), ast.Load)] + [c for c in own_calls(f, "append", "extend", "insert")]
        for w in words:
            r = tainted(f, w, set())
            ctx.ob(R, f, not r, "%s becomes part of a command others can see" % r, where(f, w), key="command")
    ctx.count(R, k, 4, "functions running commands")
    ctx.count(R, m, 5, "functions which handle credentials and print something")
    # an address hides them when it is shown
    g = P.func("devpi_common.url.URL.__repr__")
    paths = live_paths(trace_paths(ctx, g, {}, self_cls=g.cls, default_raises=(), follow=lambda h, ev, d: False))

    def facts_of(p):
        return [(k, v) for k, v in p.st.facts.items() if has_attr(k, "password")]
    for p in paths:
        has = [v for k, v in facts_of(p)]
        masked = contains(p.ret, lambda x: x.k == "call" and call_name(x) == "replace" and call_kwargs(x).get("password") is not None and call_kwargs(x)["password"].k == "c")
        ctx.ob(R, g, masked or bool(has) and not any(has), "an address shows the password in it", path=p, key="repr")
    # the setting of a new password is not printed
    f = P.func("devpi.user.user_modify")

    def lab(ev, st):
        if ev.name in OUT:
            masked_ok = not any(contains(a, lambda x: x.k == "elem" or x.k == "sub") and val_in(a) for a in ev_args(ev))
            if masked_ok:
                return "plain"
            return "value"

    def val_in(t):
        return has_param(t, f.params()[2])

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("==", "in") and (has_str(t.a[1], "password") or has_str(t.a[2], "password")):
            return "pw" if v else "other"

    def it(w, e, st):
        return "item" if w == "next" and val_in(e) else None
    paths = trace_paths(ctx, f, {"o": lab}, branch=br, iters=it, self_cls=f.cls, default_raises=(), events=OUT, stop=OUT + ("http_api", "get_user_url", "current"), dedupe=False)

    def ok(p):
        cur = None
        for x in p.trace:
            if x == "item":
                cur = None
            elif x in ("pw", "other"):
                cur = x
            elif x == "value":
                if cur is None or cur == "pw" and not True:
                    return False
        return True

    def ok2(p):
        cur = None
        for x in p.trace:
            if x == "item":
                cur = None
            elif x in ("pw", "other"):
                cur = x
            elif x == "value" and cur != "other" and cur != "pw":
                return False
        return True
    ctx.ob(R, f, some(paths, "value"), "the settings changed are not reported", key="modify-instances")
    for ev_bad in modify_leaks(ctx, f):
        ctx.ob(R, f, False, "the new password is printed", where(f, ev_bad.node), key="modify")
    ctx.ob(R, f, True, "", key="modify-analysed")


def tainted(f, node, seen):
    """what may hold credentials in an expression, following local variables"""
    skip = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Dict):
            skip |= {id(y) for y in ast.walk(x)}
    for x in ast.walk(node):
        if id(x) in skip:
            continue
        if isinstance(x, ast.Attribute) and x.attr in CREDS | CRED_ATTRS | STORES:
            return x.attr
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in seen:
            seen.add(x.id)
            for y in walk_own(f.node):
                if isinstance(y, (ast.Assign, ast.AugAssign, ast.NamedExpr)) and y.value is not None:
                    tg = y.targets if isinstance(y, ast.Assign) else [y.target]
                    if any(isinstance(n, ast.Name) and n.id == x.id for t in tg for n in ast.walk(t)):
                        r = tainted(f, y.value, seen)
                        if r:
                            return r
    return None


def modify_leaks(ctx, f):
    """output of the value of an item on a path where its name may be password"""
    res = []
    par = f.params()[2]

    def lab(ev, st):
        if ev.name not in OUT:
            return None
        for a in ev_args(ev):
            for x in subterms(a):
                # the value of an item: item[1], or kvdict[name]
                if not (x.k == "sub" and has_param(x, par)):
                    continue
                item = x.a[0]
                if x.a[1].k == "c" and cval(x.a[1]) == 1 and item.k == "elem":
                    name = T("sub", item, const(0))
                elif x.a[1].k == "elem":
                    name = x.a[1]
                else:
                    continue
                safe = any(not v and k.k == "cmp" and k.a[0] == "==" and name in (k.a[1], k.a[2]) and (cstr(k.a[1]) == "password" or cstr(k.a[2]) == "password")
                           or not v and k.k == "cmp" and k.a[0] == "in" and k.a[1] == name and has_str(k.a[2], "password") for k, v in st.facts.items())
                if not safe:
                    res.append(ev)
        return None
    trace_paths(ctx, f, {"o": lab}, self_cls=f.cls, default_raises=(), events=OUT, stop=OUT + ("http_api", "get_user_url", "current"), dedupe=False)
    return res


def hides(t):
    """an address object which hides what it holds when shown"""
    return t.k == "call" and call_name(t) in ("URL", "add_auth_to_url", "replace") or t.k == "phi" and all(hides(x) or not cred_calls(x, CREDS) and not has_attr(x, *CRED_ATTRS) for x in t.a if isinstance(x, T))


def check(ctx):
    ctx.assumptions.append("requests redirected by a server to another one are followed by requests as it sees fit; names of config files and pip's own handling of the credentials in its environment are outside of this")
    lookup(ctx)
    requests(ctx)
    state(ctx)
    login(ctx)
    shown(ctx)


SELFTEST = []
UP = "client/devpi/use.py"
MN = "client/devpi/main.py"
SELFTEST = [
    (UP, "            url = url.joinpath('..')\n        return d.get(url.url, default)", "            url = url.joinpath('..')\n        return d.get(url.url, next(iter(d.values()), default))"),
    (UP, "            url = url.joinpath('..')\n", "            url = url.joinpath('/')\n            url = url.replace(netloc='localhost')\n"),
    (UP, "        url = url if url is not None else self.root_url\n", "        url = self.root_url\n"),
    (UP, "        auth = dict(auth)\n        auth = auth.get(username)\n", "        auth = dict(auth)\n        auth = auth.get(username, next(iter(auth.values())))\n"),
    (UP, "        url = self._get_normalized_url(url)\n        basic_auth = self._value_from_dict_by_url(", "        url = self._get_normalized_url(self.root_url)\n        basic_auth = self._value_from_dict_by_url("),
    (UP, "        return tuple(basic_auth) if basic_auth else None", "        if not basic_auth:\n            basic_auth = next(iter(self._get_basic_auth_dict().values()), None)\n        return tuple(basic_auth) if basic_auth else None"),
    (UP, "        url = self._get_normalized_url(url)\n        client_cert = self._value_from_dict_by_url(", "        url = self._get_normalized_url(self.index_url)\n        client_cert = self._value_from_dict_by_url("),
    (UP, "        # store at root_url, so we can find it from any sub path\n        url = self._get_normalized_url(self.root_url)\n        basic_auth = self", "        # store at root_url, so we can find it from any sub path\n        url = self._get_normalized_url(self.index_url.joinpath('/'))\n        basic_auth = self"),
    (UP, "        auth = self.get_auth(url)\n        if auth", "        auth = self.get_auth()\n        if auth"),
    (UP, "basic_auth = self.get_basic_auth(indexserver)\n        if basic_auth:\n            (username, password) = basic_auth\n            indexserver = indexserver.replace(\n                username=url_quote(username), password=url_quote(password))\n        return indexserver.url\n\n    @property\n    def indexname", "basic_auth = self.get_basic_auth(self.root_url)\n        if basic_auth:\n            (username, password) = basic_auth\n            indexserver = indexserver.replace(\n                username=url_quote(username), password=url_quote(password))\n        return indexserver.url\n\n    @property\n    def indexname"),
    (UP, "                auth=self.get_auth(url=url),\n", "                auth=self.get_auth(),\n"),
    (UP, "basic_auth=basic_auth or self.get_basic_auth(url=url),\n                cert=client_cert or self.get_client_cert(url=url),\n                verify=verify)\n            if", "basic_auth=basic_auth or self.get_basic_auth(url=self.root_url),\n                cert=client_cert or self.get_client_cert(url=url),\n                verify=verify)\n            if"),
    (MN, "                auth = self.current.get_auth(url=url)\n", "                auth = self.current.get_auth()\n"),
    (MN, "                cert = self.current.get_client_cert(url=url)\n", "                cert = self.current.get_client_cert(url=self.current.root_url)\n"),
    ("client/devpi/upload.py", "hub.current.get_auth(self.pypisubmit)", "hub.current.get_auth()"),
    ("client/devpi/upload.py", "auth=hub.current.get_basic_auth(self.pypisubmit)", "auth=hub.current.get_basic_auth(hub.current.index)"),
    ("client/devpi/test.py", "            auth_url = link.href\n            url = auth_url\n", "            auth_url = link.href\n            basic_auth = self.hub.current.get_basic_auth(self.current.root_url)\n            url = auth_url\n"),
    ("client/devpi/refresh.py", "        r = hub.http.post(url)\n", "        r = hub.http.post(url, auth=current.get_auth())\n"),
    ("client/devpi/list_remove.py", "    res = hub.http.get(link.href)\n", "    res = hub.http.get(link.href, auth=hub.current.get_basic_auth(hub.current.root_url))\n"),
    (UP, "            oldumask = os.umask(7 * 8 + 7)\n", "            oldumask = os.umask(2 * 8 + 2)\n"),
    (UP, "            oldumask = os.umask(7 * 8 + 7)\n            try:\n                path.write_text(\n                    json.dumps(data, indent=2, sort_keys=True))\n            finally:\n                os.umask(oldumask)\n", "            path.write_text(\n                json.dumps(data, indent=2, sort_keys=True))\n            path.chmod(0o600)\n"),
    (UP, "            finally:\n                os.umask(oldumask)\n", "            except OSError:\n                os.umask(oldumask)\n                raise\n"),
    (UP, "        currentdict.pop(\"auth\", None)\n        self._persist", "        self._persist"),
    (UP, "        self._persist(self._authdict, self.auth_path, force_write=force_write)\n", "        self._persist(dict(self._authdict, **self._currentdict), self.auth_path, force_write=force_write)\n        self._persist(self._authdict, self.current_path, force_write=force_write)\n"),
    (UP, "    _basic_auth = authproperty(\"basic_auth\")", "    _basic_auth = currentproperty(\"basic_auth\")"),
    ("client/devpi/login.py", "hub.current.set_auth(user, r.result[\"password\"])", "hub.current.set_auth(user, r.result.get(\"token\") or password)"),
    ("client/devpi/login.py", "    hub.current.set_auth(user, r.result[\"password\"])", "    hub.current.set_auth(user, password)"),
    ("client/devpi/login.py", "    msg = \"logged in %r\" % user\n", "    msg = \"logged in %r\" % user\n    hub.debug(\"request\", input)\n"),
    ("client/devpi/test.py", "url = auth_url.replace(password=\"****\")  # noqa: S106", "url = auth_url"),
    ("client/devpi/install.py", "            \"-U\"]\n", "            \"-U\", \"--index-url\", simpleindex]\n"),
    ("client/devpi/install.py", "\"PIP_INDEX_URL\": simpleindex}", "\"PIP_INDEX_URL\": simpleindex.url}"),
    ("client/devpi/test.py", "            \"--recreate\",\n", "            \"--recreate\", \"-i\", str(self.hub.current.add_auth_to_url(self.current.simpleindex)),\n"),
    ("client/devpi/user.py", "        if name == 'password':\n", "        if name == 'passwd':\n"),
    ("client/devpi/user.py", "            val = '********'\n", "            val = val[:2] + '********'\n"),
    ("common/devpi_common/url.py", "            cloaked = cloaked.replace(password=\"****\")  # noqa: S106\n", "            pass\n"),
]
