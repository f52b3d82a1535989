"""P02: who a request acts as is decided by verified passwords and valid tokens only."""
from rules.lib import *  # noqa

AU = "devpi_server.auth"
MD = "devpi_server.model"
VA = "devpi_server.view_auth"
VW = "devpi_server.views"


def status_of(t):
    """the constant status in a result term, '?' if it is passed on from elsewhere"""
    if t is None or t is NONE:
        return None
    if t.k == "call" and refname(t.a[0]) in ("builtins.dict", "dict"):
        v = dict(call_kwargs(t)).get("status")
        return cstr(v) or "?"
    if t.k == "dict":
        for x in subterms(t):
            pass
        for k, v in dict_items(t):
            if cstr(k) == "status":
                return cstr(v) or "?"
        return "?"
    return "?"


def dict_items(t):
    try:
        return [(k, v) for k, v in t.a[0]]
    except (TypeError, ValueError):
        return []


def entry_of(t, name):
    if t.k == "call":
        return dict(call_kwargs(t)).get(name)
    for k, v in dict_items(t):
        if cstr(k) == name:
            return v
    return None


def isroot_branch(t, v, params):
    if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "root" for x in t.a[1:]):
        return "root" if v else "notroot"
    if t.k == "p" and t.a[0] == "is_root":
        return "root" if v else "notroot"
    return None


def validate(ctx):
    R = ctx.rule("P02.password", "credentials are accepted when a plugin accepted them for a user other than root, or when the user's own password was verified; a plugin's rejection is "
                 "final, silent plugins accept nobody, and only the server itself marks a result as coming from a user's own password")
    A = ctx.P.cls(AU + ".Auth")
    f = A.method("_validate")
    pops = []
    asked = []

    def lab(ev, st):
        if ev.name == "hook" or ev.fterm.k == "attr" and ev.fterm.a[1] == "hook":
            asked.append(ev)
            return "plugin"
        if ev.name == "legacy_hook" or ev.fterm.k == "attr" and ev.fterm.a[1] == "legacy_hook":
            return "legacyplugin"
        if ev.name == "_legacy_auth":
            return "legacy"
        if ev.name == "validate":
            return "verify"
        if ev.name == "pop" and ev.args and cstr(ev.args[0]) == "from_user_object":
            pops.append(ev.recv)
            return "pop%d" % (len(pops) - 1)

    def br(t, v, st):
        r = isroot_branch(t, v, f.params())
        if r:
            return r
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "ok" for x in t.a[1:]) and has_str(t, "status"):
            return "accepted" if v else "rejected"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:]:
            o = t.a[1] if t.a[2] is NONE else t.a[2]
            if o.k == "call" and call_name(o) == "_legacy_auth":
                return "legacysilent" if v else "legacysaid"
            if o.k == "call" and call_name(o) == "get_user":
                return "nouser" if v else "user"
            if o.k == "call" and (call_name(o) == "hook" or o.a[0].k == "attr" and o.a[0].a[1] == "hook"):
                return "silent" if v else "said"
        if t.k == "call" and call_name(t) == "validate":
            return "verified" if v else "wrong"
        if t.k == "call" and call_name(t) == "getattr" and call_args(t) and has_param(call_args(t)[0], "request"):
            return "verified" if v else "wrong"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=A, default_raises=(), events=("hook", "legacy_hook", "_legacy_auth", "validate", "pop"), stop=("_legacy_auth",),
                        follow=lambda g, ev, d: None if g.cls is A and g.name != "_legacy_auth" else False, raises={"plugin": ("?",)})
    rets = live_paths(paths)
    ctx.ob(R, f, some(rets, "verified"), "passwords are not verified", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not (p.has("root") and p.has("plugin", "legacyplugin")), "root can be authenticated by a plugin", key="root")
    check_paths(ctx, R, f, paths, lambda p: not p.has("plugin") or p.has("notroot") and p.idx("notroot") < p.idx("plugin"), "root can be authenticated by a plugin", key="root-first")

    def ok(p):
        t = p.ret
        s = status_of(t)
        if s is None:
            return False
        if s == "ok":
            good = p.has("verified") and not p.has("nouser", "rejected")
            return good
        if s == "?":
            if has_call(t, "_legacy_auth"):
                # checked below; the marker was taken off
                return p.has("legacysaid") and any(x.startswith("pop") and pops[int(x[3:])] is t for x in p.trace)
            if t.k == "call":
                return p.has("accepted") and p.has("notroot") and any(x.startswith("pop") and pops[int(x[3:])] is t for x in p.trace)
            return False
        return True
    check_paths(ctx, R, f, rets, ok, "somebody is accepted without an accepting plugin and without a verified password", key="ok")
    check_paths(ctx, R, f, rets, lambda p: not p.has("rejected") or status_of(p.ret) not in ("ok", "?"), "a plugin's rejection is not final", key="reject")
    check_paths(ctx, R, f, rets, lambda p: not p.has("wrong", "nouser") or p.has("said", "legacysaid") or status_of(p.ret) in ("reject", "nouser"), "unknown users or wrong passwords are accepted", key="wrong")

    def marker(p):
        t = p.ret
        m = entry_of(t, "from_user_object") if t is not None and status_of(t) not in (None, "?") else None
        return m is None or not (m.k == "c" and not cval(m)) and p.has("verified") or m.k == "c" and not cval(m)
    check_paths(ctx, R, f, rets, marker, "a result is marked as coming from the user's own password without it", key="marker")
    check_paths(ctx, R, f, rets, lambda p: not (status_of(p.ret) == "ok" and p.has("verified")) or entry_of(p.ret, "from_user_object") is TRUE, "tokens of local users stay valid after the user was deleted", key="marked")
    # what is verified
    vs = []
    trace_paths(ctx, f, {"v": lambda ev, st: vs.append(ev) or True if ev.name == "validate" else None}, self_cls=A, default_raises=(), events=("validate",), stop=("_legacy_auth",), follow=lambda g, ev, d: False)
    ctx.ob(R, f, bool(vs) and all(ev.args and ev.args[0] is T("p", f.params()[2]) and has_call(ev.recv, "get_user") and has_param(ev.recv, f.params()[1]) for ev in vs), "another user's password is verified", key="whose")
    g = A.method("_legacy_auth")

    def br2(t, v, st):
        r = isroot_branch(t, v, g.params())
        if r:
            return r
        if has_attr(t, "legacy_hook") and t.k in ("comp", "call", "list"):
            return "some" if v else None
        return None
    paths = trace_paths(ctx, g, {"legacyplugin": lambda ev, st: ev.fterm.k == "attr" and ev.fterm.a[1] == "legacy_hook"}, branch=br2, self_cls=A, default_raises=(), events=("legacy_hook",), follow=lambda h, ev, d: False,
                        raises={"legacyplugin": (AU + ".AuthException",)})
    check_paths(ctx, R, g, paths, lambda p: not p.has("legacyplugin", "legacyplugin!") or p.has("notroot"), "root can be authenticated by a plugin", key="legacy-root")
    check_paths(ctx, R, g, live_paths(paths), lambda p: status_of(p.ret) != "ok" or p.has("notroot") and p.has("legacyplugin") and p.has("some"), "a plugin's failure or silence counts as acceptance", key="legacy-ok")
    check_paths(ctx, R, g, live_paths(paths), lambda p: not p.has("legacyplugin!") or status_of(p.ret) not in ("ok", None, "?"), "after a plugin failed the credentials can still be accepted", key="legacy-failed")
    filt = [x for x in ast.walk(g.node) if isinstance(x, ast.Compare) and literal(x.comparators[0]) == "ok" and "status" in strings_in(x)]
    ctx.ob(R, g, bool(filt), "rejections by plugins are not looked for", key="legacy-reject")
    check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is NONE or status_of(p.ret) != "?", "what a plugin returned is passed on", key="legacy-passed")


def tokens(ctx):
    R = ctx.rule("P02.token", "a token is accepted only when its signature and age were checked, it was made for exactly this user, and the user still exists if it was made for a local one")
    A = ctx.P.cls(AU + ".Auth")
    f = A.method("_get_auth_status")
    U = T("p", f.params()[1])
    loads_ = []

    def lab(ev, st):
        if ev.name == "loads":
            loads_.append(ev)
            return "loads"
        if ev.name == "_validate":
            return "validate"

    def br(t, v, st):
        if t.k == "call" and call_name(t) == "isinstance" and has_call(t, "loads"):
            return "typed" if v else "bad"
        if t.k == "cmp" and has_call(t, "len") and t.a[0] == "==":
            return ("len" if v else "bad") if any(x.k == "c" and cval(x) == 3 for x in t.a[1:]) else None
        if t.k == "cmp" and t.a[0] == "==" and U in t.a[1:]:
            o = t.a[1] if t.a[2] is U else t.a[2]
            return ("same" if v else "other") if o.k == "sub" and o.a[1].k == "c" and cval(o.a[1]) == 0 or o.k in ("elem", "sub", "call") and has_call(o, "loads") else None
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "get_user"):
            return "gone" if v else "exists"
        if t.k == "call" and call_name(t) == "get_user":
            return "exists" if v else "gone"
        if t.k == "sub" and has_call(t, "loads") and t.a[1].k == "c" and cval(t.a[1]) in (2, -1):
            return "local" if v else "foreign"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=A, default_raises=(), events=("loads", "_validate", "get_user"), stop=("_validate",), follow=lambda g, ev, d: None if g.cls is A and g.name != "_validate" else False,
                        raises={"loads": ("itsdangerous.SignatureExpired", "itsdangerous.BadData", "itsdangerous.BadSignature"), "validate": ()})
    rets = live_paths(paths)
    acc = [p for p in rets if status_of(p.ret) == "ok"]
    ctx.ob(R, f, bool(acc), "no token is accepted", key="instances")
    check_paths(ctx, R, f, acc, lambda p: p.has("loads") and not p.has("loads!"), "a token that is not valid is accepted", key="valid")
    check_paths(ctx, R, f, acc, lambda p: p.has("same") and not p.has("other"), "a token made for one user is accepted for another", key="user")
    check_paths(ctx, R, f, acc, lambda p: p.has("foreign") or p.has("exists") and not p.has("gone"), "a token of a deleted local user is accepted", key="deleted")
    check_paths(ctx, R, f, rets, lambda p: status_of(p.ret) in ("ok",) or status_of(p.ret) not in (None, "?") or has_call(p.ret, "_validate") and p.has("loads!"), "an unexpected result is passed on", key="other")
    check_paths(ctx, R, f, acc, lambda p: has_call(entry_of(p.ret, "groups") or NONE, "loads") or entry_of(p.ret, "groups") is None or items(entry_of(p.ret, "groups")) == (), "groups are made up", key="groups")
    good = bool(loads_)
    for ev in loads_:
        ma = ev.kwargs.get("max_age", ev.args[1] if len(ev.args) > 1 else None)
        good = good and ma is not None and ma is not NONE and ev.args and ev.args[0] is T("p", f.params()[2])
        if ma is not None and ma.k == "c":
            good = good and isinstance(cval(ma), int) and cval(ma) > 0
    ctx.ob(R, f, good, "tokens never expire", key="max_age")
    node = [x for x in A.node.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "LOGIN_EXPIRATION" for t in x.targets)]
    ctx.ob(R, f, bool(node) and not any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(node[0])), "tokens never expire", key="expiration")
    i = A.method("__init__")
    ser = []
    trace_paths(ctx, i, {}, stores={"s": lambda e, st: e.kind == "attr" and e.name == "serializer" and not ser.append(e.value)}, self_cls=A, default_raises=(), follow=lambda g, ev, d: False)
    ctx.ob(R, i, bool(ser) and all(t.k == "call" and (call_name(t) or "").startswith("Timed") and call_args(t) and call_args(t)[0] is T("p", "secret") for t in ser), "tokens are not signed with time and the server's secret", key="serializer")
    for g, c in callers(ctx.P, "Auth", prefixes=SERVER):
        if "Auth(" in src(c) and src(c.func) in ("Auth", "auth.Auth"):
            ctx.ob(R, g, any(isinstance(x, ast.Call) and src(x.func).endswith("get_auth_secret") for x in ast.walk(c)) or any("secret" in (k.arg or "") for k in c.keywords), "tokens are signed with another secret", key="secret", where=where(g, c))
    n = A.method("new_proxy_auth")
    dumps_ = []

    def labn(ev, st):
        if ev.name == "dumps":
            dumps_.append(ev)
            return "dumps"

    def brn(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "ok" for x in t.a[1:]) and has_call(t, "_validate"):
            return "ok" if v else "bad"
    paths = trace_paths(ctx, n, {"x": labn}, branch=brn, self_cls=A, default_raises=(), events=("dumps", "_validate"), stop=("_validate",), follow=lambda g, ev, d: None if g.cls is A and g.name != "_validate" else False)
    ctx.ob(R, n, some(paths, "dumps"), "no token is issued", key="issue-instances")
    check_paths(ctx, R, n, paths, lambda p: not p.has("dumps") or p.has("ok") and p.idx("ok") < p.idx("dumps"), "a token is issued for credentials that were not accepted", key="issue")
    check_paths(ctx, R, n, live_paths(paths), lambda p: p.has("dumps") or p.ret is NONE or p.ret is None or p.ret.k == "c" and not cval(p.ret), "a token is issued for credentials that were not accepted", key="issue-none")
    good = bool(dumps_)
    for ev in dumps_:
        it = items(ev.args[0]) if ev.args else ()
        good = good and len(it) == 3 and it[0] is T("p", n.params()[1]) and has_str(it[2], "from_user_object") and has_str(it[1], "groups")
    ctx.ob(R, n, good, "a token does not say for whom it was made", key="issue-content")
    vs = []
    trace_paths(ctx, n, {"v": lambda ev, st: vs.append(ev) or True if ev.name == "_validate" else None}, self_cls=A, default_raises=(), events=("_validate",), stop=("_validate",))
    ctx.ob(R, n, bool(vs) and all(len(ev.args) >= 2 and ev.args[0] is T("p", n.params()[1]) and ev.args[1] is T("p", n.params()[2]) for ev in vs), "a token is issued for other credentials than given", key="issue-whose")


def hashes(ctx):
    R = ctx.rule("P02.hash", "passwords are stored as salted hashes only, verified against the stored hash and salt, and a user without stored hash is not accepted")
    U = ctx.P.cls(MD + ".User")
    f = U.method("validate")

    def br(t, v, st):
        if has_call(t, "verify_and_update_password_hash") and t.k in ("sub", "elem", "call"):
            if t.k == "sub" and t.a[1].k == "c" and cval(t.a[1]) not in (0, -2):
                return None
            return "valid" if v else "invalid"
    ver = []

    def lab(ev, st):
        if ev.name == "verify_and_update_password_hash":
            ver.append(ev)
            return "verify"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, self_cls=U, default_raises=(), events=("verify_and_update_password_hash",), stop=("verify_and_update_password_hash", "modify"), follow=lambda g, ev, d: None if g.cls is U and g.name != "modify" else False)

    def ok(p):
        t = p.ret
        if t is None or t.k == "c":
            return t is None or not cval(t) or p.has("valid") and not p.has("invalid")
        return t.k in ("sub", "elem") and has_call(t, "verify_and_update_password_hash") and t.a[-1].k == "c" and cval(t.a[-1]) == 0
    ctx.ob(R, f, some(paths, "valid") or any(p.ret is not None and p.ret.k != "c" for p in paths), "no password is accepted", key="instances")
    check_paths(ctx, R, f, live_paths(paths), ok, "a password is accepted which was not verified", key="validate")
    good = bool(ver)
    for ev in ver:
        a = ev_args(ev)
        good = good and len(a) >= 3 and a[0] is T("p", f.params()[1]) and has_str(a[1], "pwhash") and has_str(a[2], "pwsalt")
    ctx.ob(R, f, good, "a password is not verified against the user's hash and salt", key="args")
    v = ctx.P.func(AU + ".verify_and_update_password_hash")
    paths = trace_paths(ctx, v, {}, default_raises=(), follow=lambda g, ev, d: False)

    def okv(p):
        t = p.ret
        i = items(t)
        first = i[0] if i else t
        return first is not None and has_call(first, "verify_and_update") and any(x.k == "call" and call_name(x) == "verify_and_update" and call_args(x)[0] is T("p", v.params()[0]) and has_param(call_args(x)[1], v.params()[1]) for x in subterms(first))
    check_paths(ctx, R, v, live_paths(paths), okv, "the result of the verification is not passed on", key="verify")
    D = ctx.P.cls(AU + ".DevpiHandler")
    d = D.method("verify")
    gp = ctx.P.func(AU + ".getpwhash")
    seen = []

    def brd(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and has_call(t, "getpwhash"):
            return "equal" if v else "differs"
        if t.k == "call" and call_name(t) == "compare_digest" and has_call(t, "getpwhash"):
            return "equal" if v else "differs"
        return None
    paths = trace_paths(ctx, d, {"h": lambda ev, st: seen.append(ev) or True if ev.name == "getpwhash" else None}, branch=brd, self_cls=D, default_raises=(), events=("getpwhash",), follow=lambda g, ev, d_: False)

    def okd(p):
        t = p.ret
        if t is None or t.k == "c":
            return t is None or not cval(t) or p.has("equal")
        return p.has("equal") or has_call(t, "getpwhash") and (t.k == "cmp" and t.a[0] == "==" or has_call(t, "compare_digest")) or not p.has("h")
    check_paths(ctx, R, d, live_paths(paths), okd, "an old style hash is accepted without comparing it", key="legacy")
    ctx.ob(R, d, bool(seen) and all(ev.args and ev.args[0] is T("p", "secret") and len(ev.args) > 1 and has_call(ev.args[1], "_get_salt_and_hash") for ev in seen), "an old style hash is compared without password or salt", key="legacy-args")
    fed = []
    trace_paths(ctx, gp, {"u": lambda ev, st: fed.append(ev) or "u%d" % len(fed) if ev.name == "update" or (ev.name or "").startswith("sha") and ev.args else None}, default_raises=(), events=("update",))
    ctx.ob(R, gp, any(has_param(a, "salt") for ev in fed for a in ev.args) and any(has_param(a, "password") for ev in fed for a in ev.args), "password or salt is not part of the hash", key="getpwhash")
    ns = ctx.P.func(AU + ".newsalt")
    ctx.ob(R, ns, any(n in ("token_bytes", "urandom", "token_hex", "token_urlsafe") for n in calls_names(ns)), "salts are not random", key="salt")
    cc = ctx.P.module(AU).globals.get("pwd_context")
    ctx.ob(R, v, cc is not None and any("CryptContext" in src(x) for x in ast.walk(cc) if isinstance(x, ast.Call)) and not any(s in ("plaintext", "ldap_plaintext", "hex_md5", "des_crypt", "unix_disabled") for s in strings_in(cc)), "passwords are not hashed", key="context")
    h = ctx.P.func(AU + ".hash_password")
    paths = trace_paths(ctx, h, {}, default_raises=(), follow=lambda g, ev, d_: False)
    check_paths(ctx, R, h, live_paths(paths), lambda p: p.ret is not None and p.ret.k == "call" and call_name(p.ret) == "hash", "passwords are not hashed", key="hash_password")
    # storing
    m = U.method("_modify")
    pw = ("password",)
    stores = []

    def st_(e, st):
        if e.kind == "sub":
            stores.append((e.name, e.value))
            return "s"
    paths = trace_paths(ctx, m, {"set": lambda ev, st: ev.name == "_setpassword" and "never"}, stores={"s": st_}, self_cls=U, default_raises=(), events=("hash_password", "userconfig"), stop=("hash_password", "validate_config"), follow=lambda g, ev, d_: None if g.cls is U else False)
    pt = T("p", "password")
    a = m.node.args
    named = {x.arg for x in a.args + a.kwonlyargs}
    ctx.ob(R, m, "password" in named, "passwords are stored like other settings", key="named")
    stored = False
    bad = []
    for key, val in stores:
        if val is None:
            continue
        clear = contains_outside(val, pt, ("hash_password", "hash"))
        if clear:
            bad.append((show(key) if isinstance(key, T) else key))
        if has_call(val, "hash_password", "hash"):
            stored = True
    ctx.ob(R, m, not bad, "a password is stored readable under %s" % bad, key="clear")
    sp = U.methods.get("_setpassword") or m
    ctx.ob(R, sp, stored or any(own_calls(sp, "hash_password")), "passwords are not stored hashed", key="hashed")
    # a new password makes the old salt void
    dropped = any(isinstance(x, ast.Constant) and x.value == "pwsalt" for x in ast.walk(m.node)) or any(isinstance(x, ast.Constant) and x.value == "pwsalt" for x in ast.walk(sp.node))
    ctx.ob(R, m, dropped, "the salt of an old hash is kept with a new one", key="pwsalt")


def contains_outside(t, x, wraps):
    """x occurs in t other than as argument of one of the calls"""
    if t is x:
        return True
    if t.k == "call" and call_name(t) in wraps:
        return False
    for a in t.a:
        if isinstance(a, T) and contains_outside(a, x, wraps):
            return True
        if isinstance(a, tuple):
            for b in a:
                if isinstance(b, T) and contains_outside(b, x, wraps):
                    return True
                if isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T) and contains_outside(c, x, wraps):
                            return True
    return False


def calls_names(f):
    return {(c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else "") for c in ast.walk(f.node) if isinstance(c, ast.Call)}


def requests(ctx):
    R = ctx.rule("P02.request", "the identity of a request is that of the credentials sent with it; a login only hands out a token when it is recognised as that user and may log in")
    f = ctx.P.func(VA + ".devpiserver_get_identity")
    mk, chk = [], []

    def lab(ev, st):
        if ev.name == "CredentialsIdentity":
            mk.append(ev)
            return "mk"
        if ev.name == "_get_auth_status":
            chk.append(ev)
            return "check"
    C = T("p", "credentials")
    paths = trace_paths(ctx, f, {"x": lab}, default_raises=(), branch=lambda t, v, st: ("ok" if v else "bad") if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "ok" for x in t.a[1:]) and has_call(t, "_get_auth_status") else None,
                        events=("CredentialsIdentity", "_get_auth_status"), stop=("_get_auth_status",))
    check_paths(ctx, R, f, paths, lambda p: not p.has("mk") or p.has("ok") and p.has("check"), "an identity is given without checking the credentials", key="identity")
    good = bool(mk) and all(e.args and contains(e.args[0], lambda x: x is C) and e.args[0].k == "sub" and e.args[0].a[0] is C and cval(e.args[0].a[1]) == 0 for e in mk) and bool(chk) and all(any(contains(a, lambda x: x is C) for a in e.args) for e in chk)
    ctx.ob(R, f, good, "the identity is not that of the credentials checked", key="whose")
    for nm in ("devpi_server.auth_basic", "devpi_server.auth_devpi"):
        g = ctx.P.func(nm + ".devpiserver_get_credentials")
        paths = trace_paths(ctx, g, {"dec": "b64decode"}, default_raises=(), raises={"dec": ("binascii.Error", "builtins.TypeError")}, sub_raise=lambda *a: None,
                            branch=lambda t, v, st: ("basic" if v else "notbasic") if t.k == "cmp" and t.a[0] == "==" and has_str(t, "basic") else None)
        check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is NONE or p.ret is None or p.has("dec") and not p.has("dec!"), "credentials are made up", key=nm + ".decode")
        if nm.endswith("basic"):
            check_paths(ctx, R, g, live_paths(paths), lambda p: p.ret is NONE or p.ret is None or p.has("basic"), "another kind of authorization counts as name and password", key="basic")
    l = ctx.P.func(VW + ".PyPIView.login")

    def brl(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and has_attr(t, "authenticated_userid"):
            return "same" if v else "other"
        if t.k == "call" and call_name(t) == "has_permission":
            return ("may" if v else "maynot") if cstr(call_args(t)[0]) == "user_login" else None
        if t.k == "call" and call_name(t) == "new_proxy_auth":
            return "token" if v else "notoken"
    sent = []

    def labl(ev, st):
        if ev.name in ("apireturn", "apiresult", "Response"):
            if any(has_call(a, "new_proxy_auth") for a in ev_args(ev)):
                sent.append(ev)
                return "send"
    paths = trace_paths(ctx, l, {"x": labl}, branch=brl, self_cls=l.cls, default_raises=(), events=("apireturn", "new_proxy_auth"), stop=("new_proxy_auth",), follow=lambda g, ev, d: None if g.module is l.module and g.name not in ("apireturn", "abort") else False)
    ctx.ob(R, l, some(paths, "send", "send!"), "no token is handed out", key="login-instances")
    check_paths(ctx, R, l, paths, lambda p: not p.has("send", "send!") or p.has("token") and p.has("same") and p.has("may"), "a login hands out a token to somebody who is not recognised as that user or may not log in", key="login")
    n = 0
    for g, c in callers(ctx.P, "new_proxy_auth", prefixes=ALL_SERVER):
        n += 1
        ctx.ob(R, g, g.qual in (VW + ".PyPIView.login", VW + ".PyPIView.user_patch"), "tokens are issued elsewhere", key="issuers", where=where(g, c))
    ctx.count(R, n, 1, "callers issuing tokens")


def check(ctx):
    validate(ctx)
    tokens(ctx)
    hashes(ctx)
    requests(ctx)


SELFTEST = [
    ("server/devpi_server/auth.py", """        if not is_root:
            userinfo = user.get(credentials=True)""", """        if user is None or not is_root or request is not None:
            userinfo = user.get(credentials=True)"""),
    ("server/devpi_server/auth.py", """                if result["status"] != "ok":
                    return dict(status="reject")
                # plugins may""", """                if result["status"] == "reject":
                    return dict(status="reject")
                # plugins may"""),
    ("server/devpi_server/auth.py", """                # plugins may never return from_user_object
                result.pop('from_user_object', None)
                return result""", """                return result"""),
    ("server/devpi_server/auth.py", """        except itsdangerous.SignatureExpired:
            return dict(status="expired")""", """        except itsdangerous.SignatureExpired as e:
            return dict(status="ok", groups=e.payload[1])"""),
    ("server/devpi_server/auth.py", """            if val[0] != authuser:""", """            if val[0] != authuser and val[2]:"""),
    ("server/devpi_server/auth.py", """            if val[2] and self.model.get_user(authuser) is None:""", """            if not val[2] and self.model.get_user(authuser) is None:"""),
    ("server/devpi_server/auth.py", """        if result["status"] == "ok":
            pseudo""", """        if result["status"] != "reject":
            pseudo"""),
    ("server/devpi_server/auth.py", """loads(authpassword, max_age=self.LOGIN_EXPIRATION)""", """loads(authpassword)"""),
    ("server/devpi_server/auth.py", """    LOGIN_EXPIRATION = 60 * 60 * 10  # 10 hours""", """    LOGIN_EXPIRATION = None"""),
    ("server/devpi_server/auth.py", """        if result:
            return dict(status="ok", from""", """        if result is not False:
            return dict(status="ok", from"""),
    ("server/devpi_server/auth.py", """        return salt and hash and (getpwhash(secret, salt) == hash)""", """        return salt and hash and (getpwhash(secret, salt) == hash or secret == hash)"""),
    ("server/devpi_server/auth.py", """            except AuthException:
                threadlog.exception("Error in authentication plugin.")
                return dict(status="nouser")""", """            except AuthException:
                threadlog.exception("Error in authentication plugin.")"""),
    ("server/devpi_server/model.py", """        if valid:
            if newhash""", """        if valid or newhash:
            if newhash"""),
    ("server/devpi_server/model.py", """            userconfig["pwhash"] = hash_password(password)""", """            userconfig["pwhash"] = password"""),
    ("server/devpi_server/views.py", """            if user != request.authenticated_userid:
                apireturn(""", """            if request.authenticated_userid is None:
                apireturn("""),
    ("server/devpi_server/auth.py", """            return dict(status="ok", from_user_object=True)""", """            return dict(status="ok")"""),
    ("server/devpi_server/auth.py", """        result = None
        if not is_root:
            userinfo""", """        result = None
        if authpassword != "":
            userinfo"""),
    ("server/devpi_server/view_auth.py", """        credentials[0], result""", """        result.get("username", credentials[1]), result"""),
    ("server/devpi_server/auth.py", """        if userinfo_list and not is_root:""", """        if not is_root:"""),
]
