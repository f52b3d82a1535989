"""M05: no name or path from outside leaves the place it belongs to."""
import re
from rules.lib import *  # noqa

ARCH = "devpi_common.archive"
BLOCKED = "".join(chr(x) for x in range(33)) + "!\"#$%&'()*+,/:;<=>?[\\]^`{|}~"


def slash(t):
    """'/' in x, for one value or any of them: (value or collection, negated)"""
    if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "/":
        return t.a[2]
    return None


def any_slash(t):
    """any("/" in v for v in <values>)"""
    if t.k == "call" and call_name(t) == "any" and call_args(t):
        c = call_args(t)[0]
        if c.k in ("comp", "list", "gen") or c.k == "comp":
            return contains(c, lambda x: slash(x) is not None)
    return False


def keys(ctx):
    R = ctx.rule("M05.keys", "a value with a separator never becomes part of a key")
    P = ctx.P
    f = P.func("devpi_server.keyfs_types.PTypedKey.__call__")

    def vals(it):
        return has_param(it, f.node.args.kwarg.arg if f.node.args.kwarg else "kw")
    def br(t, v, st):
        x = slash(t)
        if x is not None and x.k == "elem" and vals(x):
            return "dirty" if v else "clean"
        if any_slash(t):
            return "dirty" if v else "all"
    paths = trace_paths(ctx, f, {"make": lambda ev, st: ev.name in ("TypedKey", "format", "format_map")}, self_cls=f.cls, default_raises=(), events=("TypedKey", "format", "format_map"), branch=br, dedupe=False,
                        iters=lambda w, it, st: ("val" if w == "next" else "end") if vals(it) else None)
    ctx.ob(R, f, some(live_paths(paths), "make"), "it does not make keys", key="instances")
    each = handled("val", {"clean"}, "end")
    for p in live_paths(paths):
        if p.has("make"):
            ctx.ob(R, f, not p.has("dirty") and (p.has("all") or p.has("end") and each(p)), "a key is made of values which may hold a separator", path=p, key="make")
    allowed = {"devpi_server.keyfs_types", "devpi_server.keyfs"}
    n = 0
    for g, c in callers(P, "TypedKey"):
        n += 1
        ok = g is f or g.module.name in allowed and not (isinstance(c.args[1] if len(c.args) > 1 else None, (ast.BinOp, ast.JoinedStr, ast.Call)))
        ctx.ob(R, g, ok, "a key is made without checking its parts", where(g, c), key="other")
    ctx.count(R, n, 2, "places making keys")
    # the pattern which takes a path apart agrees
    g = P.func("devpi_server.keyfs_types.PTypedKey.__init__")
    pats = [s for s in strings_in(g.node) if "(?P<" in s] + [x.value for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and "(?P<" in x.value]
    ctx.ob(R, g, all(not re.search(r"\(\?P<[^>]*>\.", s) for s in pats), "parts taken from a path may hold separators", key="reverse")
    e = P.func("devpi_server.filestore.FileEntry.__init__")
    got = []
    trace_paths(ctx, e, {}, stores={"s": lambda s, st: got.append((s.value, s.node)) if s.kind == "attr" and s.name == "_storepath" else None}, self_cls=e.cls, default_raises=())
    ctx.ob(R, e, bool(got), "the place of a file's content is not set", key="storepath-instances")
    for t, node in got:
        ctx.ob(R, e, has_attr(t, "relpath") or has_param(t, "key"), "the place of a file's content isn't made from its key", where(e, node), key="storepath")


def fold(P, mod, t, name):
    """the value of a term for one argument, or None when it isn't known"""
    if t is None:
        return None
    if t.k == "c":
        return cval(t)
    if t.k == "un" and t.a[0] == "not":
        v = fold(P, mod, t.a[1], name)
        return None if v is None else not (v[0] if isinstance(v, tuple) else v)
    if t.k == "cmp":
        l, r = fold(P, mod, t.a[1], name), fold(P, mod, t.a[2], name)
        if t.a[0] in ("is", "==") and r is None and is_const(t.a[2]) and isinstance(l, tuple):
            return not l[0]
        if t.a[0] == "==" and isinstance(l, str) and isinstance(r, str):
            return l == r
        if t.a[0] == "in" and isinstance(l, str) and t.a[2].k in ("tup", "list", "set"):
            vs = [fold(P, mod, x, name) for x in items(t.a[2])]
            return None if None in vs else l in vs
        return None
    if t.k == "call":
        n = call_name(t)
        a = call_args(t)
        if n in ("search", "match", "fullmatch") and a:
            from rules.m04 import pattern_of
            if len(a) == 2:
                pat, arg = cstr(a[0]) or pattern_of(P, mod, a[0]), fold(P, mod, a[1], name)
            else:
                pat, arg = pattern_of(P, mod, t.a[0]), fold(P, mod, a[0], name)
            if isinstance(pat, str) and isinstance(arg, str):
                return (bool(getattr(re, n)(pat, arg)),)
            return None
        if n == "bool" and a:
            v = fold(P, mod, a[0], name)
            return None if v is None else (v[0] if isinstance(v, tuple) else bool(v))
        if n == "str" and a:
            return fold(P, mod, a[0], name)
    return None


def names(ctx):
    R = ctx.rule("M05.names", "user and index names which could change a path or URL are refused")
    P = ctx.P
    f = P.func("devpi_server.model.is_valid_name")
    par = f.params()[0]
    n = unknown = 0
    for name in [".", ".."] + ["a%sb" % c for c in BLOCKED]:
        paths = live_paths(trace_paths(ctx, f, {}, args={par: const(name)}, default_raises=()))
        for p in paths:
            feasible = True
            for k, v in p.st.facts.items():
                w = fold(P, f.module, k, name)
                w = w[0] if isinstance(w, tuple) else w
                if w is not None and bool(w) != v:
                    feasible = False
            if not feasible:
                continue
            v = fold(P, f.module, p.ret, name)
            v = v[0] if isinstance(v, tuple) else v
            n += 1
            if v is None and p.ret is not NONE:
                unknown += 1
            ctx.ob(R, f, not v, "the name %r is accepted" % name, key="accepts-%r" % name)
    ctx.count(R, n - unknown, 30, "names for which the check is decided")
    checkname = {f.name}
    for q, par, store in (("devpi_server.model.RootModel.create_user", "username", ("_modify", "set", "add", "update", "_set")), ("devpi_server.model.RootModel.create_stage", "index", ("_modify", "set", "update", "_set"))):
        g = P.func(q)

        def lab(ev, st):
            if ev.name in store and (ev.name in ("_modify", "_set") or ev.recv is not None and (has_attr(ev.recv, "USERLIST", "key", "USER") or has_call(ev.recv, "USERLIST"))):
                return "store"
        paths = trace_paths(ctx, g, {"x": lab}, self_cls=g.cls, default_raises=(), events=store + tuple(checkname), follow=lambda h, ev, d: ev is not None and ev.name not in store and h.name != f.name and d < 2)
        ctx.ob(R, g, some(paths, "store"), "nothing is stored", key="instances-" + par)
        for p in paths:
            if not p.has("store"):
                continue
            ok = any(v is True and k.k == "call" and call_name(k) in checkname and has_param(k, par) for k, v in p.st.facts.items())
            ctx.ob(R, g, ok, "a name is stored without checking it", path=p, key="unchecked-" + par)
    # nothing else makes new users and indexes
    n = 0
    for g in P.iter_funcs(*ALL_SERVER):
        for c in own_calls(g, "create_stage", "create_user"):
            n += 1
    ctx.count(R, n, 4, "places creating users or indexes")
    for g in P.iter_funcs("devpi_server"):
        for c in own_calls(g, "add", "set", "update"):
            if isinstance(c.func, ast.Attribute) and "USERLIST" in src(c.func.value) and c.func.attr in ("add", "set") and g.name not in ("create_user", "delete_user", "get_userlist") and g.cls is not None and g.cls.name != "RootModel":
                ctx.ob(R, g, False, "users are added besides the check of names", where(g, c), key="userlist")


def below(p, t):
    """the path t was checked to be below another one"""
    x = lambda k: contains(k, lambda y: y == t)
    lex = False
    for k, v in p.st.facts.items():
        if v and k.k == "call" and call_name(k) in ("is_relative_to",) and x(k):
            lex = True
        if v and k.k == "cmp" and k.a[0] == "==" and has_call(k, "common", "commonpath", "commonprefix") and x(k):
            lex = True
        if v and k.k == "call" and call_name(k) in ("relto", "startswith") and x(k):
            lex = True
    return lex


def archives(ctx):
    R = ctx.rule("M05.archive", "members of an archive are only written below the target directory")
    P = ctx.P
    f = P.func(ARCH + ".get_member_target")
    paths = trace_paths(ctx, f, {"rel": "relative_to", "isrel": "is_relative_to"}, raises={"rel": ("ValueError",)}, default_raises=(), events=("relative_to", "is_relative_to"))
    ctx.ob(R, f, bool(live_paths(paths)), "it never returns", key="instances")
    for p in live_paths(paths):
        checked = p.has("rel") or any(v and k.k == "call" and call_name(k) == "is_relative_to" for k, v in p.st.facts.items()) or below(p, p.ret)
        nopar = has_call(p.ret, "resolve", "normpath", "realpath", "abspath") or any(has_call(k, "resolve", "normpath", "realpath", "abspath") for k in p.st.facts)
        for k, v in p.st.facts.items():
            if v is False and k.k == "cmp" and k.a[0] == "in" and (has_attr(k.a[1], "pardir") or cstr(k.a[1]) == ".." or k.a[1].k == "ref" and str(k.a[1].a[0]).endswith("pardir")):
                nopar = True
            if v is False and k.k == "call" and call_name(k) == "any" and (has_str(k, "..") or "pardir" in show(k)):
                nopar = True
        ctx.ob(R, f, checked, "a member's path is returned without checking that it is below the directory", path=p, key="below")
        ctx.ob(R, f, nopar, "a member's path may hold parent references", path=p, key="parent")
    n = 0
    for g in P.iter_funcs("devpi_common", "devpi_web", "devpi", "devpi_server"):
        if not ({"extractall", "namelist", "getmembers", "infolist", "getnames"} & attrs_of(g.node)) or not ({"extractall", "extract", "open", "mkdir", "write_bytes", "write"} & attrs_of(g.node)):
            continue
        if g.module.name != ARCH and "extractall" not in attrs_of(g.node):
            continue
        WRITE = ("open", "mkdir", "write_bytes", "write_text", "touch", "symlink_to")

        def member(t):
            return contains(t, lambda x: x.k == "elem")

        def lab(ev, st):
            if ev.name == "get_member_target":
                return "check" if any(member(a) for a in ev_args(ev)) else None
            if ev.name in ("extractall", "extract"):
                return "all"
            if ev.name in WRITE and ev.recv is not None and member(ev.recv):
                return "safe" if has_call(ev.recv, "get_member_target") else "unsafe"
            if ev.name == "open" and ev.recv is None and ev.args and member(ev.args[0]):
                return "safe" if has_call(ev.args[0], "get_member_target") else "unsafe"
        paths = trace_paths(ctx, g, {"x": lab}, self_cls=g.cls, default_raises=(), events=("get_member_target", "extractall", "extract") + WRITE, stop=("get_member_target",), dedupe=False,
                            iters=lambda w, it, st: ("m" if w == "next" else "end") if has_call(it, "getmembers", "namelist", "infolist", "getnames") or has_attr(it, "getmembers") else None)
        if not some(paths, "safe", "unsafe", "all"):
            continue
        n += 1
        for p in paths:
            ctx.ob(R, g, not p.has("unsafe"), "a member is written to an unchecked path", path=p, key="write")
            if p.has("all"):
                i = p.trace.index("all")
                before = p.trace[:i]
                ok = "end" in before and before.count("check") == before.count("m") and "m" not in p.trace[i:]
                ctx.ob(R, g, ok, "all members are extracted without checking each of them", path=p, key="all")
    ctx.count(R, n, 2, "functions which extract archives")


def attrs_of(node):
    return {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


def docs(ctx):
    R = ctx.rule("M05.docs", "a documentation path taken from a request is only used when it is below the unpacked documentation")
    P = ctx.P
    n = 0
    SINK = ("isfile", "open", "check", "read", "read_binary", "exists", "isdir", "is_file", "read_bytes", "read_text", "listdir", "visit")
    for g in P.iter_funcs("devpi_web"):
        if g.module.name != "devpi_web.doczip" or "relpath" not in g.params():
            continue

        def joined(t):
            """a path made by joining the outside part"""
            for x in subterms(t):
                if x.k == "call" and call_name(x) in ("join", "joinpath") and any(has_param(a, "relpath") for a in call_args(x)):
                    return x
                if x.k == "bin" and has_param(x.a[2] if len(x.a) > 2 else x, "relpath"):
                    return x
            return None
        used = []

        def lab(ev, st):
            if ev.name in SINK and ev.recv is not None and joined(ev.recv) is not None:
                used.append((joined(ev.recv), dict(st.facts), ev.node))
                return "use"
        paths = trace_paths(ctx, g, {"x": lab}, self_cls=g.cls, default_raises=(), events=SINK + ("join", "joinpath", "common"), stop=("unpack_docs", "get_unpack_path", "locked_unpack_path"), max_states=60)

        class Q:
            pass
        hit = False
        for t, facts, node in used:
            hit = True
            q = Q()
            q.st = Q()
            q.st.facts = facts
            ctx.ob(R, g, below(q, t), "a file of the documentation is accessed without checking where it is", where(g, node), key="use")
        for p in live_paths(paths):
            t = joined(p.ret) if p.ret is not None else None
            if t is not None and p.ret == t:
                hit = True
                ctx.ob(R, g, below(p, t), "a path of the documentation is returned without checking where it is", path=p, key="return")
        n += hit
    ctx.count(R, n, 2, "functions using paths from requests")
    # the request's part is only used by them
    for g in P.iter_funcs("devpi_web"):
        for c in own_calls(g, "join", "joinpath"):
            if g.module.name == "devpi_web.views" and isinstance(c.func, ast.Attribute) and any("relpath" in src(a) or "matchdict" in src(a) for a in c.args) and not isinstance(c.func.value, ast.Constant):
                ctx.ob(R, g, False, "a path is made from a request's part", where(g, c), key="views")


def check(ctx):
    keys(ctx)
    names(ctx)
    archives(ctx)
    docs(ctx)


S = "server/devpi_server/"
A = "common/devpi_common/archive.py"
SELFTEST = [
    (S + "keyfs_types.py", "            if \"/\" in val:\n                raise ValueError(val)\n", "            if not val:\n                raise ValueError(val)\n"),
    (S + "keyfs_types.py", "        for val in kw.values():\n            if \"/\" in val:\n                raise ValueError(val)\n", "        if \"/\" in next(iter(kw.values())):\n            raise ValueError(kw)\n"),
    (S + "model.py", "        return False\n    return not name_char", "        pass\n    return not name_char"),
    (S + "model.py", "if name in (\".\", \"..\"):", "if name == \"..\":"),
    (S + "model.py", "*+,/:;<=>?", "*+,:;<=>?"),
    (S + "model.py", "        if not is_valid_name(index):", "        if not is_valid_name(type):"),
    (S + "model.py", "        if not is_valid_name(username):", "        if not kwargs and not is_valid_name(username):"),
    (A, "    if os.pardir in relpath.parts:", "    if os.pardir == relpath.parts:"),
    (A, "    if os.pardir in relpath.parts:\n        raise ValueError(\n            f\"archive name {name!r} out of bound\")\n", ""),
    (A, "            get_member_target(to_path, member.name)\n", "            to_path.joinpath(member.name)\n"),
    (A, "            fpath = get_member_target(basedir, name)", "            fpath = basedir.joinpath(name)"),
    (A, "        for member in members:\n            get_member_target(to_path, member.name)\n", "        for member in members:\n            if member.isfile():\n                get_member_target(to_path, member.name)\n"),
    ("web/devpi_web/doczip.py", "    if path.common(doc_path) != doc_path:\n        return None\n", ""),
    ("web/devpi_web/doczip.py", "    doc_path = unpack_docs(stage, name, version, entry)\n    return get_path_below(doc_path, relpath)", "    doc_path = unpack_docs(stage, name, version, entry)\n    return doc_path.join(relpath)"),
]
