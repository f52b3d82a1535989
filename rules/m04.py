"""M04: project names are the same however they are spelled."""
try:
    from re import _parser as sre, _constants as srec
except ImportError:      # older Pythons
    import sre_parse as sre
    import sre_constants as srec
from rules.lib import *  # noqa

NAMES = ("list_projects_perstage", "_list_projects_perstage", "_stale_list_projects_perstage", "_get_remote_projects")
TIMES = ("is_expired", "get_etag", "get_timestamp", "refresh", "expire", "acquire", "release")
MODS = ("devpi_server.model", "devpi_server.mirror", "devpi_server.views", "devpi_server.replica", "devpi_server.filestore", "devpi_server.importexport", "devpi_web.views", "devpi_web.main", "devpi_web.doczip", "devpi_web.indexing", "devpi_web.whoosh_index")


def project_keys(P):
    """names of the keys which belong to one project"""
    res = set()
    for g, c in callers(P, "add_key"):
        if len(c.args) >= 2 and isinstance(literal(c.args[1]), str) and "{project}" in literal(c.args[1]):
            res.add(literal(c.args[0]))
    return res


def names_term(t):
    """a collection of an index's project names"""
    if t.k == "star":
        t = t.a[0]
    if t.k == "call":
        n = call_name(t)
        if n in NAMES:
            return True
        if n in ("get", "update") and call_recv(t) is not None:
            r = call_recv(t)
            return r.k == "attr" and r.a[1] in ("key_projects", "cache_projectnames") or r.k == "call" and call_name(r) == "PROJNAMES"
        if n in ("set", "list", "frozenset", "sorted", "get_mutable_deepcopy", "ensure_deeply_readonly") and call_args(t):
            return names_term(call_args(t)[0])
    if t.k == "enter":
        return any(names_term(x) for x in t.a if isinstance(x, T))
    return False


class Flow:
    """is a value a normalised project name?"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.keys = project_keys(self.P)
        self.calls = {}
        self.sinks = []
        self.active = set()
        self.memo = {}

    def norm(self, t, f, depth=0):
        """None when it is, else a description of where it comes from"""
        k = t.k
        if k == "call":
            n = call_name(t)
            if n in ("normalize_name", "normalize_whitelist_name"):
                return None
            if n in ("ensure_unicode", "str", "intern") and call_args(t):
                return self.norm(call_args(t)[0], f, depth)
        if k == "c":
            return None
        if k == "attr" and t.a[1] in ("project", "verified_project"):
            return None
        if k == "elem" and (names_term(t.a[0]) or has_call(t.a[0], *NAMES) or has_attr(t.a[0], "key_projects")):
            return None
        if k == "elem" and contains(t.a[0], lambda x: x.k == "call" and call_name(x) == "list_projects"):
            return None
        if k == "elem" and t.a[0].k in ("set", "list", "tup"):
            return self.first(t.a[0].a[0], f, depth)
        if k == "sub" and (cstr(t.a[1]) == "project" and has_attr(t.a[0], "params") or cstr(t.a[1]) == "projectname"):
            # parameters of a key, or written by an export from such a name
            return None
        if k == "phi":
            return self.first([x for x in t.a if isinstance(x, T)] + [y for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, T)], f, depth)
        if k in ("p", "free") and isinstance(t.a[0], str):
            return self.param(t.a[0], f, depth)
        return show(t)

    def first(self, ts, f, depth):
        for x in ts:
            r = self.norm(x, f, depth)
            if r:
                return r

    def param(self, name, f, depth):
        g = f
        while g is not None and name not in g.params():
            # a variable of the enclosing function
            vals = [x.value for x in walk_own(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)] if g is not f else []
            if vals:
                return None if all(isinstance(v, ast.Call) and src(v.func).rpartition(".")[2] == "normalize_name" for v in vals) else "%s of %s" % (name, g.qual)
            g = g.parent
        if g is None:
            return name
        if g is not f:
            # a parameter of the enclosing function, unless assigned there
            vals = [x.value for x in walk_own(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)]
            if vals and all(isinstance(v, ast.Call) and src(v.func).rpartition(".")[2] == "normalize_name" for v in vals):
                return None
        key = (g, name)
        if key in self.active:
            return None
        if key not in self.memo:
            self.active.add(key)
            self.memo[key] = self.from_callers(g, name, depth)
            self.active.discard(key)
        return self.memo[key]

    def from_callers(self, g, name, depth):
        if depth > 6:
            return "%s of %s" % (name, g.qual)
        sites = 0
        called = g.cls.name if g.name == "__init__" and g.cls is not None else g.name
        for h in self.P.iter_funcs(*ALL_SERVER):
            if not any(True for c in own_calls(h, called, "partial")) and not any(literal(c.args[0]) == called for c in own_calls(h, "op_sro", "op_sro_check_mirror_whitelist") if c.args):
                continue
            for ev in self.events(h):
                if ev.name in ("op_sro", "op_sro_check_mirror_whitelist"):
                    if not ev.args or cstr(ev.args[0]) != called:
                        continue
                    a = ev.kwargs.get(name)
                elif ev.name == called:
                    ps = g.params()
                    if g.cls is not None and ps[:1] in (["self"], ["cls"]):
                        ps = ps[1:]
                    a = ev.kwargs.get(name)
                    if a is None and name in ps and ps.index(name) < len(ev.args):
                        a = ev.args[ps.index(name)]
                    if g.name in ("add", "set", "get", "discard", "acquire", "release", "refresh", "expire") and not self.cache_recv(ev.recv):
                        continue
                else:
                    continue
                if a is None:
                    continue
                sites += 1
                r = self.norm(a, h, depth + 1)
                if r:
                    return "%s, given by %s" % (r, h.qual) if "given by" not in r else r
        return None

    def cache_recv(self, t):
        return t is not None and has_attr(t, "cache_projectnames", "cache_retrieve_times")

    def events(self, f):
        if f not in self.calls:
            evs = []

            def lab(ev, st):
                if ev.name:
                    evs.append(ev)
            wanted = set(n for c in ast.walk(f.node) if isinstance(c, ast.Call) for n in [c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None] if n)
            try:
                trace_paths(self.ctx, f, {"x": lab}, self_cls=f.cls, default_raises=(), events=tuple(wanted), follow=lambda g, ev, d: False, max_states=24, rounds=1)
            except AnchorError:
                pass
            self.calls[f] = evs
        return self.calls[f]

    def collect(self, f):
        out = {}

        def note(kind, t, node):
            out.setdefault((kind, t), node)

        def cmps(t, node):
            for x in subterms(t):
                if x.k == "cmp" and x.a[0] == "in" and names_term(x.a[2]):
                    note("membership", x.a[1], node)

        def lab(ev, st):
            for a in ev_args(ev):
                cmps(a, ev.node)
            if ev.name in self.keys and "project" in ev.kwargs:
                note("key", ev.kwargs["project"], ev.node)
            if ev.name in ("add", "remove", "discard") and ev.recv is not None and ev.args and names_term(ev.recv):
                note("name list", ev.args[0], ev.node)
            if ev.name in TIMES and ev.recv is not None and has_attr(ev.recv, "cache_retrieve_times") and ev.args:
                note("retrieval times", ev.args[0], ev.node)
            if ev.name in ("intersection", "issuperset", "isdisjoint") and ev.args and ev.recv is not None and "whitelist" in show(ev.recv):
                for x in items(ev.args[0]):
                    if cstr(x) is None:
                        note("whitelist", x, ev.node)
            if ev.name == "partial" and ev.args and has_attr(ev.args[0], "cache_retrieve_times") and len(ev.args) > 1:
                note("retrieval times", ev.args[1], ev.node)

        def br(t, v, st):
            cmps(t, None)
        try:
            paths = trace_paths(self.ctx, f, {"x": lab}, branch=br, self_cls=f.cls, default_raises=(), events=tuple(self.keys) + ("add", "remove", "discard", "intersection", "issuperset", "isdisjoint", "partial") + TIMES + NAMES,
                                follow=lambda g, ev, d: False, max_states=40)
        except AnchorError:
            return out
        for p in paths:
            if p.ret is not None:
                cmps(p.ret, None)
        return out


def flow(ctx):
    R = ctx.rule("M04.flow", "a project name which selects a key, is looked up in or put into a list of names, a cache or a whitelist was normalised")
    P = ctx.P
    fl = Flow(ctx)
    ctx.count(R, len(fl.keys), 3, "keys of projects")
    n = 0
    kinds = set()
    for f in P.iter_funcs(*ALL_SERVER):
        if f.module.name not in MODS:
            continue
        s = names_in(f.node) | attrs_in_set(f.node)
        if not s & (fl.keys | set(NAMES) | {"key_projects", "cache_projectnames", "cache_retrieve_times", "whitelist"}):
            continue
        for (kind, t), node in fl.collect(f).items():
            n += 1
            kinds.add(kind)
            r = fl.norm(t, f)
            ctx.ob(R, f, r is None, "the %s is used with a project name as it was spelled (%s)" % (kind, r), where(f, node) if node is not None else None, key="%s-%s" % (kind, show(t)))
    ctx.count(R, n, 15, "uses of project names")
    ctx.ob(R, "devpi_server", {"key", "membership", "name list", "retrieval times", "whitelist"} <= kinds, "uses of project names were not found: %s" % sorted({"key", "membership", "name list", "retrieval times", "whitelist"} - kinds), key="kinds")
    # what `.project` of links, entries and contexts holds
    stored = 0
    for f in P.iter_funcs(*ALL_SERVER):
        if f.module.name not in MODS and f.module.name != "devpi_server.view_auth":
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "project" and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
            continue
        got = {}
        trace_paths(ctx, f, {}, stores={"s": lambda e, st: got.setdefault((show(e.base), e.value), e.node) and None if e.kind == "attr" and e.name == "project" else None}, self_cls=f.cls, default_raises=(), events=("project",), follow=lambda g, ev, d: False, max_states=40)
        for (base, t), node in got.items():
            if f.cls is not None and f.cls.name in ("ELink", "Indexer", "ProjectIndexingInfo", "IndexParser") and f.name == "__init__" and t.k == "p" or "Parser" in (f.cls.name if f.cls is not None else ""):
                continue
            stored += 1
            ok = fl.norm(t, f) if not (t.k == "c") else None
            ctx.ob(R, f, ok is None, "a project name is recorded as it was spelled (%s)" % ok, where(f, node), key="store-%s" % show(t))
    ctx.count(R, stored, 2, "recorded project names")


def attrs_in_set(node):
    return {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)} | {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}


def views_(ctx):
    R = ctx.rule("M04.views", "views take the project from the request only in its normalised form")
    P = ctx.P
    f = P.func("devpi_server.view_auth.RootFactory.project") if "devpi_server.view_auth.RootFactory.project" in P.funcs else None
    if f is None:
        f = [g for g in P.iter_funcs("devpi_server") if g.name == "project" and g.module.name == "devpi_server.view_auth"][0]
    paths = trace_paths(ctx, f, {}, self_cls=f.cls, default_raises=(), follow=lambda g, ev, d: False)
    for p in live_paths(paths):
        t = p.ret
        ctx.ob(R, f, t is NONE or t is None or t.k == "call" and call_name(t) == "normalize_name" or p.st.facts.get(T("cmp", "is", t, NONE)) is True or same_as_norm(p, t), "the project of a request is taken as it was spelled", key="context")
    g = f.cls.method("verified_project")
    paths = trace_paths(ctx, g, {}, self_cls=f.cls, default_raises=(), follow=lambda h, ev, d: False)
    for p in live_paths(paths):
        ctx.ob(R, g, p.ret is not None and (has_attr(p.ret, "project") or has_call(p.ret, "normalize_name")), "the project of a request is taken as it was spelled", key="verified")
    n = 0
    for h in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(h.node):
            raw = isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and literal(x.slice) == "project" and isinstance(x.value, ast.Attribute) and x.value.attr == "matchdict" or \
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "matchdict" and x.args and literal(x.args[0]) == "project"
            if not raw or h is f:
                continue
            n += 1
            ctx.ob(R, h, raw_use(h, x), "the project of a request is used as it was spelled", where(h, x), key="matchdict")
    ctx.count(R, n, 1, "other reads of the project from the request")


def same_as_norm(p, t):
    return any(v and k.k == "cmp" and k.a[0] == "==" and t in k.a[1:] and has_call(k, "normalize_name") for k, v in p.st.facts.items())


def raw_use(h, node):
    """the raw name only reaches a validity check or the normalisation"""
    for c in walk_own(h.node):
        if isinstance(c, ast.Call) and node in c.args and (src(c.func).rpartition(".")[2] in ("normalize_name",) or src(c.func).startswith("abort")):
            return True
        if isinstance(c, ast.Assign) and c.value is node and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name):
            v = c.targets[0].id
            uses = [x for x in walk_own(h.node) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
            good = [x for cc in walk_own(h.node) if isinstance(cc, ast.Call) and (src(cc.func).rpartition(".")[2] == "normalize_name" or src(cc.func).startswith("abort")) for x in cc.args]
            tests = [x for cc in walk_own(h.node) if isinstance(cc, ast.Compare) for x in [cc.left] + cc.comparators]
            return all(u in good or u in tests for u in uses)
    return False


def function(ctx):
    R = ctx.rule("M04.function", "normalising a name twice gives the same as once, and case and separators do not matter")
    P = ctx.P
    f = P.func("devpi_common.validation.normalize_name")
    paths = live_paths(trace_paths(ctx, f, {}, default_raises=(), follow=lambda g, ev, d: False))
    ctx.ob(R, f, bool(paths), "it never returns", key="instances")
    for p in paths:
        t = p.ret
        lower = False
        subs = []
        while t is not None and t.k == "call":
            n = call_name(t)
            if n == "lower":
                lower = True
                t = call_recv(t)
            elif n == "sub":
                a = call_args(t)
                if len(a) == 2:
                    subs.append((pattern_of(P, f.module, t.a[0]), cstr(a[0])))
                    t = a[1]
                elif len(a) == 3:
                    pat = cstr(a[0])
                    subs.append((pat if pat is not None else pattern_of(P, f.module, a[0]), cstr(a[1])))
                    t = a[2]
                else:
                    break
            elif n in ("ensure_unicode", "str", "casefold"):
                lower = lower or n == "casefold"
                t = call_args(t)[0] if call_args(t) else call_recv(t)
            else:
                break
        ctx.ob(R, f, t is not None and t.k == "p" and lower and len(subs) == 1, "the normalised name isn't made by replacing separators and lowering", key="form")
        for pat, repl in subs:
            ctx.ob(R, f, idempotent(pat, repl), "replacing %r by %r is not idempotent or depends on the case" % (pat, repl), key="idempotent")


def pattern_of(P, module, t):
    """the pattern of a module level compiled expression"""
    name = None
    for x in subterms(t):
        if x.k == "ref" and isinstance(x.a[0], str):
            name = x.a[0].rpartition(".")[2]
            if name in ("sub", "search", "match", "fullmatch"):
                name = x.a[0].split(".")[-2]
        if x.k == "call" and call_name(x) == "compile" and call_args(x):
            return cstr(call_args(x)[0])
    for s in module.tree.body:
        if isinstance(s, ast.Assign) and name in {getattr(x, "id", None) for x in s.targets} and isinstance(s.value, ast.Call) and s.value.args:
            fl = s.value.args[1:] or s.value.keywords
            return literal(s.value.args[0]) if not fl else None


def idempotent(pat, repl):
    """one run of characters (one or more, a set closed under case) becomes
    one character of that set"""
    if not isinstance(pat, str) or not isinstance(repl, str) or len(repl) != 1:
        return False
    try:
        p = sre.parse(pat)
    except Exception:
        return False
    if len(p) != 1 or p[0][0] is not srec.MAX_REPEAT:
        return False
    lo, hi, body = p[0][1]
    if lo != 1 or hi is not srec.MAXREPEAT or len(body) != 1:
        return False
    op, arg = body[0]
    if op is srec.NOT_LITERAL or op is srec.LITERAL:
        chars = {chr(arg)}
        neg = op is srec.NOT_LITERAL
    elif op is srec.IN:
        chars = set()
        neg = False
        for o, a in arg:
            if o is srec.NEGATE:
                neg = True
            elif o is srec.LITERAL:
                chars.add(chr(a))
            elif o is srec.RANGE:
                chars |= {chr(x) for x in range(a[0], a[1] + 1)}
            else:
                return False
    else:
        return False

    def inside(c):
        return (c in chars) != neg
    letters = "abcdefghijklmnopqrstuvwxyz"
    return inside(repl) and repl == repl.lower() and all(inside(c) == inside(c.upper()) for c in letters) and \
        not any(inside(c) for c in letters + "0123456789") and all(inside(c) for c in "-_.")


def elsewhere(ctx):
    R = ctx.rule("M04.web", "documentation directories and search entries are named by the normalised project")
    P = ctx.P
    f = P.func("devpi_web.doczip.get_unpack_path")
    paths = trace_paths(ctx, f, {}, default_raises=(), follow=lambda g, ev, d: False)
    for p in live_paths(paths):
        ctx.ob(R, f, raw_in(p.ret, "name", "project") is None, "documentation of one project is unpacked to different places", key="unpack")
    n = 0
    for g in P.iter_funcs("devpi_web"):
        if "delete_by_term" not in attrs_in_set(g.node):
            continue
        seen = {}

        def lab(ev, st):
            if ev.name == "delete_by_term" and cstr(argn(ev, 0)) == "path":
                seen.setdefault(argn(ev, 1), ev.node)
            elif ev.name == "document_number" and "path" in ev.kwargs:
                seen.setdefault(ev.kwargs["path"], ev.node)

        def stored(e, st):
            if e.kind == "sub" and cstr(e.name) == "path" and e.value is not None:
                seen.setdefault(e.value, e.node)
        trace_paths(ctx, g, {"x": lab}, stores={"s": stored}, default_raises=(), events=("delete_by_term", "document_number"), self_cls=g.cls, max_states=40, rounds=1)
        for t, node in seen.items():
            n += 1
            ctx.ob(R, g, raw_in(t) is None, "a search entry is named by the project as it was spelled (%s)" % raw_in(t), where(g, node), key="path-%s" % g.name)
    ctx.count(R, n, 2, "places selecting search entries")


def raw_in(t, *params):
    """a project name inside a path which did not go through normalize_name"""
    if t is None:
        return None
    if t.k == "call" and call_name(t) == "normalize_name":
        return None
    if t.k == "p" and t.a[0] in (params or ("project", "name")):
        return show(t)
    if t.k == "sub" and cstr(t.a[1]) == "name" or t.k == "attr" and t.a[1] in ("name", "project_name") and not params:
        return show(t)
    if t.k == "sub":
        return None
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    r = raw_in(z, *params)
                    if r:
                        return r
    return None


def check(ctx):
    flow(ctx)
    views_(ctx)
    function(ctx)
    elsewhere(ctx)


S = "server/devpi_server/"
SELFTEST = [
    (S + "model.py", "            index=self.index, project=normalize_name(project))\n\n    def key_projversion(", "            index=self.index, project=project)\n\n    def key_projversion("),
    (S + "model.py", "        return normalize_name(project) in self.list_projects_perstage()", "        return project in self.list_projects_perstage()"),
    (S + "model.py", "        self.project = normalize_name(project)\n        self.version = version\n", "        self.project = project\n        self.version = version\n"),
    (S + "mirror.py", "        project = normalize_name(project)\n        lock =", "        lock ="),
    (S + "mirror.py", "        project = normalize_name(project)\n        if self.is_project_cached", "        if self.is_project_cached"),
    (S + "view_auth.py", "        return n_project", "        return project"),
    (S + "views.py", "        name, version = self.context.project, self.context.version", "        name, version = self.request.matchdict['project'], self.context.version"),
    ("common/devpi_common/validation.py", "    return safe_name_rex.sub('-', name).lower()", "    return safe_name_rex.sub('-', name)"),
    ("common/devpi_common/validation.py", "safe_name_rex = re.compile('[^A-Za-z0-9]+')", "safe_name_rex = re.compile('[^A-Za-z0-9-]+')"),
    ("common/devpi_common/validation.py", "safe_name_rex = re.compile('[^A-Za-z0-9]+')", "safe_name_rex = re.compile('[^A-Za-z0-9]')"),
    ("web/devpi_web/whoosh_index.py", 'path = u"/%s/%s" % (indexname, normalize_name(project))', 'path = u"/%s/%s" % (indexname, project)'),
    ("web/devpi_web/whoosh_index.py", "name=normalize_name(data['name']))", "name=data['name'])"),
    ("web/devpi_web/doczip.py", "stage.user.name, stage.index, normalize_name(name), version", "stage.user.name, stage.index, name, version"),
]
