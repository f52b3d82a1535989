"""M01: a mirror is only asked about a private project when the whitelist allows it."""
from rules.lib import *  # noqa

MD = "devpi_server.model"
# operations which give release data of a project
DATA = {"get_simplelinks_perstage", "list_versions_perstage", "get_versiondata_perstage", "get_releaselinks_perstage", "get_link_from_entrypath", "get_linkstore_perstage", "get_latest_version_perstage"}
NAMES = {"has_project_perstage", "list_projects_perstage"}


def of_type(t):
    """(is a comparison of an index type with 'mirror', polarity)"""
    if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "mirror" for x in t.a[1:]) and (has_str(t, "type") or has_attr(t, "index_type", "type")):
        return True
    return False


def cur_round(trace):
    i = max((k for k, x in enumerate(trace) if x == "stage"), default=-1)
    return trace[i + 1:]


UNKNOWN = ("has", "hasnot", "unknown")


def asked_project(ev, st):
    """the answers an index can give to the question for a project; the same for a whole visit"""
    if ev.name != "has_project_perstage":
        return None
    r = [x for x in cur_round(st.auto) if x in UNKNOWN]
    res = [("has", TRUE), ("hasnot", FALSE), ("unknown", T("ref", MD + ".Unknown"))]
    if r:
        return [(None, v) for x, v in res if x == r[0]]
    if "private" in cur_round(st.auto):
        # only mirrors do not know
        return res[:2]
    return res


def listed_test(ev, st):
    if ev.name in ("intersection", "isdisjoint") and ev.args and any(has_str(a, "*") for a in ev.args):
        a, b = ("listed", TRUE), ("unlisted", FALSE)
        return [a, b] if ev.name == "intersection" else [(a[0], FALSE), (b[0], TRUE)]
    return None


def walk_whitelist(ctx, f, self_cls, yields=None):
    wl = []

    def results(ev, st):
        r = asked_project(ev, st)
        if r is None:
            r = listed_test(ev, st)
            if r is not None:
                wl.append(T("call", ev.fterm, tuple(ev.args), ()) if False else ev.term)
        return r

    def lab(ev, st):
        if ev.fterm.k == "call" and call_name(ev.fterm) == "getattr":
            return "use"

    def br(t, v, st):
        if of_type(t):
            if v is False and st.auto.count("stage") > 2:
                return PRUNE
            return "mirror" if v else "private"
        if t.k == "cmp" and t.a[0] == "is" and any((refname(x) or "").endswith(".Unknown") for x in t.a[1:]):
            o = t.a[1] if (refname(t.a[2]) or "").endswith(".Unknown") else t.a[2]
            return (PRUNE if v != ((refname(o) or "").endswith(".Unknown")) else None) if o.k in ("c", "ref") else None
        if (refname(t) or "").endswith(".Unknown"):
            return PRUNE if v else None
        if t.k == "bin" and t.a[0] in ("BitAnd", "&") and has_str(t, "*") or t.k == "cmp" and t.a[0] == "in" and (has_str(t.a[2], "mirror_whitelist") or has_str(t.a[1], "*")):
            wl.append(t)
            return "listed" if v else "unlisted" if t.k == "bin" else None
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) in ("union", "intersection") for x in t.a[1:]):
            # how whitelists are combined is looked at separately
            n = next(cstr(x) for x in t.a[1:] if cstr(x) in ("union", "intersection"))
            return PRUNE if v != (n == "union") else None

    def iters(what, it, st):
        if has_call(it, "sro"):
            if what == "next":
                # enough to look at: private indexes first, then a mirror
                return PRUNE if "mirror" in st.auto else "stage"
            return "end"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=iters, self_cls=self_cls, default_raises=(), yields=yields, yield_exc=(), events=("getattr", "has_project_perstage", "intersection", "union", "isdisjoint"),
                        follow=lambda g, ev, d: None if g.module.name == MD and g.name not in ("sro", "filter_projects", "has_project_perstage") else False, rounds=3, max_states=600, dedupe=False, results=results)
    return paths, wl


def rounds_of(trace):
    """split a trace at loop iterations"""
    cur = None
    for x in trace:
        if x in ("stage", "end"):
            if cur is not None:
                yield cur
            cur = [] if x == "stage" else None
        elif cur is not None:
            cur.append(x)
    if cur is not None:
        yield cur


def lookup(ctx):
    R = ctx.rule("M01.lookup", "during a lookup over an index and its bases, a mirror visited after a private index had the project is skipped unless the whitelist collected on the way names the project or everything; "
                 "every private index visited while not whitelisted is asked for the project")
    C = ctx.P.cls(MD + ".BaseStage")
    f = C.method("op_sro_check_mirror_whitelist")
    paths, wls = walk_whitelist(ctx, f, C, yields=lambda t, st: "yield")
    ctx.ob(R, f, some(paths, "use", "yield"), "nothing is looked up", key="instances")

    def ok(p):
        hit = listed = False
        for r in rounds_of(p.trace):
            kind = "mirror" if "mirror" in r else "private" if "private" in r else None
            if "use" in r or "yield" in r:
                if kind is None and (hit or True):
                    # used without knowing what it is
                    return False
                if kind == "mirror" and hit and not listed:
                    return False
            if kind == "private":
                if "listed" in r:
                    listed = True
                elif "has" in r:
                    if not listed or True:
                        hit = True
        return True
    check_paths(ctx, R, f, paths, ok, "a mirror is asked about a project which exists privately and is not whitelisted", key="blocked")

    def asked(p):
        listed = False
        rs = list(rounds_of(p.trace))
        for i, r in enumerate(rs):
            complete = i + 1 < len(rs) or p.trace[-1] == "end"
            if "private" not in r:
                continue
            if "listed" in r:
                listed = True
            elif complete and not listed and not ("has" in r or "hasnot" in r):
                return False
            elif complete and not listed and "unlisted" not in r and "listed" not in r:
                return False
        return True
    check_paths(ctx, R, f, paths, asked, "a private index is not asked whether it has the project, or its whitelist is not looked at", key="asked")

    def open_(p):
        hit = False
        rs = list(rounds_of(p.trace))
        for i, r in enumerate(rs):
            complete = i + 1 < len(rs) or p.trace[-1] == "end"
            if "private" in r and "has" in r and "listed" not in r:
                hit = True
            if complete and "mirror" in r and not hit and "has" in r and "use" not in r:
                return False
        return True
    check_paths(ctx, R, f, live_paths(paths), open_, "a mirror is not asked although no private index has the project", key="open")
    whitelist_terms(ctx, R, f, wls)


def whitelist_terms(ctx, R, f, wls):
    """the project's normalised name and everything are looked for in the whitelist of the indexes"""
    ctx.ob(R, f, bool(wls), "whitelists are not looked at", key="whitelists")
    for t in wls:
        ctx.ob(R, f, has_str(t, "mirror_whitelist"), "the project is not looked for in the index's whitelist", key="which")
        if t.k in ("call", "bin"):
            ctx.ob(R, f, has_param(t, "project", "kw") or has_call(t, "normalize_name"), "the whitelist is not searched for the project", key="name")


def inheritance(ctx, R, f):
    """which of union and intersection applies to the whitelists collected so far"""
    C = ctx.P.cls(MD + ".BaseStage")
    got = []

    def lab(ev, st):
        if ev.name in ("union", "intersection") and ev.recv is not None and not any(has_str(a, "*") for a in ev.args):
            return "op:" + ev.name
    mode = [None]

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) in ("union", "intersection") for x in t.a[1:]):
            n = next(cstr(x) for x in t.a[1:] if cstr(x) in ("union", "intersection"))
            return "mode:" + n if v else "mode:not-" + n
        if of_type(t):
            return "mirror" if v else "private"
        if t.k == "call" and call_name(t) == "has_project_perstage":
            return None if v else PRUNE
        if (call_name(t) == "intersection" if t.k == "call" else False) and has_str(t, "*"):
            got.append((t, st))
            return "test"

    def iters(what, it, st):
        return "stage" if what == "next" and has_call(it, "sro") else "end" if what == "end" and has_call(it, "sro") else None
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=iters, self_cls=C, default_raises=(), yields=lambda t, st: None, yield_exc=(), events=("intersection", "union"),
                        follow=lambda g, ev, d: None if g.module.name == MD and g.name not in ("sro", "filter_projects", "has_project_perstage") else False, rounds=2, max_states=600, dedupe=False)

    def ok(p):
        m = None
        for x in p.trace:
            if x in ("mode:union", "mode:intersection"):
                m = x[5:]
            if x.startswith("op:"):
                if m is None:
                    # told from the other case
                    neg = [y[9:] for y in p.trace if y.startswith("mode:not-")]
                    if not neg or x[3:] in neg:
                        return False
                elif x[3:] != m:
                    return False
        return True
    ctx.ob(R, f, some(paths, "op:union") and some(paths, "op:intersection"), "one of the ways to combine whitelists is missing", key="modes")
    check_paths(ctx, R, f, paths, ok, "whitelists are combined in another way than the index says", key="combine")
    # the second whitelist is combined with the first, not used instead of it
    second = [t for t, st in got if has_call(t.a[0].a[0] if t.a[0].k == "attr" else t, "union", "intersection")]
    ctx.ob(R, f, bool(second), "the whitelist of an earlier index is forgotten", key="collected")


def info(ctx):
    R = ctx.rule("M01.info", "the information whether a project comes from a mirror follows the same decision")
    C = ctx.P.cls(MD + ".BaseStage")
    f = C.method("get_mirror_whitelist_info")
    paths, wls = walk_whitelist(ctx, f, C)
    rets = live_paths(paths)

    def val(t, name):
        if t is None:
            return None
        if t.k == "call":
            return dict(call_kwargs(t)).get(name)
        if t.k == "dict":
            for k, v in t.a[0]:
                if cstr(k) == name:
                    return v
        return None

    def ok(p):
        hit = listed = False
        mirror = False
        for r in rounds_of(p.trace):
            if "private" in r:
                listed = listed or "listed" in r
                hit = hit or "has" in r
            if "mirror" in r:
                mirror = True
                if "hasnot" in r and has_true(val(p.ret, "has_mirror_base")):
                    return False
                break
        b, m = val(p.ret, "blocked_by_mirror_whitelist"), val(p.ret, "has_mirror_base")
        if b is None or m is None:
            return False
        if not mirror:
            return b is NONE and not has_true(m)
        if hit and not listed:
            return not has_true(m)
        return b is NONE or not must_value(b)

    def has_true(m):
        return m is TRUE or m.k == "c" and bool(cval(m))

    def must_value(b):
        return b.k != "c" and b.k != "phi" and b.k != "bin"
    ctx.ob(R, f, len(rets) > 3, "too few cases", key="instances")
    check_paths(ctx, R, f, rets, ok, "a project blocked by the whitelist is reported as taken from the mirror, or the other way round", key="info")
    whitelist_terms(ctx, R, f, wls)
    R2 = ctx.rule("M01.inherit", "whitelists of the indexes visited are joined or intersected as the asked index says, in both places which decide")
    inheritance(ctx, R2, C.method("op_sro_check_mirror_whitelist"))
    inheritance(ctx, R2, f)


def lookups(ctx):
    R = ctx.rule("M01.uses", "release data of a project is looked up over several indexes only through the lookup that applies the whitelist")
    n = m = 0
    for f, c in callers(ctx.P, "op_sro_check_mirror_whitelist"):
        n += 1
    ctx.count(R, n, 2, "lookups which apply the whitelist")
    for f, c in callers(ctx.P, "op_sro"):
        m += 1
        op = literal(c.args[0]) if c.args else literal(kwarg(c, "opname")) if kwarg(c, "opname") is not None else None
        ctx.ob(R, f, op in NAMES or op is None and f.name in ("op_sro",), "release data is looked up without applying the whitelist", key="op", where=where(f, c))
    ctx.count(R, m, 2, "lookups of project names")
    k = 0
    for f, c in callers(ctx.P, "sro"):
        k += 1
        if f.cls is not None and f.cls.qual == MD + ".BaseStage" and f.name in ("op_sro", "op_sro_check_mirror_whitelist", "get_mirror_whitelist_info"):
            continue
        bad = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DATA and in_loop_over_sro(f, x) and not any(isinstance(y, ast.Expr) and y.value is x for y in walk_own(f.node))]
        ctx.ob(R, f, not bad, "release data of each base is used without applying the whitelist", key="sro", where=where(f, bad[0]) if bad else where(f, c))
    ctx.count(R, k, 4, "loops over an index and its bases")


def in_loop_over_sro(f, node):
    for x in walk_own(f.node):
        if isinstance(x, (ast.For, ast.AsyncFor)) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "sro" for y in ast.walk(x.iter)) and node in list(ast.walk(x)):
            tgt = x.target.id if isinstance(x.target, ast.Name) else None
            return isinstance(node.func.value, ast.Name) and node.func.value.id == tgt
    return False


def config(ctx):
    R = ctx.rule("M01.config", "whitelist entries are stored normalised, and only known ways of combining whitelists are accepted")
    C = ctx.P.cls(MD + ".PrivateStage")
    f = C.method("normalize_indexconfig_value")

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) in ("mirror_whitelist", "mirror_whitelist_inheritance") for x in t.a[1:]) and has_param(t, "key"):
            n = next(cstr(x) for x in t.a[1:] if cstr(x))
            return n if v else None
        if t.k == "cmp" and t.a[0] == "in" and t.a[2].k in ("tup", "set", "list"):
            return ("known:" if v else "unknown:") + ",".join(sorted(str(cval(x)) for x in items(t.a[2]) if x.k == "c"))
        if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) in ("union", "intersection") for x in t.a[1:]):
            return "known:" + next(cstr(x) for x in t.a[1:] if cstr(x)) if v else None
    paths = trace_paths(ctx, f, {}, branch=br, self_cls=C, default_raises=(), follow=lambda g, ev, d: False if g.name in ("normalize_bases", "normalize_whitelist_name", "ensure_list", "normalize_name") else None)
    wl = [p for p in live_paths(paths) if p.has("mirror_whitelist")]
    ctx.ob(R, f, bool(wl), "whitelists are not processed", key="instances")
    check_paths(ctx, R, f, wl, lambda p: has_call(p.ret, "normalize_whitelist_name", "normalize_name"), "whitelist entries are kept as given, so they do not match normalised names", key="normalised")
    inh = [p for p in live_paths(paths) if p.has("mirror_whitelist_inheritance")]
    ctx.ob(R, f, bool(inh), "the way to combine is not processed", key="inherit-instances")
    check_paths(ctx, R, f, inh, lambda p: any(x.startswith("known:") and set(x[6:].split(",")) <= {"union", "intersection"} for x in p.trace), "unknown ways of combining whitelists are accepted", key="inherit")
    g = ctx.P.func(MD + ".normalize_whitelist_name")
    paths = trace_paths(ctx, g, {}, branch=lambda t, v, st: ("star" if v else None) if t.k == "cmp" and t.a[0] == "==" and has_str(t, "*") else None, default_raises=(), stop=("normalize_name",))
    check_paths(ctx, R, g, live_paths(paths), lambda p: p.has("star") or has_call(p.ret, "normalize_name"), "names are not normalised", key="name")


def check(ctx):
    lookup(ctx)
    info(ctx)
    lookups(ctx)
    config(ctx)


SELFTEST = [
    ("server/devpi_server/model.py", """                if private_hit:
                    if not whitelisted:
                        threadlog""", """                if private_hit and stage is not self:
                    if whitelisted is None:
                        threadlog"""),
    ("server/devpi_server/model.py", """                    whitelisted = stage
                elif stage.has_project_perstage(project):""", """                    whitelisted = stage
                elif whitelist and stage.has_project_perstage(project):"""),
    ("server/devpi_server/model.py", """                if whitelist.intersection(('*', project)):
                    whitelisted = stage""", """                if whitelist.intersection(('*', project)) or not stage.has_project_perstage(project):
                    whitelisted = stage"""),
    ("server/devpi_server/model.py", """                elif whitelist_inheritance == "union":
                    whitelist = whitelist.union(stage_whitelist)
                elif whitelist_inheritance == "intersection":
                    whitelist = whitelist.intersection(stage_whitelist)
                else:
                    raise RuntimeError(
                        "Unknown whitelist_inheritance setting '%s'"
                        % whitelist_inheritance)
                if whitelist.intersection""", """                elif whitelist_inheritance == "union":
                    whitelist = whitelist.union(stage_whitelist)
                elif whitelist_inheritance == "intersection":
                    whitelist = whitelist.union(stage_whitelist)
                else:
                    raise RuntimeError(
                        "Unknown whitelist_inheritance setting '%s'"
                        % whitelist_inheritance)
                if whitelist.intersection"""),
    ("server/devpi_server/model.py", """                if private_hit and not whitelisted:
                    # don't check the mirror for private packages
                    return dict(
                        has_mirror_base=Unknown,""", """                if private_hit and not whitelisted:
                    # don't check the mirror for private packages
                    return dict(
                        has_mirror_base=True,"""),
    ("server/devpi_server/model.py", """        for stage, res in self.op_sro_check_mirror_whitelist(
                "list_versions_perstage", project=project):""", """        for stage, res in self.op_sro(
                "list_versions_perstage", project=project):"""),
    ("server/devpi_server/model.py", """                normalize_whitelist_name(x)
                for x in ensure_list(value)]""", """                x
                for x in ensure_list(value)]"""),
    ("server/devpi_server/model.py", """                has_mirror_base = in_index and (not private_hit or whitelisted)
""", """                has_mirror_base = True
"""),
]
