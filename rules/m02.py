"""M02: lookup over an index and its bases visits each one once and ends."""
from rules.lib import *  # noqa

MD = "devpi_server.model"
LISTS = ("append", "appendleft", "insert", "extend", "extendleft", "push")


def base_elem(t):
    """something made from an element of the configured bases"""
    return contains(t, lambda x: x.k == "elem" and has_str(x, "bases"))


def order(ctx):
    R = ctx.rule("M02.order", "an index is only queued for a visit when it was not met before and is then remembered as met, so that every index is visited at most once and the walk ends for all configurations of bases")
    C = ctx.P.cls(MD + ".BaseStage")
    f = C.method("sro")
    SELF = T("p", "self")

    def lab(ev, st):
        if ev.name in LISTS and ev.args and (has_call(ev.args[-1], "getstage") or ev.name in ("extend", "extendleft") and base_elem(ev.args[-1])):
            return "queue"
        if ev.name == "add" and ev.args and (base_elem(ev.args[0]) or has_call(ev.args[0], "getstage")):
            return "mark"
        if ev.name == "add" and ev.args and contains(ev.args[0], lambda x: x.k == "attr" and x.a[1] == "name"):
            return "markself"
        if ev.name in ("pop", "popleft"):
            return "take"
        if ev.name == "devpiserver_sro_skip" or "devpiserver_sro_skip" in show(ev.fterm):
            return "askskip"
        if ev.name == "getstage":
            return "get"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and (base_elem(t.a[1]) or has_call(t.a[1], "getstage") and has_attr(t.a[1], "name")):
            return "met" if v else "new"
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "getstage"):
            return "missing" if v else "there"
        if t.k == "call" and "devpiserver_sro_skip" in show(t.a[0]):
            return "skip" if v else "keep"

    def iters(what, it, st):
        if has_str(it, "bases"):
            return "base" if what == "next" else "basesdone"

    def yields(t, st):
        return "visit"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=iters, yields=yields, yield_exc=(), self_cls=C, default_raises=(), events=LISTS + ("add", "pop", "popleft", "devpiserver_sro_skip", "getstage"),
                        follow=lambda g, ev, d: None if g.module.name == MD and g.name not in ("getstage",) else False, dedupe=False, max_states=400)
    ctx.ob(R, f, some(paths, "queue") and some(paths, "visit"), "nothing is visited", key="instances")

    def each(p, n):
        cur = None
        for x in p.trace:
            if x in ("base", "basesdone"):
                if cur is not None:
                    yield cur
                cur = [] if x == "base" else None
            elif cur is not None:
                cur.append(x)
        if cur is not None and (p.kind == "return" and len(p.trace) < 24):
            yield cur

    def ok(p):
        for r in each(p, 0):
            if "queue" in r:
                if "new" not in r or r.index("new") > r.index("queue") or "mark" not in r:
                    return False
        return True
    check_paths(ctx, R, f, paths, ok, "an index is queued although it was met before, or without being remembered", key="once")
    check_paths(ctx, R, f, paths, lambda p: all(not ("queue" in r and ("missing" in r or "there" not in r)) for r in each(p, 0)), "a base that does not exist is visited", key="missing")
    check_paths(ctx, R, f, paths, lambda p: all(not ("queue" in r and "skip" in r) for r in each(p, 0)), "a base excluded by a plugin is visited", key="skip")
    check_paths(ctx, R, f, paths, lambda p: all("queue" in r or "met" in r or "missing" in r or "skip" in r for r in each(p, 0)), "a base is left out", key="all")
    check_paths(ctx, R, f, paths, lambda p: p.kind == "return", "a missing base ends the lookup", key="raises")
    # the asked index: first, and met from the start
    firsts = []
    trace_paths(ctx, f, {}, yields=lambda t, st: firsts.append((t, len([x for x in st.auto if x == "visit"]))) or "visit", yield_exc=(), self_cls=C, default_raises=(), follow=lambda g, ev, d: False, dedupe=False, max_states=100, rounds=1)
    del firsts[:]
    own = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Set, ast.Call, ast.List, ast.Dict))]
    selfmet = any(isinstance(x.value, ast.Set) and any(src(e) in ("self.name",) for e in x.value.elts) or isinstance(x.value, ast.Call) and "self.name" in src(x.value) for x in own)
    first = [[y for y in p.trace if y in ("visit", "base", "markself", "mark")] for p in paths]
    ctx.ob(R, f, selfmet or all("base" not in t or "markself" in t and t.index("markself") < t.index("base") or any(src(c) == "seen.add(self.name)" for c in own_calls(f, "add")) for t in first),
           "the index itself can be visited again as one of its bases", key="self")
    ctx.ob(R, f, all("base" not in t or t[0] == "visit" or "visit" in t and t.index("visit") < t.index("base") for t in first) or any(isinstance(x.value, ast.List) and any(src(e) == "self" for e in x.value.elts) for x in own), "the asked index is not visited first", key="first")
    seq = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.Call)) and any(isinstance(e, ast.Name) and e.id == "self" for e in ast.walk(x.value)) and not any(isinstance(e, ast.Attribute) for e in ast.walk(x.value) if not isinstance(e, ast.Name))]
    ctx.ob(R, f, bool(seq) or any(isinstance(x, ast.Yield) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(f.node)), "the asked index is not visited", key="own")
    # order of bases: taken from the front
    pops = [c for c in own_calls(f, "pop", "popleft")]
    for c in pops:
        if c.func.attr == "pop" and not kwarg(c, "default"):
            rev = any(isinstance(x, ast.Call) and src(x.func) == "reversed" for x in ast.walk(f.node))
            ctx.ob(R, f, bool(c.args) and literal(c.args[0]) == 0 or rev, "bases are not visited in the order given", key="order", where=where(f, c))


def first_wins(ctx):
    R = ctx.rule("M02.first", "the file or version data found first in lookup order wins")
    C = ctx.P.cls(MD + ".BaseStage")
    f = C.method("get_simplelinks")

    def lab(ev, st):
        if ev.name in ("append", "add") and ev.recv is not None and ev.args:
            return ("link" if ev.name == "append" else "seen") if contains(ev.args[0], lambda x: x.k == "elem") else None

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and contains(t.a[1], lambda x: x.k == "attr" and x.a[1] in ("key", "basename") or x.k == "elem"):
            return "dup" if v else "fresh"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, iters=lambda w, it, st: None if has_call(it, "op_sro_check_mirror_whitelist") else "link?" if w == "next" else None, self_cls=C, default_raises=(), events=("append", "add"),
                        follow=lambda g, ev, d: False, dedupe=False)
    ctx.ob(R, f, some(paths, "link"), "no links are collected", key="instances")

    def ok(p):
        cur = []
        for x in p.trace + ("link?",):
            if x == "link?":
                if "link" in cur and not ("fresh" in cur and "seen" in cur):
                    return False
                cur = []
            else:
                cur.append(x)
        return True
    check_paths(ctx, R, f, paths, ok, "a file of a later index is listed besides or instead of the one found first", key="links")
    f = C.method("get_versiondata")

    def lab2(ev, st):
        if ev.name == "update" and ev.args and contains(ev.args[0], lambda x: x.k == "elem" or x.k == "sub"):
            return "take"
        if ev.name in ("append",) and ev.args:
            return "shadow"

    def stores(e, st):
        return None
    state = {}

    def br2(t, v, st):
        if t.k in ("dict", "call", "bin") and not has_call(t, "op_sro_check_mirror_whitelist", "filter_versions"):
            return None
    paths = trace_paths(ctx, f, {"x": lab2}, iters=lambda w, it, st: "next" if w == "next" else None, branch=br2, self_cls=C, default_raises=(), events=("update", "append"), follow=lambda g, ev, d: False, dedupe=False)
    ctx.ob(R, f, some(paths, "take"), "no data is collected", key="data-instances")
    # taking over is only allowed while nothing was found
    n = 0
    guarded = True
    for x in walk_own(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "update" and isinstance(x.func.value, ast.Name):
            n += 1
            v = x.func.value.id
            guarded = guarded and under_not(f.node, x, v)
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) for t in x.targets) and isinstance(x.value, ast.Call) and src(x.value.func) in ("dict", "get_mutable_deepcopy"):
            pass
    ctx.ob(R, f, guarded, "data of a later index replaces what was found first", key="data")


def under_not(root, node, var):
    """node is only reached when the variable is false"""
    def go(body, neg):
        for s in body:
            if node in list(ast.walk(s)):
                if isinstance(s, ast.If):
                    t = s.test
                    empty = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and src(t.operand) == var or src(t) in ("%s is None" % var, "len(%s) == 0" % var, "%s == {}" % var)
                    full = src(t) == var or src(t) in ("%s is not None" % var, "len(%s) > 0" % var)
                    if any(node in list(ast.walk(x)) for x in s.body):
                        return go(s.body, neg or empty)
                    return go(s.orelse, neg or full)
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None)
                    if b and any(node in list(ast.walk(x)) for x in b):
                        return go(b, neg)
                for h in getattr(s, "handlers", ()):
                    if node in list(ast.walk(h)):
                        return go(h.body, neg)
                return neg
            # an early exit while something was found
            if isinstance(s, ast.If) and src(s.test) == var and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return, ast.Break)):
                neg = True
        return neg
    return go(root.body, False)


def bases(ctx):
    R = ctx.rule("M02.bases", "a configuration naming a base that does not exist or is not an index name is refused, and the names stored are those of the indexes found")
    f = ctx.P.func(MD + ".normalize_bases")

    def lab(ev, st):
        if ev.name == "getstage":
            return "get"
        if ev.name in ("append", "add") and ev.args:
            return "keep" if has_attr(ev.args[0], "name") and has_call(ev.args[0], "getstage") else "keepraw" if contains(ev.args[0], lambda x: x.k == "elem") and not has_str(ev.args[0], " ") and ev.args[0].k in ("elem", "call", "attr") else "complain"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "is" and NONE in t.a[1:] and has_call(t, "getstage"):
            return "missing" if v else "there"
        if t.k == "call" and call_name(t) == "getstage":
            return "there" if v else "missing"
    paths = trace_paths(ctx, f, {"x": lab}, branch=br, default_raises=(), raises={"get": ("ValueError",)}, events=("append", "add", "getstage"), dedupe=False)
    ctx.ob(R, f, some(paths, "get"), "bases are not looked up", key="instances")
    check_paths(ctx, R, f, live_paths(paths), lambda p: not p.has("missing", "get!"), "a base that does not exist is accepted", key="missing")
    check_paths(ctx, R, f, paths, lambda p: not p.has("keepraw"), "the name of a base is stored as given", key="name")
    check_paths(ctx, R, f, [p for p in paths if p.kind == "raise"], lambda p: p.has("missing", "get!"), "existing bases are refused", key="accept")
    check_paths(ctx, R, f, [p for p in paths if p.kind == "raise"], lambda p: "InvalidIndexconfig" in str(p.exc.a[0]), "an invalid base is reported in another way than the callers expect", key="kind")
    C = ctx.P.cls(MD + ".PrivateStage")
    g = C.method("normalize_indexconfig_value")
    paths = trace_paths(ctx, g, {}, branch=lambda t, v, st: ("bases" if v else None) if t.k == "cmp" and t.a[0] == "==" and any(cstr(x) == "bases" for x in t.a[1:]) else None, self_cls=C, default_raises=(), follow=lambda h, ev, d: False)
    sel = [p for p in live_paths(paths) if p.has("bases")]
    ctx.ob(R, g, bool(sel), "bases are not processed", key="norm-instances")
    check_paths(ctx, R, g, sel, lambda p: has_call(p.ret, "normalize_bases"), "bases are stored unchecked", key="norm")


def check(ctx):
    order(ctx)
    first_wins(ctx)
    bases(ctx)


SELFTEST = [
    ("server/devpi_server/model.py", """                # an index can be reached several ways before it is processed,
                # so we need to prevent duplicates here
                seen.add(base)
                if current_stage.ixconfig['type'] == 'mirror':
                    # mirrors are processed last
                    todo_mirrors.append(current_stage)""", """                if current_stage.ixconfig['type'] == 'mirror':
                    # mirrors are processed last
                    seen.add(base)
                    todo_mirrors.append(current_stage)"""),
    ("server/devpi_server/model.py", """        seen = {self.name}
""", """        seen = set()
"""),
    ("server/devpi_server/model.py", """            stage = todo.pop(0)
            yield stage""", """            stage = todo.pop()
            yield stage"""),
    ("server/devpi_server/model.py", """                if base in seen:
                    continue
                current_stage""", """                if base == self.name:
                    continue
                current_stage"""),
    ("server/devpi_server/model.py", """                        self.name, base)
                    continue
                if devpiserver_sro_skip""", """                        self.name, base)
                if devpiserver_sro_skip"""),
    ("server/devpi_server/model.py", """                    if key not in seen:
                        seen.add(key)
                        all_links.append(link_info)""", """                    if key not in seen or res.stale:
                        seen.add(key)
                        all_links.append(link_info)"""),
    ("server/devpi_server/model.py", """                if not result:
                    result.update(res)
                else:
                    l =""", """                if res:
                    result.update(res)
                else:
                    l ="""),
    ("server/devpi_server/model.py", """            if stage_base is None:
                messages.append(f"base index {base!r} does not exist")
            else:""", """            if stage_base is None:
                threadlog.warn("base index %r does not exist", base)
            else:"""),
    ("server/devpi_server/model.py", """                newbases.append(stage_base.name)""", """                newbases.append(base)"""),
]
