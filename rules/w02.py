"""W02: what others wrote is shown as text on the pages, never run."""
from html.parser import HTMLParser
import re

from rules.lib import *  # noqa
from sa import taint
from sa.taint import Taint, V, UNKNOWN, OPT, Value, Closure, Exec, joinall, const_v

WEB = "devpi_web"
SCAN = ("devpi_web", "devpi_server.views")
URLMAKERS = {"route_url", "route_path", "stage_url", "simpleindex_url", "static_url", "static_path", "theme_static_url",
             "resource_url", "current_route_url", "url_for_entrypath"}
REQUEST_URLS = {"url", "path_url", "application_url", "host_url"}
URLATTRS = {"href", "src", "action", "formaction", "data", "xlink:href", "poster", "cite", "background"}
# addresses an administrator of a server of the cluster configures
CONFIGURED = {"outside_url", "master_url", "primary_url"}
SAFE = V(("html", "url"))
HTTP = ("http", "https")


class Spec:
    def __init__(self, P):
        self.P = P
        self.request = {}
        self.sinks = 0
        self.escapes = 0
        self._guards = {}
        for f, c in callers(P, "add_request_method"):
            if c.args:
                g = P.resolve_expr(f.module, c.args[0])
                name = literal(c.args[1]) if len(c.args) > 1 else literal(kwarg(c, "name")) if kwarg(c, "name") is not None else None
                prop = any(literal(kwarg(c, k)) for k in ("reify", "property") if kwarg(c, k) is not None)
                if isinstance(g, Func):
                    self.request[name or g.name] = (g, prop)

    def follow(self, g):
        return any(g.module.name == p or g.module.name.startswith(p + ".") for p in SCAN)

    def sink(self, f, node):
        self.sinks += 1
        return f.name not in ("__repr__", "__str__")

    def wanted(self, f):
        """functions not reached from the pages which build markup"""
        return f.module.name.endswith((".views", ".main", ".description")) or any(
            isinstance(x, ast.Constant) and isinstance(x.value, str) and taint.TAG.search(x.value) for x in walk_own(f.node))

    def checks_urls(self, f):
        # the simple pages link to paths of the server only
        return f.module.name.startswith(WEB)

    # -- guards --------------------------------------------------------------
    def resolve(self, e, local):
        if isinstance(e, ast.Name) and e.id in local:
            return self.resolve(local[e.id], {k: v for k, v in local.items() if k != e.id})
        return e

    def locals_of(self, f):
        res, twice = {}, set()
        for x in walk_own(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                n = x.targets[0].id
                if n in res:
                    twice.add(n)
                res[n] = x.value
            elif isinstance(x, ast.NamedExpr):
                if x.target.id in res:
                    twice.add(x.target.id)
                res[x.target.id] = x.value
        return {k: v for k, v in res.items() if k not in twice}

    def constants(self, f, e):
        e = self.resolve(e, self.locals_of(f))
        v = literal(e)
        if v is None and isinstance(e, ast.Call) and src(e.func) in ("set", "frozenset", "tuple", "list") and len(e.args) == 1:
            v = literal(e.args[0])
        if v is None and isinstance(e, ast.Name):
            g = f.module.globals.get(e.id)
            g = g[-1] if isinstance(g, (list, tuple)) else g
            g = getattr(g, "value", g)
            if isinstance(g, ast.expr):
                v = literal(g)
                if v is None and isinstance(g, ast.Call) and len(g.args) == 1:
                    v = literal(g.args[0])
        if isinstance(v, str):
            return (v,)
        return tuple(v) if isinstance(v, (tuple, list, set, frozenset)) else None

    def test(self, f, e):
        """the expression whose scheme is known to be a web scheme when e holds"""
        local = self.locals_of(f)
        e = self.resolve(e, local)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            for x in e.values:
                r = self.test(f, x)
                if r is not None:
                    return r
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            rs = [self.test(f, x) for x in e.values]
            if all(r is not None for r in rs) and len({src(r) for r in rs}) == 1:
                return rs[0]
        if isinstance(e, ast.Call) and src(e.func) == "bool" and len(e.args) == 1:
            return self.test(f, e.args[0])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.Eq)):
            left, right = self.resolve(e.left, local), e.comparators[0]
            while isinstance(left, ast.Call) and isinstance(left.func, ast.Attribute) and left.func.attr in ("lower", "casefold"):
                left = self.resolve(left.func.value, local)
            got = None
            if isinstance(left, ast.Attribute) and left.attr == "scheme":
                got = self.resolve(left.value, local)
            elif isinstance(left, ast.Subscript) and literal(left.slice) == 0:
                got = self.resolve(left.value, local)
            if isinstance(got, ast.Call) and src(got.func).rpartition(".")[2] in ("urlsplit", "urlparse") and got.args:
                cs = self.constants(f, right)
                if isinstance(e.ops[0], ast.In) and isinstance(right, ast.Constant):
                    cs = None
                if cs and all(c in HTTP for c in cs):
                    return got.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "startswith" and e.args:
            cs = self.constants(f, e.args[0])
            if cs and all(isinstance(c, str) and c.startswith(("http://", "https://")) for c in cs):
                x = e.func.value
                while isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("lower", "casefold"):
                    x = x.func.value
                return x
        if isinstance(e, ast.Call):
            g = self.P.resolve_expr(f.module, e.func) if not isinstance(e.func, ast.Call) else None
            if isinstance(g, Func):
                p = self.guard_param(g)
                if p is not None:
                    ps = g.params()
                    for k in e.keywords:
                        if k.arg == p:
                            return k.value
                    i = ps.index(p)
                    if i < len(e.args):
                        return e.args[i]
        return None

    def guard_param(self, g):
        if g.qual in self._guards:
            return self._guards[g.qual]
        self._guards[g.qual] = None
        rets = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return)]
        found = set()
        ok = bool(rets)
        conds = self.path_conditions(g)
        for r in rets:
            if r is None or isinstance(r, ast.Constant) and not r.value:
                continue
            t = None
            if isinstance(r, ast.Constant):
                for c in conds.get(r, ()):
                    t = t or self.test(g, c)
            else:
                t = self.test(g, r)
            t = self.resolve(t, self.locals_of(g)) if t is not None else None
            if isinstance(t, ast.Name) and t.id in g.params():
                found.add(t.id)
            else:
                ok = False
        if ok and len(found) == 1:
            self._guards[g.qual] = found.pop()
        return self._guards[g.qual]

    def path_conditions(self, g):
        """the tests of the ifs around each return value, and the negated
        tests of earlier ifs which left the function"""
        res = {}

        def rec(body, conds):
            conds = list(conds)
            for n in body:
                if isinstance(n, ast.Return) and n.value is not None:
                    res[n.value] = list(conds)
                if isinstance(n, ast.If):
                    neg = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else None
                    rec(n.body, conds + [n.test])
                    rec(n.orelse, conds + ([neg] if neg is not None else []))
                    if neg is not None and n.body and isinstance(n.body[-1], (ast.Return, ast.Raise)):
                        conds.append(neg)
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(n, fld, None), list):
                            rec(getattr(n, fld), conds)
                    for h in getattr(n, "handlers", ()):
                        rec(h.body, conds)
        rec(g.node.body, [])
        return res

    def guarded(self, ex, e):
        if isinstance(e, (ast.Compare, ast.Call, ast.BoolOp, ast.NamedExpr)):
            return self.test(ex.f, e)
        return None

    # -- values --------------------------------------------------------------
    def is_request(self, e):
        return isinstance(e, ast.Name) and e.id == "request" or isinstance(e, ast.Attribute) and e.attr == "request"

    def attribute(self, ex, e, env):
        if self.is_request(e.value):
            if e.attr in REQUEST_URLS:
                return V(("url",))
            if e.attr in self.request:
                g, prop = self.request[e.attr]
                if prop:
                    return ex.T.call(g, None, {}) if self.follow(g) else UNKNOWN
        return None

    def inst_attr(self, ex, c, name):
        return None

    def callable_value(self, ex, e, env):
        n = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
        return SAFE if n in URLMAKERS else None

    def call(self, ex, e, dotted, name, recv, args, kw, env):
        P = self.P
        if name in URLMAKERS:
            return SAFE
        d = dotted or ""
        if d in ("html.escape", "markupsafe.escape", "xml.sax.saxutils.quoteattr", "cgi.escape"):
            self.escapes += 1
            q = args[1:2] or [kw.get("quote")]
            if d == "cgi.escape" or q[0] is not None and not self.truth(e):
                return UNKNOWN
            a = args[0] if args else kw.get("s", UNKNOWN)
            if a is OPT:
                return OPT
            return V({"html"} | (a.flags & {"url"}))
        if d == "py.xml.raw" or d.endswith("xml.raw"):
            if args and all("html" in a.flags or "xml" in a.flags for a in args):
                return V(("xml",))
            ex.T.bad(ex.f, e, "text which is not escaped is declared to be markup", "raw")
            return UNKNOWN
        if d.startswith("py.xml.html.") or d.startswith("py._xmlgen.html."):
            return V(("xml",))
        if name in ("unicode", "__str__") and recv is not None and recv is not OPT and "xml" in recv.flags and not recv.insts:
            return V(("html",), markup=True)
        if d in ("readme_renderer.markdown.render", "readme_renderer.rst.render", "readme_renderer.txt.render"):
            return V(("html",), markup=True)
        if d == "whoosh.highlight.HtmlFormatter" or d == "whoosh.highlight.GenshiFormatter":
            return V(const=("htmlformatter",))
        if d == "whoosh.highlight.highlight":
            fm = kw.get("formatter", args[4] if len(args) > 4 else UNKNOWN)
            if fm is OPT:
                return OPT
            return V(("html",), markup=True) if fm.const == ("htmlformatter",) else UNKNOWN
        if name == "names" and not e.args and recv is not None and not recv.cells:
            c = ("names", ex.f.qual, e.lineno)
            ex.T.put(ex.T.cells, c, SAFE)
            return V(cells=frozenset((c,)))
        if isinstance(e.func, ast.Attribute) and dotted is None and recv is not None and not recv.insts and not recv.fns and not recv.cells:
            if self.is_request(e.func.value) and name in self.request:
                g, prop = self.request[name]
                if not prop and self.follow(g):
                    return ex.T.call(g, None, dict(zip(g.params()[1:], args)))
            ms = [m for m in P.by_method.get(name, ()) if m.module.name.startswith(WEB + ".") and m.cls is not None] if name else []
            if ms and len(ms) <= 4 and name not in TRIVIAL:
                return joinall([ex.apply(Closure(m, V(insts=frozenset((m.cls,)))), args, kw, env, False, e) for m in ms])
        return None

    def truth(self, e):
        q = kwarg(e, "quote") if kwarg(e, "quote") is not None else e.args[1] if len(e.args) > 1 else None
        return q is None or literal(q) is True


# -- templates -----------------------------------------------------------------
class Template(HTMLParser):
    """the expressions of a template which end up as markup or as an address"""
    VOID = {"br", "img", "input", "link", "meta", "hr", "area", "base", "col", "embed", "source", "wbr"}

    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=False)
        self.found = []           # (kind, expression, scopes, line)
        self.scopes = [{}]
        self.tags = []
        self.cdata = None
        self.feed(text)
        self.close()

    def line(self):
        return self.getpos()[0]

    def handle_starttag(self, tag, attrs):
        sc = dict(self.scopes[-1])
        ns = tag.split(":")[0] if tag.startswith(("tal:", "metal:")) else None
        dyn = []
        tal = {}
        plain = []
        for k, v in attrs:
            v = v or ""
            if k.startswith("tal:"):
                tal[k[4:]] = v
            elif ns == "tal" and ":" not in k:
                tal[k] = v
            elif k.startswith(("metal:", "xmlns")) or ns == "metal" and ":" not in k:
                if "${" in v:
                    plain.append((k, v))
            else:
                plain.append((k, v))
        for part in split_semi(tal.get("define", "")):
            part = part.strip()
            for pre in ("global ", "local "):
                if part.startswith(pre):
                    part = part[len(pre):]
            n, _, ex = part.strip().partition(" ")
            if n:
                sc[n] = ("define", ex.strip(), dict(sc))
        if "repeat" in tal:
            n, _, ex = tal["repeat"].strip().partition(" ")
            for i, nm in enumerate(n.strip("()").split(",")):
                if nm.strip():
                    sc[nm.strip()] = ("repeat", ex.strip(), dict(sc))
        for k in ("content", "replace"):
            if k in tal:
                v = tal[k].strip()
                if v.startswith("structure "):
                    self.found.append(("html", v[10:].strip(), sc, self.line()))
        for part in split_semi(tal.get("attributes", "")):
            n, _, ex = part.strip().partition(" ")
            if n and not ex.strip():
                self.found.append(("attributes", n, sc, self.line()))
            elif n:
                self.attr(tag, n, [("e", ex.strip())], sc)
        for k, v in plain:
            if "${" in v:
                self.attr(tag, k, chunks(v), sc)
        if tag not in self.VOID and not tag.endswith("/"):
            self.tags.append(tag)
            self.scopes.append(sc)
        if tag in ("script", "style"):
            self.cdata = tag

    def attr(self, tag, name, parts, sc):
        name = name.lower()
        if name.startswith("on") or name == "style" or name == "srcdoc":
            self.found.append(("script", parts, sc, self.line()))
        elif name in URLATTRS:
            self.found.append(("url", parts, sc, self.line()))
        for k, e in parts:
            if k == "e":
                self.structure(e, sc)

    def structure(self, e, sc):
        m = re.match(r"\s*structure\s*[: ]\s*(.*)$", e, re.S)
        if m:
            self.found.append(("html", m.group(1), sc, self.line()))

    def handle_startendtag(self, tag, attrs):
        n = len(self.tags)
        self.handle_starttag(tag, attrs)
        if len(self.tags) > n:
            self.tags.pop()
            self.scopes.pop()
        if self.cdata == tag:
            self.cdata = None

    def handle_endtag(self, tag):
        if self.cdata == tag:
            self.cdata = None
        if tag in self.tags:
            while self.tags:
                t = self.tags.pop()
                self.scopes.pop()
                if t == tag:
                    break

    def handle_data(self, data):
        for k, e in chunks(data):
            if k == "e":
                if self.cdata:
                    self.found.append(("script", [(k, e)], self.scopes[-1], self.line()))
                self.structure(e, self.scopes[-1])

    def handle_pi(self, data):
        if data.startswith("python"):
            self.found.append(("python", data[:40], self.scopes[-1], self.line()))


def split_semi(s):
    return [x.replace("\0", ";") for x in s.replace(";;", "\0").split(";") if x.strip()]


def chunks(text):
    """("c", text) and ("e", expression) parts of a string with ${...}"""
    res = []
    i = 0
    while True:
        j = text.find("${", i)
        while j > 0 and text[j - 1] == "$":
            j = text.find("${", j + 2)
        if j < 0:
            res.append(("c", text[i:]))
            return [x for x in res if x[1]]
        res.append(("c", text[i:j]))
        depth, k = 0, j + 1
        while k < len(text):
            if text[k] == "{":
                depth += 1
            elif text[k] == "}":
                depth -= 1
                if not depth:
                    break
            k += 1
        res.append(("e", text[j + 2:k]))
        i = k + 1


class TalExec(Exec):
    """evaluates the expressions of a template"""

    def __init__(self, T, f, root):
        Exec.__init__(self, T, f, {})
        self.root = root

    def tal(self, text, sc):
        text = text.strip()
        alts = split_pipe(text)
        if len(alts) > 1:
            return joinall([self.tal(a, sc) for a in alts])
        m = re.match(r"(\w+)\s*:(?!:)(.*)$", text, re.S)
        if m and m.group(1) in ("python", "not", "exists", "string", "structure", "path", "nocall"):
            if m.group(1) == "string":
                return self.concat([const_v(x) if k == "c" else self.tal(x, sc) for k, x in chunks(m.group(2))], None)
            if m.group(1) in ("not", "exists"):
                return SAFE
            return self.tal(m.group(2), sc)
        if text in ("nothing", "default"):
            return SAFE
        try:
            e = ast.parse(text.replace("\n", " ").strip(), mode="eval").body
        except SyntaxError:
            return UNKNOWN
        env = {}
        for n in names_in(e):
            if n == "request":
                continue
            if n in sc:
                kind, ex, outer = sc[n]
                v = self.tal(ex, outer)
                env[n] = self.T.elem(v) if kind == "repeat" else v
            elif self.root is not None and "own" in self.root.flags:
                env[n] = self.field(n, self.root)
            else:
                env[n] = self.field(n)
        # dotted names are keys or attributes in templates
        return self.ev(e, env)

    def e_Attribute(self, e, env):
        d = self.T.spec.attribute(self, e, env)
        if d is not None:
            return d
        b = self.ev(e.value, env)
        r = self.attr(b, e.attr)
        if r is not None:
            return r
        if "own" in b.flags:
            return self.field(e.attr, b)
        return UNKNOWN

    def glob(self, e):
        return UNKNOWN

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.expr):
            if e.func.attr == "get" and e.args:
                b = self.ev(e.func.value, env)
                if "own" in b.flags and not b.insts:
                    k = literal(e.args[0])
                    return self.field(k, b) if isinstance(k, str) else UNKNOWN
            b = self.ev(e.func.value, env)
            if "own" in b.flags and not b.insts and e.func.attr not in ("items", "keys", "values"):
                env = dict(env)
                env["\0called"] = self.field(e.func.attr, b)
                e = ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="\0called", ctx=ast.Load()), e), args=e.args, keywords=e.keywords), e)
        return Exec.e_Call(self, e, env)


def split_pipe(text):
    res, depth, cur, q = [], 0, "", None
    for c in text:
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == "|" and not depth:
            res.append(cur)
            cur = ""
            continue
        cur += c
    res.append(cur)
    return res


def roots(P):
    """functions called by nothing else of the analysed modules"""
    scanned = list(P.iter_funcs(*SCAN))
    called = set()
    for f in scanned:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                called.add(n)
                for a in list(x.args) + [k.value for k in x.keywords]:
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        called.add(a.attr if isinstance(a, ast.Attribute) else a.id)
            elif isinstance(x, ast.Attribute):
                pass
    res = []
    for f in scanned:
        if f.module.name.startswith(WEB) and not f.module.name.endswith((".views", ".main", ".description")) and "devpi_web" in f.module.name:
            continue
        if f.parent is None and (f.name not in called or any(d == "view_config" for d in f.deco_names())):
            res.append(f)
    return res


def pages(ctx):
    R = ctx.rule("W02.markup", "every value put into HTML built in Python (simple pages, forms, metadata, descriptions, search help) is escaped, "
                 "made by a renderer which escapes, a number or one of devpi's own constants; addresses of links have a checked scheme")
    P = ctx.P
    spec = Spec(P)
    T = Taint(P, spec, SCAN)
    T.follow = spec.follow
    rep = T.run(roots(P))
    ctx.functions |= T.seen
    bad = {}
    for f, node, what, key, stack in rep:
        bad.setdefault((f.qual, key), (f, node, what, stack))
    for (q, key), (f, node, what, stack) in sorted(bad.items()):
        ctx.ob(R, f, False, what, where(f, node) if node is not None else "", key=key, trace=["called through %s" % " > ".join(stack)])
    marks = 0
    for f in P.iter_funcs(*SCAN):
        if f.qual in T.seen and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and taint.TAG.search(x.value) for x in walk_own(f.node)):
            marks += 1
            if not any(k[0] == f.qual for k in bad):
                ctx.ob(R, f, True, "")
    ctx.count(R, marks, 6, "functions building markup")
    # markup in modules which are not analysed
    for f in P.iter_funcs(*ALL_SERVER):
        if not spec.follow(f) and f.name not in ("__repr__", "__str__"):
            for x in walk_own(f.node):
                if isinstance(x, (ast.BinOp, ast.JoinedStr, ast.Call)):
                    fmt = x.left if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) else x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format" else x if isinstance(x, ast.JoinedStr) and any(isinstance(v, ast.FormattedValue) for v in x.values) else None
                    if fmt is not None and any(taint.TAG.search(s) for s in strings_in(fmt)):
                        ctx.ob(R, f, False, "markup is built outside of the pages", where(f, x), key="elsewhere")
    templates(ctx, T)
    ctx.assumptions.append("pyramid's route_url and static_url quote what they are given; html.escape, py.xml.html, readme_renderer and whoosh's HtmlFormatter escape; chameleon escapes ${...} and tal:content without structure")


def templates(ctx, T):
    R = ctx.rule("W02.structure", "every unescaped expression (structure) of a template is escaped HTML where it was made")
    RU = ctx.rule("W02.link", "every address a template links to, loads or submits to is made by the router or was checked to be a web address")
    RS = ctx.rule("W02.script", "nothing is inserted into scripts, styles or event handlers of a template")
    P = ctx.P
    n = [0, 0, 0]
    any_f = P.module(WEB + ".views").funcs
    any_f = next(iter(any_f.values()))
    report, T.report = T.report, None
    pages = {}
    for f in P.iter_funcs(WEB):
        for d in f.deco_calls():
            r = literal(kwarg(d, "renderer")) if kwarg(d, "renderer") is not None else None
            if isinstance(r, str) and r.endswith(".pt"):
                pages.setdefault(r.rpartition("/")[2], []).append(f)
    for path, text in sorted(P.templates.items()):
        t = Template(text)
        n[2] += 1
        fs = pages.get(path.rpartition("/")[2], ())
        root = joinall([T.call(f, None, {}) for f in fs]) if fs else None
        for kind, what, sc, line in t.found:
            ex = TalExec(T, any_f, root)
            w = "%s:%d" % (path, line)
            if kind == "html":
                n[0] += 1
                v = ex.tal(what, sc)
                ctx.ob(R, path, "html" in v.flags, "the unescaped value %s may contain what others wrote" % what, w, key=what)
            elif kind == "url":
                n[1] += 1
                vs = [const_v(x) if k == "c" else ex.tal(x, sc) for k, x in what]
                name = " ".join(x for k, x in what)
                last = [re.split(r"[.\[]", x)[-1] for k, x in what if k == "e"]
                ok = bool(vs) and "url" in vs[0].flags or path.endswith("status.pt") and last and last[0] in CONFIGURED
                ctx.ob(RU, path, ok, "the address %s may have any scheme" % name, w, key=name)
            elif kind == "script":
                name = " ".join(x for k, x in what)
                ctx.ob(RS, path, False, "%s is inserted into a script or style" % name, w, key=name)
            elif kind == "attributes":
                ctx.ob(RU, path, False, "attributes are set from the dictionary %s" % what, w, key=what)
            elif kind == "python":
                ctx.ob(RS, path, False, "the template runs code", w, key="python")
        ctx.ob(RS, path, True, "")
    T.report = report
    ctx.count(R, n[0], 4, "unescaped expressions")
    ctx.count(RU, n[1], 20, "addresses")
    ctx.count(RS, n[2], 10, "templates")
    ctx.paths += T.calls
    ctx.steps += T.nodes


def renderers(ctx):
    R = ctx.rule("W02.renderer", "pages are rendered by chameleon templates of the package (which escape), not by other template engines or strings")
    P = ctx.P
    n = 0
    for v in views(P, (WEB, "devpi_server")):
        r = literal(v.kw["renderer"]) if "renderer" in v.kw else None
        if "renderer" in v.kw:
            n += 1
            ctx.ob(R, v.func, isinstance(r, str) and (r.endswith(".pt") or r == "json"), "unknown renderer", v.where, key="renderer")
    for f in P.iter_funcs(WEB):
        for d in f.deco_calls():
            r = kwarg(d, "renderer")
            if r is not None and not src(d.func).endswith("view_config"):
                n += 1
                ctx.ob(R, f, isinstance(literal(r), str) and literal(r).endswith(".pt"), "unknown renderer", where(f, d), key="renderer")
    ctx.count(R, n, 9, "renderers")


def xml(ctx):
    R = ctx.rule("W02.xml", "XML sent by clients is parsed by the defused parser only")
    P = ctx.P
    n = 0
    bad = {"xml.etree.ElementTree", "xml.dom.minidom", "xml.sax", "xml.parsers.expat", "lxml.etree", "xmlrpc.client.loads", "xmlrpc.client.ExpatParser", "xmlrpc.client.getparser", "xmlrpc.client.ServerProxy", "xmlrpc.server"}
    for f in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            if not isinstance(x, ast.Call):
                continue
            d = P.resolve_expr(f.module, x.func)
            d = d if isinstance(d, str) else ""
            if d == "defusedxml.xmlrpc.DefusedExpatParser":
                n += 1
                off = [k.arg for k in x.keywords if k.arg and k.arg.startswith("forbid") and k.arg != "forbid_dtd" and literal(k.value) is not True] + ([1] if len(x.args) > 1 else [])
                ctx.ob(R, f, not off, "protections of the XML parser are turned off", where(f, x), key="off")
            elif any(d == b or d.startswith(b + ".") for b in bad):
                ctx.ob(R, f, False, "XML is parsed without protection against entity expansion: %s" % d, where(f, x), key=d)
            elif d == "xmlrpc.client.Unmarshaller":
                ps = [y for y in walk_own(f.node) if isinstance(y, ast.Call) and P.resolve_expr(f.module, y.func) == "defusedxml.xmlrpc.DefusedExpatParser"]
                ctx.ob(R, f, bool(ps) or not any(isinstance(y, ast.Attribute) and y.attr == "feed" for y in walk_own(f.node)), "XML-RPC is read without the defused parser", where(f, x), key="unmarshal")
    for m in P.modules.values():
        if m.name.split(".")[0] in ALL_SERVER:
            for name, d in m.imports.items():
                if any(d == b or d.startswith(b + ".") for b in bad):
                    ctx.ob(R, m.name, False, "an unprotected XML parser is imported: %s" % d, "%s:1" % m.path, key=d)


def errors(ctx):
    R = ctx.rule("W02.error", "messages of refused requests are escaped in HTML: titles of ad hoc exception types are constants, or the type has "
                 "a template with the escaped title; the message of a read only index is a constant")
    P = ctx.P
    n = 0
    for f in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            if isinstance(x, ast.Call) and src(x.func) == "type" and len(x.args) == 3 and "HTTP" in src(x.args[1]):
                n += 1
                ns = x.args[2]
                kw = {k.arg: k.value for k in ns.keywords} if isinstance(ns, ast.Call) else {literal(k): v for k, v in zip(ns.keys, ns.values)} if isinstance(ns, ast.Dict) else None
                if kw is None:
                    ns = Spec(P).resolve(ns, Spec(P).locals_of(f))
                    kw = {k.arg: k.value for k in ns.keywords} if isinstance(ns, ast.Call) else {literal(k): v for k, v in zip(ns.keys, ns.values)} if isinstance(ns, ast.Dict) else {}
                title = kw.get("title")
                ok = title is None or literal(title) is not None
                if not ok and isinstance(title, ast.Name) and title.id in f.params():
                    i = f.params().index(title.id)
                    ok = all((literal(c.args[i]) if i < len(c.args) else literal(kwarg(c, title.id)) if kwarg(c, title.id) is not None else "") is not None
                             for g, c in callers(P, f.name)) and not list(callers(P, f.name))[:0]
                    if not any(True for _ in callers(P, f.name)):
                        ok = True
                if not ok:
                    t = kw.get("html_template_obj", kw.get("body_template_obj"))
                    ok = t is not None and escaped(P, f, t)
                ctx.ob(R, f, ok, "the message of the error is not escaped in the HTML answer", where(f, x), key="title")
    ctx.count(R, n, 1, "ad hoc exception types")
    k = 0
    for f in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) and src(x.exc.func).rpartition(".")[2] == "ReadonlyIndex":
                k += 1
                ctx.ob(R, f, all(literal(a) is not None for a in x.exc.args), "the message of a read only index is sent as HTML", where(f, x), key="readonly")
    ctx.count(R, k, 3, "read only errors")


def escaped(P, f, e, depth=0):
    """an html escape takes part in e, through local names and helpers"""
    if depth > 5:
        return False
    local = {}
    for x in walk_own(f.node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    local.setdefault(t.id, []).append(x.value)
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            d = P.resolve_expr(f.module, x.func)
            if d in ("html.escape", "markupsafe.escape"):
                return True
            if isinstance(d, Func):
                for r in walk_own(d.node):
                    if isinstance(r, ast.Return) and r.value is not None and escaped(P, d, r.value, depth + 1):
                        return True
        if isinstance(x, ast.Name) and x.id in local:
            if any(escaped(P, f, v, depth + 1) for v in local[x.id]):
                return True
    return False


def check(ctx):
    pages(ctx)
    renderers(ctx)
    xml(ctx)
    errors(ctx)


_SV = "server/devpi_server/views.py"
_WV = "web/devpi_web/views.py"
_TP = "web/devpi_web/templates/"
SELFTEST = [
    (_SV, 'title = escape("%s: links for %s" % (stage.name, project))', 'title = "%s: links for %s" % (stage.name, project)'),
    (_SV, "% escape(blocked_index)).encode", "% blocked_index).encode"),
    (_SV, """attribs = 'href="%s"' % escape(make_url(link.href).url)""", """attribs = 'href="%s"' % make_url(link.href).url"""),
    (_SV, """' data-requires-python="%s"' % escape(link.require_python)""", """' data-requires-python="%s"' % link.require_python"""),
    (_SV, """' data-yanked="%s"' % escape(yanked)""", """' data-yanked="%s"' % yanked"""),
    (_SV, """' data-yanked="%s"' % escape(yanked)""", """' data-yanked="%s"' % escape(yanked, quote=False)"""),
    (_SV, "attribs=attribs, key=escape(link.key))", "attribs=attribs, key=link.key)"),
    (_SV, 'stage = escape("/".join(link.href.split("/", 2)[:2]))', 'stage = "/".join(link.href.split("/", 2)[:2])'),
    (_SV, 'yield f"<h2>{escape(h2)}</h2>"', 'yield f"<h2>{h2}</h2>"'),
    (_SV, "                    html_name = escape(name)\n                    yield f'<a href=\"{html_name}/\">{html_name}</a><br/>", "                    html_name = name\n                    yield f'<a href=\"{html_name}/\">{html_name}</a><br/>"),
    (_SV, "                html_template.replace(\"${status}\", html_status))))", "                html_template)))"),
    (_SV, '        title = "Refresh" if stage.ixconfig["type"] == "mirror" else "Refresh mirror links"', '        title = "Refresh %s" % stage.ixconfig.get("title")'),
    (_WV, "            value = escape(value)\n", "            value = str(value)\n"),
    (_WV, "html.ul([html.li(x) for x in value]).unicode()", "'<ul>%s</ul>' % ''.join('<li>%s</li>' % x for x in value)"),
    (_WV, "infos.append((escape(key), value))", "infos.append((escape(key), unescape(value)))"),
    (_WV, "    if home_page and is_web_url(home_page):", "    if home_page:"),
    (_WV, "            if not is_web_url(url):\n                continue\n", ""),
    (_WV, "url=home_page))", "url=verdata.get('home_page').strip()))"),
    (_WV, 'title = "Refresh" if stage.ixconfig["type"] == "mirror" else "Refresh mirror links"', 'title = "Refresh" if stage.ixconfig["type"] == "mirror" else "Refresh links of %s" % project'),
    (_WV, "highlight = search_index.highlight(text, sub_hit.get('words'))\n                title = sub_data", "highlight = search_index.highlight(text, sub_hit.get('words')) or text\n                title = sub_data"),
    (_WV, "parser = DefusedExpatParser(unmarshaller)", "parser = DefusedExpatParser(unmarshaller, forbid_entities=False)"),
    (_WV, "from defusedxml.xmlrpc import DefusedExpatParser", "from xmlrpc.client import ExpatParser as DefusedExpatParser"),
    ("web/devpi_web/whoosh_index.py", "formatter = HtmlFormatter()", "formatter = UppercaseFormatter()"),
    ("web/devpi_web/description.py", "html = readme_renderer.txt.render(desc)", "html = '<pre>%s</pre>' % desc"),
    ("web/devpi_web/description.py", "        if not is_web_url(link):\n            return", "        if not link:\n            return"),
    ("web/devpi_web/description.py", "scheme in ('http', 'https')", "scheme not in ('data',)"),
    ("web/devpi_web/description.py", "            desc = '%s\\n\\nRender warnings:\\n%s' % (desc, warnings)", "            return '%s<pre>%s</pre>' % (html, warnings)"),
    ("web/devpi_web/description.py", "'<a href=\"{link}\">{link}</a></div>').format(link=escape(link))", "'<a href=\"{link}\">{link}</a></div>').format(link=link)"),
    (_TP + "version.pt", 'tal:content="summary"', 'tal:content="structure summary"'),
    (_TP + "version.pt", '<td class="key">${info[0]}</td>', '<td class="key">${structure: file.title}</td>'),
    (_TP + "search.pt", "                                    ${sub_hit.title}", "                                    <b tal:content=\"structure sub_hit.title\"/>"),
    (_TP + "version.pt", 'href="${docs.zip_url}"', 'href="${docs.title}"'),
    (_TP + "toxresult.pt", "</head>", "<script>var x = '${title}';</script></head>"),
    (_TP + "project.pt", "<h1>", "<h1 onclick=\"go('${title}')\">"),
    (_TP + "macros.pt", 'href="${part.url}"', 'href="${part.title}"'),
]
