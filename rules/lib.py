"""Helpers shared by the rule modules."""
import ast

from sa.core import *  # noqa
from sa.core import AnchorError, Func, Class, calls_in, attrs_in, names_in, strings_in, kwarg, src, where, walk_own, dotted, TRIVIAL
from sa.paths import trace_paths, check_paths, precedes, follows, fact, Path, PRUNE
from sa.terms import *  # noqa
from sa.terms import T

SERVER = ("devpi_server",)
ALL_SERVER = ("devpi_server", "devpi_web", "devpi_postgresql")


def handled(item, done, end=None):
    """between two loop iterations one of the ``done`` labels happened"""
    done = set(done)

    def pred(p):
        pend = False
        for x in p.trace:
            if x == item:
                if pend:
                    return False
                pend = True
            elif x.rstrip("!") in done or x in done:
                pend = False
            elif x == end and pend:
                return False
        return not pend or p.kind == "raise" or len(p.trace) >= 24
    return pred


def has_attr(t, *names):
    return contains(t, lambda x: x.k == "attr" and x.a[1] in names)


def has_call(t, *names):
    return contains(t, lambda x: x.k == "call" and call_name(x) in names)


def has_str(t, s):
    return contains(t, lambda x: x.k == "c" and isinstance(cval(x), (str, bytes)) and s in (cval(x) if isinstance(cval(x), str) else cval(x).decode("latin-1")))


def cstr(t):
    """the value of a constant string term, else None"""
    return cval(t) if t is not None and t.k == "c" and isinstance(cval(t), str) else None


def has_param(t, *names):
    return contains(t, lambda x: x.k in ("p", "free") and x.a[0] in names)


def items(t):
    """element terms of a tuple or list display"""
    return tuple(t.a[0]) if t is not None and t.k in ("tup", "list", "set") else ()


def ev_args(ev):
    return list(ev.args) + list(ev.kwargs.values())


def argn(ev, i, name=None):
    """positional argument i or keyword argument name of a call event"""
    if name is not None:
        if name in ev.kwargs:
            return ev.kwargs[name]
    return ev.args[i] if i is not None and i < len(ev.args) else None


def callers(P, *names, prefixes=ALL_SERVER):
    """(func, call node) for each call of one of the names; nested functions
    report their own calls"""
    for f in P.iter_funcs(*prefixes):
        for c in own_calls(f, *names):
            yield f, c


def own_calls(f, *names):
    for x in walk_own(f.node):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if n in names:
                yield x


def literal(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, TypeError, SyntaxError, AttributeError):
        return None


def some(paths, *labels):
    return any(p.has(*labels) for p in paths)


def live_paths(paths):
    return [p for p in paths if p.kind == "return"]


def is_iface(c):
    return any("Interface" in b for k in c.mro() for b in k.ext_bases()) or c.module.name.endswith(".interfaces")


def impls(P, name, prefixes=ALL_SERVER):
    """(class, method) for each implementation of a method, sorted"""
    return [(c, c.methods[name]) for c in sorted(P.classes.values(), key=lambda c: c.qual)
            if name in c.methods and not is_iface(c) and c.module.name.split(".")[0] in prefixes]


MUTATING = {"PUT", "POST", "PATCH", "DELETE", "PUSH"}


class View:
    """one view registration"""

    def __init__(self, func, deco, cls_defaults=None):
        self.func = func
        self.node = deco
        kw = dict(cls_defaults or {})
        kw.update({k.arg: k.value for k in deco.keywords if k.arg})
        self.kw = kw
        self.route = literal(kw["route_name"]) if "route_name" in kw else None
        m = literal(kw["request_method"]) if "request_method" in kw else None
        self.methods = {m} if isinstance(m, str) else set(m) if m else None
        self.permission = literal(kw["permission"]) if "permission" in kw else None

    @property
    def where(self):
        return "%s:%d" % (self.func.path, self.node.lineno)


def views(P, prefixes=ALL_SERVER):
    res = []
    for f in P.iter_funcs(*prefixes):
        defaults = {}
        if f.cls is not None:
            for d in f.cls.node.decorator_list:
                if isinstance(d, ast.Call) and src(d.func).endswith("view_defaults"):
                    defaults = {k.arg: k.value for k in d.keywords if k.arg}
        for d in f.deco_calls():
            if src(d.func).rpartition(".")[2] == "view_config":
                res.append(View(f, d, defaults))
    return res


def callees(P, f, stop=()):
    """functions reachable from f through the name based call graph"""
    from sa.core import graph
    g = graph(P)
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x in seen or x.name in stop:
            continue
        seen.add(x)
        todo.extend(g.out.get(x, ()))
        todo.extend(x.nested.values())
    return seen
