"""Check context, inlining policy and helpers shared by all rules."""
import ast
import time

from .interp import Interp, Rule, Budget, COMMON_METHODS, walk_no_defs
from .project import AnchorError, Class, Func, Module, Project, dotted, src, walk_own
from .terms import *  # noqa
from .terms import T

TRIVIAL = frozenset("""
    len isinstance issubclass hasattr callable bool str int repr id type tuple
    list dict set frozenset sorted min max sum any all zip enumerate range
    reversed iter getattr setattr print abs round vars super object property
    debug info warn warning error exception log fatal_log line
    thread_push_log thread_pop_log thread_change_log_prefix threadlog
    append add update get items keys values setdefault discard extend
    startswith endswith lower upper strip lstrip rstrip split rsplit partition
    rpartition join format replace encode count index copy isdigit
    time monotonic perf_counter is_set notify_all notify
    getLogger current_thread get_ident
    """.split())


class Ctx:
    """collects the obligations of one property"""

    def __init__(self, prop, project, tier="quick", seed=1):
        self.prop = prop
        self.P = project
        self.tier = tier
        self.seed = seed
        self.obligations = []
        self.violations = []
        self.functions = set()
        self.paths = 0
        self.steps = 0
        self.calls = 0
        self.assumptions = []
        self.rules = {}
        self.t0 = time.time()
        self._seen = set()
        self.shared = project.__dict__.setdefault("_shared", {})

    def rule(self, name, text):
        self.rules[name] = text
        return name

    def ob(self, rule, construct, ok, msg="", where="", key="", trace=(), path=None):
        """one obligation: construct is the function/call site it is about"""
        if isinstance(construct, (Func, Class)):
            where = where or "%s:%d" % (construct.path, construct.node.lineno)
            construct = construct.qual
        if path is not None and not ok:
            trace = list(trace) + [path.describe()]
        ident = (rule, construct, key, bool(ok))
        if not ok:
            if ident in self._seen:
                return ok
            self._seen.add(ident)
            self.violations.append(dict(
                property=self.prop, rule=rule, construct=construct, key=key,
                where=where, what=msg, trace=list(trace)))
        self.obligations.append((rule, construct, key, bool(ok)))
        return ok

    def require(self, rule, construct, node_or_none, msg, key="", where=""):
        """a mechanism that has to exist"""
        return self.ob(rule, construct, node_or_none is not None and node_or_none is not False, msg, where, key)

    def count(self, rule, n, floor, what):
        """vacuity guard: a rule that finds fewer instances than there have to
        be has lost its subject"""
        if n < floor:
            raise AnchorError("%s: %s: found %d, expected at least %d" % (rule, what, n, floor))

    def run(self, rule, func, **kw):
        if isinstance(func, str):
            func = self.P.func(func)
        it = Interp(self.P, rule, kw.pop("hints", None))
        rule.interp = it
        rule.ctx = self
        rule.root = func
        ex = it.run(func, **kw)
        self.functions |= it.visited
        self.paths += sum(len(ex.get(k)) for k in ex.KINDS)
        self.steps += it.steps
        self.calls += it.ncalls
        return ex


# -- call graph used for inlining decisions ---------------------------------
class Graph:
    def __init__(self, P):
        self.P = P
        self.out = {}
        self.names = {}
        for f in P.funcs.values():
            self._scan(f)

    def _scan(self, f):
        names = set()
        out = set()
        P = self.P
        owner = f
        while owner.cls is None and owner.parent is not None:
            owner = owner.parent
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name):
                names.add(x.id)
                if isinstance(x.ctx, ast.Load):
                    p = f
                    tgt = None
                    while p is not None:
                        if x.id in p.nested:
                            tgt = p.nested[x.id]
                            break
                        p = p.parent
                    if tgt is None:
                        tgt = P.resolve_name(f.module, x.id)
                    self._edge(out, tgt)
            elif isinstance(x, ast.Attribute):
                names.add(x.attr)
                if not isinstance(x.ctx, ast.Load):
                    names.add("=" + x.attr)
                v = x.value
                if owner.cls is not None and isinstance(v, ast.Name) and v.id in ("self", "cls"):
                    for c in [owner.cls]:
                        m = c.find(x.attr)
                        if m is not None:
                            out.add(m)
                    continue
                r = P.resolve_expr(f.module, x) if isinstance(v, (ast.Name, ast.Attribute)) else None
                if isinstance(r, (Func, Class)):
                    self._edge(out, r)
                    continue
                if x.attr in COMMON_METHODS or x.attr.startswith("__"):
                    continue
                cands = P.by_method.get(x.attr, ())
                if len(cands) <= 6:
                    out.update(cands)
            elif isinstance(x, ast.arg):
                names.add(x.arg)
        self.names[f] = names
        self.out[f] = out

    def _edge(self, out, r):
        if isinstance(r, Func):
            out.add(r)
        elif isinstance(r, Class):
            for n in ("__init__", "__enter__", "__exit__", "__iter__", "__call__"):
                m = r.find(n)
                if m is not None:
                    out.add(m)

    def relevant(self, events, stop=()):
        """functions whose body mentions one of the names, directly or through
        calls; calls are not followed through functions in ``stop``"""
        res = {f for f, n in self.names.items() if n & events and f.qual not in stop and f.name not in stop}
        changed = True
        while changed:
            changed = False
            for f, out in self.out.items():
                if f in res or f.qual in stop or f.name in stop:
                    continue
                if any(o in res for o in out):
                    res.add(f)
                    changed = True
        return res


def graph(P):
    g = P.__dict__.get("_graph")
    if g is None:
        g = P._graph = Graph(P)
    return g


class StdRule(Rule):
    """follows calls into functions that (transitively) mention one of the
    rule's event names; everything else is opaque"""
    events = frozenset()
    stop = frozenset()
    quiet = frozenset()
    raises_default = ("?",)

    def __init__(self, P):
        g = graph(P)
        key = (frozenset(self.events), frozenset(self.stop))
        cache = P.__dict__.setdefault("_relcache", {})
        if key not in cache:
            cache[key] = g.relevant(frozenset(self.events), frozenset(self.stop))
        self.rel = cache[key]
        self.P = P

    def inline(self, f, ev, depth):
        if f.qual in self.stop or f.name in self.stop:
            return False
        return f in self.rel or f.parent in self.rel and f.node.__class__ is ast.Lambda

    def may_raise(self, ev):
        if ev.name in TRIVIAL or ev.name in self.quiet:
            return ()
        return self.raises_default


# -- syntactic helpers -------------------------------------------------------
def calls_in(node, *names):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if n in names:
                yield x


def attrs_in(node, *names):
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and x.attr in names:
            yield x


def names_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {
        x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


def strings_in(node):
    return {x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}


def kwarg(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def where(func, node=None):
    return "%s:%d" % (func.path, getattr(node if node is not None else func.node, "lineno", 0))
