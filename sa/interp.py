"""Path sensitive dataflow over the syntax tree.

``Interp.run(func)`` walks every path through a function's structured control
flow (branches, loops to a fixpoint, exceptions with handler matching, finally,
context managers and generators with their bodies interleaved at the yield),
following calls into the repository's own functions where the rule asks for
it.  Values are provenance terms, branch decisions are remembered as facts
about terms, so that correlated tests, early returns, helper predicates and
local boolean variables are understood.  A rule drives its own automaton
(``state.auto``) from the events it is shown.  No solver is involved.
"""
import ast
import builtins

from .project import Class, Func, Module, dotted
from .terms import T, CV, NONE, TRUE, FALSE, const, is_const, cval, refname

CMPNEG = {"!=": "==", "not in": "in", "is not": "is", ">=": "<", "<=": ">"}
OPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

COMMON_METHODS = frozenset("""
    get set add close items keys values pop update append extend delete remove
    join split strip read write open exists put copy insert index count sort
    clear discard start stop run wait release acquire commit rollback execute
    fetchone fetchall encode decode format replace lower upper startswith
    endswith info debug warn warning error exception log line visit check load
    loads dump dumps size name path url text content json send post request
    next setdefault ensure rename __init__ __enter__ __exit__ __iter__ notify
    done result cancel register include scan main match search sub group
    """.split())


class Exits:
    __slots__ = ("d",)
    KINDS = ("normal", "return", "raise", "break", "continue")

    def __init__(self):
        self.d = {}

    def add(self, kind, st):
        m = self.d.setdefault(kind, {})
        m.setdefault(st.key(kind), st)

    def get(self, kind):
        return list(self.d.get(kind, {}).values())

    def absorb(self, other, kinds):
        for k in kinds:
            for st in other.get(k):
                self.add(k, st)


class State:
    __slots__ = ("env", "heap", "facts", "auto", "ret", "exc", "site", "_key")

    def __init__(self, env=None, heap=None, facts=None, auto=None):
        self.env = env or {}
        self.heap = heap or {}
        self.facts = facts or {}
        self.auto = auto
        self.ret = None
        self.exc = None
        self.site = None
        self._key = None

    def copy(self):
        s = State.__new__(State)
        s.env = self.env
        s.heap = self.heap
        s.facts = self.facts
        s.auto = self.auto
        s.ret = self.ret
        s.exc = self.exc
        s.site = self.site
        s._key = None
        return s

    def bind(self, name, term):
        s = self.copy()
        s.env = dict(self.env)
        s.env[name] = term
        return s

    def with_heap(self, t, v):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[t] = v
        return s

    def with_fact(self, t, v):
        s = self.copy()
        s.facts = dict(self.facts)
        s.facts[t] = v
        return s

    def with_auto(self, a):
        if a == self.auto:
            return self
        s = self.copy()
        s.auto = a
        return s

    def key(self, kind="normal"):
        k = (
            self.auto, frozenset(self.env.items()),
            frozenset(self.heap.items()), frozenset(self.facts.items()),
            self.ret if kind == "return" else None,
            self.exc if kind == "raise" else None)
        return k


class Event:
    __slots__ = (
        "interp", "node", "func", "targets", "fterm", "recv", "name",
        "args", "kwargs", "stack", "exits", "term", "star")

    def arg(self, i=None, name=None, target=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def bound(self):
        """argument terms by parameter name for the (single) repo target"""
        for t in self.targets:
            if isinstance(t, Class):
                t = t.find("__init__")
            if isinstance(t, Func):
                return self.interp.bind_args(t, None, self.args, self.kwargs, skip_self=t.cls is not None and not t.is_static)
        return {}

    @property
    def target_names(self):
        return [t if isinstance(t, str) else t.qual for t in self.targets]

    def is_func(self, *quals):
        return any(n in quals for n in self.target_names)

    @property
    def where(self):
        return "%s:%d" % (self.func.path, getattr(self.node, "lineno", 0))

    def raise_(self, st, exc="?"):
        st = st.copy()
        st.exc = T("exc", exc)
        st.site = (self.func.path, getattr(self.node, "lineno", 0))
        self.exits.add("raise", st)


class Rule:
    """hooks; every rule subclasses this"""
    max_depth = 6
    max_states = 64
    loop_rounds = 2
    # calls whose result is the same for equal arguments (site independent)
    pure = frozenset("""
        is_replica is_primary has_permission isinstance hasattr callable len
        is_valid_name is_root keep_docs_packed bool getattr file_exists
        """.split())
    hints = {}
    inline_props = frozenset()

    def inline(self, func, ev, depth):
        return False

    def may_raise(self, ev):
        """exception names an opaque call can raise ('?' any Exception)"""
        return ("?",)

    def on_call(self, ev, st):
        return None

    def after_call(self, ev, st, term):
        return st

    def on_store(self, kind, base, name, value, st, node, func):
        return st

    def on_del(self, kind, base, name, st, node, func):
        return st

    def on_branch(self, term, value, st, node, func):
        return st

    def on_yield(self, term, st, node, func):
        return st

    def yield_raises(self, func, depth):
        """names of exceptions which can surface at a yield of the root function"""
        return ("?B",)

    def on_return(self, term, st, node, func, depth):
        return st

    def on_raise(self, st, node, func, depth):
        return st

    def on_enter(self, func, st, depth):
        return st


class Budget(Exception):
    pass


class Interp:
    def __init__(self, project, rule, hints=None):
        self.P = project
        self.rule = rule
        self.hints = dict(hints or {})
        self.hints.update(rule.hints)
        self.stack = []
        self.memo = {}
        self.visited = set()
        self.steps = 0
        self.max_steps = 2_000_000
        self.noreturn_cache = {}
        self.ncalls = 0
        self.yield_handlers = []
        self.cur_exc = []
        self._closures = {}

    # -- entry --------------------------------------------------------------
    def run(self, func, self_cls=None, auto=None, args=None, facts=None):
        env = {}
        for i, p in enumerate(func.all_params()):
            if i == 0 and func.cls is not None and not func.is_static:
                if func.is_classmethod:
                    env[p] = T("ref", self_cls or func.cls)
                else:
                    env[p] = T("inst", self_cls or func.cls)
            else:
                env[p] = T("p", p)
        if func.parent is not None:
            # closure of a nested function: free names are opaque
            pf = func.parent
            while pf is not None:
                for i, p in enumerate(pf.all_params()):
                    if i == 0 and pf.cls is not None and not pf.is_static:
                        env.setdefault(p, T("inst", self_cls or pf.cls))
                    else:
                        env.setdefault(p, T("p", p))
                if not isinstance(pf.node, ast.Lambda):
                    for p in self.assigned_names(pf.node.body):
                        env.setdefault(p, T("free", p))
                    for p, g in pf.nested.items():
                        env.setdefault(p, T("func", g, frozenset()))
                pf = pf.parent
        if args:
            env.update(args)
        st = State(env=env, auto=auto, facts=dict(facts or {}))
        return self.exec_func(func, st, [None])

    def exec_func(self, func, st, yh):
        """run a function body; yh: handler for yields or None for the root"""
        depth = len(self.stack)
        self.stack.append(func)
        self.visited.add(func.qual)
        self.yield_handlers.append(yh[0] if yh else None)
        try:
            st = self.rule.on_enter(func, st, depth)
            if st is None:
                return Exits()
            if isinstance(func.node, ast.Lambda):
                ex = Exits()
                for s, t in self.eval(func.node.body, st, ex):
                    s = s.copy()
                    s.ret = t
                    ex.add("return", s)
                return ex
            ex = self.exec_block(func.node.body, [st])
            out = Exits()
            for s in ex.get("normal"):
                s = s.copy()
                s.ret = NONE
                s = self.rule.on_return(NONE, s, func.node, func, depth)
                if s is not None:
                    out.add("return", s)
            out.absorb(ex, ("return", "raise"))
            return out
        finally:
            self.stack.pop()
            self.yield_handlers.pop()

    @property
    def func(self):
        return self.stack[-1]

    # -- statements ---------------------------------------------------------
    def limit(self, states):
        """merge states when there are too many: same automaton state and
        result, facts intersected, differing locals forgotten"""
        if len(states) <= self.rule.max_states:
            return states
        groups = {}
        for s in states:
            groups.setdefault((s.auto, self.rule_pin(s)), []).append(s)
        res = []
        for key, ss in groups.items():
            base = ss[0].copy()
            env = dict(base.env)
            heap = dict(base.heap)
            facts = dict(base.facts)
            for s in ss[1:]:
                env = self.merge_env(env, s.env, len(self.stack))
                for n in list(heap):
                    if s.heap.get(n) is not heap[n]:
                        del heap[n]
                for n in list(facts):
                    if s.facts.get(n) != facts[n]:
                        del facts[n]
            base.env, base.heap, base.facts = env, heap, facts
            res.append(base)
        return res

    def merge_env(self, a, b, depth):
        res = {}
        for n, v in a.items():
            w = b.get(n)
            if w is v:
                res[n] = v
            elif n == "$outer" and w is not None:
                res[n] = T("env", frozenset(self.merge_env(dict(v.a[0]), dict(w.a[0]), -depth - 1).items()))
            else:
                res[n] = T("phi", n, depth)
        return res

    def rule_pin(self, s):
        pin = getattr(self.rule, "pin", None)
        return pin(s) if pin else None

    def dedupe(self, states):
        d = {}
        for s in states:
            d.setdefault(s.key(), s)
        return list(d.values())

    def exec_block(self, body, states):
        ex = Exits()
        cur = states
        for stmt in body:
            if not cur:
                break
            nxt = Exits()
            for s in cur:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("analysis budget exceeded in %s" % self.func.qual)
                r = self.exec_stmt(stmt, s)
                nxt.absorb(r, ("normal",))
                ex.absorb(r, ("return", "raise", "break", "continue"))
            cur = self.limit(nxt.get("normal"))
        for s in cur:
            ex.add("normal", s)
        return ex

    def exec_stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        ex = Exits()
        if m is None:
            ex.add("normal", st)
            return ex
        m(n, st, ex)
        return ex

    def s_Expr(self, n, st, ex):
        if isinstance(n.value, ast.Constant):
            ex.add("normal", st)
            return
        for s, _t in self.eval(n.value, st, ex):
            ex.add("normal", s)

    def s_Pass(self, n, st, ex):
        ex.add("normal", st)

    def s_Import(self, n, st, ex):
        ex.add("normal", self.drop_names(st, [
            (a.asname or a.name.split(".")[0]) for a in n.names]))

    s_ImportFrom = s_Import

    def drop_names(self, st, names):
        if any(x in st.env for x in names):
            st = st.copy()
            st.env = {k: v for k, v in st.env.items() if k not in names}
        return st

    def s_Global(self, n, st, ex):
        ex.add("normal", st)

    s_Nonlocal = s_Global

    def s_FunctionDef(self, n, st, ex):
        f = self.func.nested.get(n.name)
        if f is None or f.node is not n:
            for g in self.func.nested.values():
                if g.node is n:
                    f = g
            if f is None or f.node is not n:
                f = self.find_nested(n)
        if f is None:
            ex.add("normal", st.bind(n.name, T("free", n.name)))
            return
        ex.add("normal", st.bind(n.name, self.closure(f, st)))

    s_AsyncFunctionDef = s_FunctionDef

    def find_nested(self, n):
        for f in self.P.funcs.values():
            if f.node is n:
                return f
        return None

    def closure(self, f, st):
        t = T("func", f, frozenset(
            (k, v) for k, v in st.env.items() if k in self.free_names(f)))
        return t

    def free_names(self, f):
        if f._names is None:
            f._names = frozenset(
                x.id for x in ast.walk(f.node) if isinstance(x, ast.Name))
        return f._names

    def s_ClassDef(self, n, st, ex):
        ex.add("normal", st.bind(n.name, T("ref", self.func.qual + "." + n.name)))

    def s_Assign(self, n, st, ex):
        for s, t in self.eval(n.value, st, ex):
            for s2 in self.assign_all(n.targets, t, s, ex, n.value):
                ex.add("normal", s2)

    def assign_all(self, targets, t, st, ex, valnode=None):
        cur = [st]
        for tg in targets:
            nxt = []
            for s in cur:
                nxt.extend(self.assign(tg, t, s, ex, valnode))
            cur = nxt
        return cur

    def s_AnnAssign(self, n, st, ex):
        if n.value is None:
            ex.add("normal", st)
            return
        for s, t in self.eval(n.value, st, ex):
            for s2 in self.assign(n.target, t, s, ex, n.value):
                ex.add("normal", s2)

    def s_AugAssign(self, n, st, ex):
        load = self.as_load(n.target)
        for s, a in self.eval(load, st, ex):
            for s1, b in self.eval(n.value, s, ex):
                t = T("bin", type(n.op).__name__, a, b)
                for s2 in self.assign(n.target, t, s1, ex):
                    ex.add("normal", s2)

    def as_load(self, n):
        n2 = ast.copy_location(type(n)(**{f: getattr(n, f) for f in n._fields}), n)
        n2.ctx = ast.Load()
        return n2

    def assign(self, tg, t, st, ex, valnode=None):
        if isinstance(tg, ast.Name):
            st = self.rule.on_store("name", None, tg.id, t, st, tg, self.func)
            if st is None:
                return []
            return [self.track_container(st.bind(tg.id, t), tg.id, t)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            cur = [st]
            elems = None
            if t.k in ("tup", "list") and len(t.a[0]) == len(tg.elts) and not any(isinstance(e, ast.Starred) for e in tg.elts):
                elems = t.a[0]
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                et = elems[i] if elems is not None else T("sub", t, const(i))
                nxt = []
                for s in cur:
                    nxt.extend(self.assign(e, et, s, ex))
                cur = nxt
            return cur
        if isinstance(tg, ast.Attribute):
            res = []
            for s, b in self.eval(tg.value, st, ex):
                s = self.rule.on_store("attr", b, tg.attr, t, s, tg, self.func)
                if s is None:
                    continue
                at = T("attr", b, tg.attr)
                s = self.forget(s, at)
                # property setters of the repository
                for c in self.types_of(b, s):
                    for cc in c.mro():
                        setter = self.setter(cc, tg.attr)
                        if setter is not None and self.rule.inline(setter, None, len(self.stack)) and setter not in self.stack:
                            sub = self.exec_func(setter, s_env(s, self.bind_args(setter, b, [t], {})), [None])
                            for r in sub.get("return"):
                                r = r.copy()
                                r.env, r.ret = s.env, None
                                res.append(r)
                            for r in sub.get("raise"):
                                r = r.copy()
                                r.env = s.env
                                ex.add("raise", r)
                            break
                    else:
                        continue
                    break
                else:
                    res.append(s.with_heap(at, t))
            return res
        if isinstance(tg, ast.Subscript):
            res = []
            for s, b in self.eval(tg.value, st, ex):
                for s1, i in self.eval(tg.slice, s, ex):
                    s2 = self.rule.on_store("sub", b, i, t, s1, tg, self.func)
                    if s2 is not None:
                        if isinstance(tg.value, ast.Name):
                            s2 = self.container_changed(s2, tg.value.id, True)
                            if b.k == "dict" and is_const(i) and s2.env.get(tg.value.id) is b and all(k is not None for k, v in b.a[0]):
                                s2 = s2.bind(tg.value.id, T("dict", tuple(kv for kv in b.a[0] if kv[0] is not i) + ((i, t),)))
                        res.append(s2)
            return res
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, t, st, ex)
        return [st]

    def setter(self, cls, name):
        for i in range(2, 4):
            f = self.P.funcs.get("%s.%s#%d" % (cls.qual, name, i))
            if f is not None and any(
                    isinstance(d, ast.Attribute) and d.attr == "setter"
                    for d in f.node.decorator_list):
                return f
        return None

    def forget(self, st, at):
        facts = {k: v for k, v in st.facts.items() if not self.mentions(k, at)}
        if len(facts) != len(st.facts):
            st = st.copy()
            st.facts = facts
        return st

    def mentions(self, t, sub):
        if t is sub:
            return True
        for y in t.a:
            if isinstance(y, T):
                if self.mentions(y, sub):
                    return True
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T) and self.mentions(z, sub):
                        return True
        return False

    def s_Delete(self, n, st, ex):
        cur = [st]
        for tg in n.targets:
            nxt = []
            for s in cur:
                if isinstance(tg, ast.Name):
                    nxt.append(self.drop_names(s, [tg.id]))
                elif isinstance(tg, ast.Attribute):
                    for s1, b in self.eval(tg.value, s, ex):
                        s1 = self.rule.on_del("attr", b, tg.attr, s1, tg, self.func)
                        if s1 is not None:
                            nxt.append(s1)
                elif isinstance(tg, ast.Subscript):
                    for s1, b in self.eval(tg.value, s, ex):
                        for s2, i in self.eval(tg.slice, s1, ex):
                            s2 = self.rule.on_del("sub", b, i, s2, tg, self.func)
                            if s2 is not None:
                                if isinstance(tg.value, ast.Name):
                                    s2 = self.container_changed(s2, tg.value.id, None)
                                    if b.k == "dict" and is_const(i) and s2.env.get(tg.value.id) is b:
                                        s2 = s2.bind(tg.value.id, T("dict", tuple(kv for kv in b.a[0] if kv[0] is not i)))
                                nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        for s in cur:
            ex.add("normal", s)

    def s_If(self, n, st, ex):
        yes, no = [], []
        for s, b in self.cond(n.test, st, ex):
            (yes if b else no).append(s)
        if yes:
            r = self.exec_block(n.body, self.dedupe(yes))
            ex.absorb(r, Exits.KINDS)
        if no:
            r = self.exec_block(n.orelse, self.dedupe(no))
            ex.absorb(r, Exits.KINDS)

    def s_Assert(self, n, st, ex):
        for s, b in self.cond(n.test, st, ex):
            if b:
                ex.add("normal", s)
            else:
                s = s.copy()
                s.exc = T("exc", "AssertionError")
                s.site = (self.func.path, n.lineno)
                ex.add("raise", s)

    def s_Return(self, n, st, ex):
        depth = len(self.stack) - 1
        if n.value is None:
            res = [(st, NONE)]
        else:
            res = self.eval(n.value, st, ex)
        for s, t in res:
            s = self.rule.on_return(t, s, n, self.func, depth)
            if s is None:
                continue
            s = s.copy()
            s.ret = t
            s.site = (self.func.path, n.lineno)
            ex.add("return", s)

    def s_Raise(self, n, st, ex):
        if n.exc is None:
            s = st.copy()
            s.exc = self.cur_exc[-1] if self.cur_exc else T("exc", "?")
            s.site = (self.func.path, n.lineno)
            s = self.rule.on_raise(s, n, self.func, len(self.stack) - 1)
            if s is not None:
                ex.add("raise", s)
            return
        for s, t in self.eval(n.exc, st, ex):
            s = s.copy()
            s.exc = self.as_exc(t)
            s.site = (self.func.path, n.lineno)
            s = self.rule.on_raise(s, n, self.func, len(self.stack) - 1)
            if s is not None:
                ex.add("raise", s)

    def as_exc(self, t):
        if t.k == "exc":
            return t
        name = self.exc_name(t)
        return T("exc", name, t)

    def exc_name(self, t):
        """class name for an exception class or instance term"""
        if t.k == "call":
            f = t.a[0]
            o = f.a[0] if f.k == "ref" else None
            if isinstance(o, Func):
                return "?"       # function returning an exception
            t = f
        n = refname(t)
        if n:
            if n.startswith("builtins."):
                n = n[9:]
            return n
        if t.k == "attr":
            cands = self.P.class_by_name.get(t.a[1])
            if cands:
                return cands[0].qual
            return t.a[1]
        return "?"

    def exc_matches(self, exc, handler):
        """True / False / None (maybe)"""
        if handler in ("BaseException",):
            return True
        if exc == "?B":
            return None
        if exc == "?":
            if handler == "Exception":
                return True
            if handler in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
                return False
            hb = getattr(builtins, handler, None)
            hc = self.P.classes.get(handler)
            if hc is not None and any(e.endswith(("SystemExit", "BaseException")) for e in hc.ext_bases()):
                return False
            return None
        if exc == handler:
            return True
        ec = self.P.classes.get(exc)
        if ec is not None:
            for c in ec.mro():
                if c.qual == handler:
                    return True
            ext = [b.rpartition("builtins.")[2] if b.startswith("builtins.") else b for b in ec.ext_bases()]
            for b in ext:
                if b == handler or self.exc_matches(b, handler):
                    return True
            if handler == "Exception":
                return not any(b in ("BaseException", "SystemExit", "KeyboardInterrupt") for b in ext)
            return False
        eb = getattr(builtins, exc, None)
        hb = getattr(builtins, handler, None)
        if isinstance(eb, type) and isinstance(hb, type):
            return issubclass(eb, hb)
        if handler == "Exception":
            return True
        if exc.rpartition(".")[2] == handler.rpartition(".")[2]:
            return True
        if isinstance(eb, type):
            return False
        if "HTTP" in exc and handler.rpartition(".")[2] in ("HTTPException", "HTTPError"):
            return True
        return False

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        res = []
        for t in types:
            got = self.eval_quiet(t, st)
            if got.k in ("tup", "list"):
                res.extend(self.exc_name(x) for x in got.a[0])
            else:
                res.append(self.exc_name(got))
        return res

    def eval_quiet(self, e, st):
        r = self.eval(e, st, Exits())
        return r[0][1] if r else T("free", "?")

    def s_Try(self, n, st, ex):
        inner = Exits()
        body = self.exec_block(n.body, [st])
        # else
        for s in body.get("normal"):
            if n.orelse:
                r = self.exec_block(n.orelse, [s])
                inner.absorb(r, Exits.KINDS)
            else:
                inner.add("normal", s)
        inner.absorb(body, ("return", "break", "continue"))
        # handlers
        for s in body.get("raise"):
            excn = s.exc.a[0] if s.exc is not None else "?"
            consumed = False
            for h in n.handlers:
                match = None
                for hn in self.handler_names(h, s):
                    m = self.exc_matches(excn, hn)
                    if m is True:
                        match = True
                        break
                    if m is None:
                        match = "maybe"
                        nm = hn
                if match is None:
                    continue
                exc = s.exc
                if match == "maybe" and len(self.handler_names(h, s)) == 1 and excn in ("?", "?B"):
                    exc = T("exc", nm, *s.exc.a[1:])
                s2 = s.copy()
                s2.exc = None
                if h.name:
                    s2 = s2.bind(h.name, exc)
                self.cur_exc.append(exc)
                try:
                    r = self.exec_block(h.body, [s2])
                finally:
                    self.cur_exc.pop()
                for kind in Exits.KINDS:
                    for x in r.get(kind):
                        if h.name:
                            x = self.drop_names(x, [h.name])
                        inner.add(kind, x)
                if match is True:
                    consumed = True
                    break
            if not consumed:
                inner.add("raise", s)
        if not n.finalbody:
            ex.absorb(inner, Exits.KINDS)
            return
        for kind in Exits.KINDS:
            for s in inner.get(kind):
                keep = (s.ret, s.exc, s.site)
                s0 = s.copy()
                s0.ret = s0.exc = None
                r = self.exec_block(n.finalbody, [s0])
                for s2 in r.get("normal"):
                    s2 = s2.copy()
                    s2.ret, s2.exc, s2.site = keep
                    ex.add(kind, s2)
                ex.absorb(r, ("return", "raise", "break", "continue"))

    s_TryStar = s_Try

    # loops
    def assigned_names(self, body):
        res = set()
        for b in body:
            for x in [b] + list(walk_no_defs(b)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    res.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    res.add(x.name)
        return res

    def generalise(self, st, names, site):
        """names assigned in a loop hold some earlier iteration's value"""
        st2 = st.copy()
        env = dict(st.env)
        for nme in names:
            if nme in env and env[nme].k not in ("c",):
                pass
        st2.env = env
        return st2

    def s_For(self, n, st, ex):
        for s, it in self.eval(n.iter, st, ex):
            g = self.generator_of(it, s)
            if g is not None:
                self.for_generator(n, s, it, g, ex)
                continue
            elem = T("elem", it)
            hook = getattr(self.rule, "on_iter", None)
            rhook = getattr(self.rule, "on_iter_raise", None)
            if rhook:
                x = rhook(it, s, n, self.func)
                if x is not None:
                    x = x.copy()
                    x.exc = T("exc", "?")
                    x.site = (self.func.path, n.lineno)
                    ex.add("raise", x)
            if it.k in ("tup", "list") and 0 < len(it.a[0]) <= 6 and not n.orelse and not (isinstance(n.iter, ast.Name) and not self.pristine(n.iter.id, s)):
                # literal sequences are walked element by element
                cur = [s]
                done = []
                for e in it.a[0]:
                    nxt = []
                    for c in cur:
                        for a in self.assign(n.target, e, c, ex):
                            r = self.exec_block(n.body, [a])
                            nxt.extend(r.get("normal") + r.get("continue"))
                            done.extend(r.get("break"))
                            ex.absorb(r, ("return", "raise"))
                    cur = self.limit(self.dedupe(nxt))
                for d in cur + done:
                    ex.add("normal", d)
                continue
            self.loop(
                n, s, ex,
                lambda c: [
                    (y, True) for x in self.assign(n.target, elem, c, ex)
                    for y in [hook("next", it, x, n, self.func) if hook else x] if y is not None
                ] + [(y, False) for y in [hook("end", it, c, n, self.func) if hook else c] if y is not None])

    s_AsyncFor = s_For

    def s_While(self, n, st, ex):
        self.loop(n, st, ex, lambda c: self.cond(n.test, c, ex))

    def loop(self, n, st, ex, step):
        seen = {}
        cur = [st]
        outs = []
        rounds = 0
        names = self.assigned_names(n.body)
        while cur and rounds <= self.rule.loop_rounds:
            rounds += 1
            enter = []
            for c in cur:
                for s, b in step(c):
                    if b:
                        enter.append(s)
                    else:
                        outs.append(s)
            r = self.exec_block(n.body, self.limit(self.dedupe(enter)))
            ex.absorb(r, ("return", "raise"))
            for s in r.get("break"):
                ex.add("normal", s)
            nxt = []
            for s in r.get("normal") + r.get("continue"):
                s = self.fresh_iteration(s, n)
                k = s.key()
                if k not in seen:
                    seen[k] = s
                    nxt.append(s)
            cur = self.limit(nxt)
        # states that would go round again leave the loop as well
        for c in cur:
            for s, b in step(c):
                if not b:
                    outs.append(s)
        if n.orelse:
            r = self.exec_block(n.orelse, self.dedupe(outs))
            ex.absorb(r, Exits.KINDS)
        else:
            for s in self.limit(self.dedupe(outs)):
                ex.add("normal", s)

    def fresh_iteration(self, s, n):
        """forget facts about values computed by sites inside of the loop"""
        lo, hi = n.lineno, n.end_lineno or n.lineno
        path = self.func.path
        drop = [
            t for t in s.facts
            if self.has_site(t, path, lo, hi)]
        if drop:
            s = s.copy()
            s.facts = {k: v for k, v in s.facts.items() if k not in drop}
        return s

    def has_site(self, t, path, lo, hi):
        if t.k == "elem":
            return True
        if t.k == "call" and t.a[3] is not None and t.a[3][0] == path and lo <= t.a[3][1] <= hi:
            return True
        for y in t.a:
            if isinstance(y, T):
                if self.has_site(y, path, lo, hi):
                    return True
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T) and self.has_site(z, path, lo, hi):
                        return True
                    if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], T) and self.has_site(z[1], path, lo, hi):
                        return True
        return False

    def generator_of(self, t, st):
        """(func, env) when iterating over t runs a repository generator the
        rule wants to look into"""
        if len(self.stack) > self.rule.max_depth:
            return None
        if t.k == "call":
            f = t.a[0]
            fi = None
            recv = None
            if f.k == "func" or (f.k == "ref" and isinstance(f.a[0], Func)):
                fi = f.a[0]
            elif f.k == "attr":
                recv = f.a[0]
                for tg in self.method_targets(recv, f.a[1], st):
                    if isinstance(tg, Func):
                        fi = tg
                        break
            if fi is not None and fi.is_gen and not fi.is_cm and fi not in self.stack and self.rule.inline(fi, None, len(self.stack)):
                base = dict(f.a[1]) if f.k == "func" else {}
                env = self.bind_args(fi, recv, list(t.a[1]), dict(t.a[2]))
                base.update(env)
                return fi, base
        for c in self.types_of(t, st):
            m = c.find("__iter__")
            if m is not None and m.is_gen and m not in self.stack and self.rule.inline(m, None, len(self.stack)):
                return m, self.bind_args(m, t, [], {})
        return None

    def for_generator(self, n, st, it, g, ex):
        fi, genv = g
        outer_env_name = "$outer"

        def handler(s, val):
            """s: state inside of the generator at the yield"""
            genenv = s.env
            outer = s.env[outer_env_name].a[0]
            s1 = s.copy()
            s1.env = dict(outer)
            res = Exits()
            # the loop body runs in the frame of the loop
            saved = self.stack, self.yield_handlers
            self.stack = self.stack[:base_depth]
            self.yield_handlers = self.yield_handlers[:base_depth]
            try:
                for a in self.assign(n.target, val, s1, res):
                    r = self.exec_block(n.body, [a])
                    for x in r.get("normal") + r.get("continue"):
                        x = x.copy()
                        ne = dict(genenv)
                        ne[outer_env_name] = T("env", frozenset(x.env.items()))
                        x.env = ne
                        res.add("normal", x)
                    for kind in ("break", "return", "raise"):
                        for x in r.get(kind):
                            x = x.copy()
                            ne = dict(genenv)
                            ne[outer_env_name] = T("env", frozenset(x.env.items()))
                            # the generator gets closed
                            ne["$pending"] = T("pending", kind, x.ret, x.exc)
                            x.env = ne
                            x.ret = None
                            x.exc = T("exc", "GeneratorExit")
                            res.add("raise", x)
            finally:
                self.stack, self.yield_handlers = saved
            return res

        base_depth = len(self.stack)
        e = dict(genv)
        e[outer_env_name] = T("env", frozenset(st.env.items()))
        s0 = st.copy()
        s0.env = e
        r = self.exec_func(fi, s0, [handler])
        for s in r.get("return"):
            s = s.copy()
            s.env = dict(s.env[outer_env_name].a[0])
            s.ret = None
            if n.orelse:
                ex.absorb(self.exec_block(n.orelse, [s]), Exits.KINDS)
            else:
                ex.add("normal", s)
        for s in r.get("raise"):
            s = s.copy()
            pend = s.env.get("$pending")
            s.env = dict(s.env[outer_env_name].a[0])
            if pend is not None and s.exc.a[0] == "GeneratorExit":
                kind, ret, exc = pend.a
                s.ret, s.exc = ret, exc
                ex.add({"break": "normal"}.get(kind, kind), s)
            else:
                ex.add("raise", s)

    def s_Break(self, n, st, ex):
        ex.add("break", st)

    def s_Continue(self, n, st, ex):
        ex.add("continue", st)

    # with
    def s_With(self, n, st, ex):
        self.with_items(n, list(n.items), [st], ex)

    s_AsyncWith = s_With

    def with_items(self, n, items, states, ex):
        if not items:
            r = self.exec_block(n.body, states)
            ex.absorb(r, Exits.KINDS)
            return
        item, rest = items[0], items[1:]
        for st in states:
            for s, cm in self.eval(item.context_expr, st, ex, cm=True):
                self.enter_cm(n, item, rest, s, cm, ex)

    def enter_cm(self, n, item, rest, s, cm, ex):
        name = refname(cm.a[0]) if cm.k == "call" else None
        cmname = (name or "").rpartition(".")[2]
        if cm.k == "call" and not cmname and cm.a[0].k == "attr":
            cmname = cm.a[0].a[1]

        def run_body(s0, val):
            res = Exits()
            cur = [s0]
            if item.optional_vars is not None:
                cur = self.assign(item.optional_vars, val, s0, res)
            for c in cur:
                self.with_items(n, rest, [c], res)
            return res

        # contextlib helpers
        if name == "contextlib.suppress":
            r = run_body(s, NONE)
            names = [self.exc_name(a) for a in cm.a[1]]
            for x in r.get("raise"):
                m = [self.exc_matches(x.exc.a[0], nme) for nme in names]
                if any(v is not False for v in m):
                    y = x.copy()
                    y.exc = None
                    ex.add("normal", y)
                if not any(v is True for v in m):
                    ex.add("raise", x)
            ex.absorb(r, ("normal", "return", "break", "continue"))
            return
        # repository @contextmanager functions
        fi, env = self.cm_function(cm, s)
        if fi is not None:
            base_depth = len(self.stack)

            def handler(gs, val):
                genenv = gs.env
                s1 = gs.copy()
                s1.env = dict(gs.env["$outer"].a[0])
                saved = self.stack, self.yield_handlers
                self.stack = self.stack[:base_depth]
                self.yield_handlers = self.yield_handlers[:base_depth]
                try:
                    r = run_body(s1, val)
                finally:
                    self.stack, self.yield_handlers = saved
                res = Exits()
                for kind in Exits.KINDS:
                    for x in r.get(kind):
                        x = x.copy()
                        ne = dict(genenv)
                        ne["$outer"] = T("env", frozenset(x.env.items()))
                        if kind == "raise":
                            x.env = ne
                            res.add("raise", x)
                        else:
                            if kind != "normal":
                                ne["$pending"] = T("pending", kind, x.ret, None)
                                x.ret = None
                            x.env = ne
                            res.add("normal", x)
                return res

            e = dict(env)
            e["$outer"] = T("env", frozenset(s.env.items()))
            s0 = s.copy()
            s0.env = e
            r = self.exec_func(fi, s0, [handler])
            for x in r.get("return"):
                x = x.copy()
                pend = x.env.get("$pending")
                x.env = dict(x.env["$outer"].a[0])
                x.ret = None
                if pend is not None:
                    kind, ret, _e = pend.a
                    x.ret = ret
                    ex.add(kind, x)
                else:
                    ex.add("normal", x)
            for x in r.get("raise"):
                x = x.copy()
                x.env = dict(x.env["$outer"].a[0])
                ex.add("raise", x)
            return
        # class based context managers of the repository
        for c in self.types_of(cm, s):
            ent, exi = c.find("__enter__"), c.find("__exit__")
            if ent is None or exi is None:
                continue
            if not (self.rule.inline(ent, None, len(self.stack)) or self.rule.inline(exi, None, len(self.stack))):
                continue
            if exi in self.stack or len(self.stack) > self.rule.max_depth:
                continue
            r = self.call_func(ent, cm, [], {}, s, ex)
            for s1, val in r:
                b = run_body(s1, val)
                for kind in Exits.KINDS:
                    for x in b.get(kind):
                        if kind == "raise":
                            args = [T("ref", "builtins." + x.exc.a[0]), x.exc, T("free", "tb")]
                            exc = x.exc
                            x0 = x.copy()
                            x0.exc = None
                            for s2, rv in self.call_func(exi, cm, args, {}, x0, ex):
                                for s3, bb in self.truth(rv, s2, n):
                                    s3 = s3.copy()
                                    if bb:
                                        ex.add("normal", s3)
                                    else:
                                        s3.exc = exc
                                        ex.add("raise", s3)
                        else:
                            keep = x.ret
                            x0 = x.copy()
                            x0.ret = None
                            for s2, rv in self.call_func(exi, cm, [NONE, NONE, NONE], {}, x0, ex):
                                s2 = s2.copy()
                                s2.ret = keep
                                ex.add(kind, s2)
            return
        # opaque context managers
        hook = getattr(self.rule, "on_with", None)
        if hook is not None:
            s = hook("enter", cm, s, item.context_expr, self.func)
            if s is None:
                return
        val = T("enter", cm)
        r = run_body(s, val)
        for kind in Exits.KINDS:
            for x in r.get(kind):
                xr = getattr(self.rule, "exit_raises", None)
                if xr is not None:
                    y = xr(cm, x, kind, item.context_expr, self.func)
                    if y is not None:
                        y = y.copy()
                        y.ret = None
                        y.exc = T("exc", "?")
                        y.site = (self.func.path, n.lineno)
                        ex.add("raise", y)
                if hook is not None:
                    keep = (x.ret, x.exc, x.site)
                    x = hook("exit!" if kind == "raise" else "exit", cm, x, item.context_expr, self.func)
                    if x is None:
                        continue
                    x = x.copy()
                    x.ret, x.exc, x.site = keep
                ex.add(kind, x)

    def cm_function(self, cm, s):
        if cm.k != "call" or len(self.stack) > self.rule.max_depth:
            return None, None
        f = cm.a[0]
        recv = None
        cands = []
        if f.k == "func" or (f.k == "ref" and isinstance(f.a[0], Func)):
            cands = [f.a[0]]
        elif f.k == "attr":
            recv = f.a[0]
            cands = [t for t in self.method_targets(recv, f.a[1], s) if isinstance(t, Func)]
        for fi in cands:
            if fi.is_cm and fi not in self.stack and self.rule.inline(fi, None, len(self.stack)):
                env = self.bind_args(fi, recv, list(cm.a[1]), dict(cm.a[2]))
                if f.k == "func":
                    base = dict(f.a[1])
                    base.update(env)
                    env = base
                return fi, env
        return None, None

    def s_Match(self, n, st, ex):
        for s, t in self.eval(n.subject, st, ex):
            for case in n.cases:
                cur = [s]
                for x in ast.walk(case.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        cur = [c.bind(x.name, T("sub", t, const(x.name))) for c in cur]
                ex.absorb(self.exec_block(case.body, cur), Exits.KINDS)
            ex.add("normal", s)

    # -- conditions ---------------------------------------------------------
    # -- containers changed in place ------------------------------------------
    GROWS = ("append", "add", "insert", "appendleft", "setdefault", "push")
    CHANGES = GROWS + ("extend", "extendleft", "update", "pop", "popleft", "popitem", "remove", "clear", "discard", "sort", "reverse", "difference_update", "intersection_update")

    def changed_names(self):
        """local names of the current function whose value is changed in
        place, or handed to someone who could"""
        cache = self.__dict__.setdefault("_changed_names", {})
        res = cache.get(self.func)
        if res is None:
            res = set()
            for x in ast.walk(self.func.node):
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in self.CHANGES:
                        res.add(x.func.value.id)
                    if not (isinstance(x.func, ast.Name) and x.func.id in dir(builtins)):
                        for a in list(x.args) + [k.value for k in x.keywords if k.arg]:
                            if isinstance(a, ast.Name):
                                res.add(a.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    res.add(x.value.id)
            cache[self.func] = res
        return res

    def is_container(self, t):
        return t.k in ("list", "set", "dict") or t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.list", "builtins.set", "builtins.dict", "collections.deque", "collections.defaultdict", "collections.OrderedDict")

    def pristine(self, name, st):
        return st.facts.get(T("free", "pristine", self.func.qual, name)) is not False

    def track_container(self, st, name, t):
        k = T("free", "pristine", self.func.qual, name)
        f = T("free", "filled", self.func.qual, name)
        if k in st.facts or f in st.facts:
            st = st.copy()
            st.facts = {x: v for x, v in st.facts.items() if x is not k and x is not f}
        return st

    def container_changed(self, st, name, filled):
        """filled: True / False / None (not known)"""
        t = st.env.get(name)
        if t is None or not self.is_container(t) or name not in self.changed_names():
            return st
        f = T("free", "filled", self.func.qual, name)
        old = st.facts.get(f)
        if old is None and self.pristine(name, st) and t.k != "call":
            old = bool(t.a[0])
        if filled == "grow?":
            filled = True if old else None
        st = st.with_fact(T("free", "pristine", self.func.qual, name), False)
        if filled is None:
            st.facts.pop(f, None)
        else:
            st.facts[f] = filled
        st.facts.pop(t, None)
        return st

    def note_changes(self, e, st):
        """effects of the call e on local containers"""
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in self.CHANGES:
            n = e.func.attr
            st = self.container_changed(st, e.func.value.id, True if n in self.GROWS else False if n == "clear" else "grow?" if n in ("extend", "extendleft", "update", "sort", "reverse") else None)
        if not (isinstance(e.func, ast.Name) and e.func.id in dir(builtins)):
            for a in list(e.args) + [k.value for k in e.keywords if k.arg]:
                if isinstance(a, ast.Name):
                    st = self.container_changed(st, a.id, "grow?")
        return st

    def cond(self, e, st, ex):
        if isinstance(e, ast.Name):
            t = st.env.get(e.id)
            if t is not None and self.is_container(t) and not self.pristine(e.id, st):
                f = T("free", "filled", self.func.qual, e.id)
                v = st.facts.get(f)
                if v is not None:
                    return [(st, v)]
                res = []
                for b in (True, False):
                    s = self.rule.on_branch(t, b, st.with_fact(f, b), e, self.func)
                    if s is not None:
                        res.append((s, b))
                return res
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            res = []
            for v in e.values:
                nxt = []
                for s in cur:
                    for s1, b in self.cond(v, s, ex):
                        if b == is_and:
                            nxt.append(s1)
                        else:
                            res.append((s1, b))
                cur = nxt
            res.extend((s, is_and) for s in cur)
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, ex)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # chained comparison
            parts = []
            left = e.left
            for op, right in zip(e.ops, e.comparators):
                c = ast.Compare(left=left, ops=[op], comparators=[right])
                ast.copy_location(c, e)
                parts.append(c)
                left = right
            b = ast.BoolOp(op=ast.And(), values=parts)
            ast.copy_location(b, e)
            return self.cond(b, st, ex)
        res = []
        for s, t in self.eval(e, st, ex):
            res.extend(self.truth(t, s, e))
        return res

    def known(self, t, st):
        """True / False / None"""
        if t.k == "c":
            return bool(t.a[0].v)
        if t in st.facts:
            return st.facts[t]
        if t.k in ("tup", "list", "set"):
            return bool(t.a[0])
        if t.k == "dict":
            return bool(t.a[0])
        if t.k in ("inst", "func", "exc"):
            return True
        if t.k == "ref" and not isinstance(t.a[0], str):
            return True
        if t.k == "un" and t.a[0] == "not":
            v = self.known(t.a[1], st)
            return None if v is None else not v
        if t.k == "cmp":
            op, l, r = t.a
            if op == "is" and r is NONE:
                if l.k == "c":
                    return l is NONE
                if l.k in ("tup", "list", "dict", "set", "inst", "func", "fstr", "exc", "bin", "cmp", "comp"):
                    return False
                if l.k == "ref" and not isinstance(l.a[0], str):
                    return False
                if st.facts.get(l) is True:
                    return False
                if l.k == "call" and l.a[0].k == "ref" and isinstance(l.a[0].a[0], Class):
                    return False
                return None
            if l is r and op in ("==", "is"):
                return True
            if is_const(l) and is_const(r):
                a, b = cval(l), cval(r)
                try:
                    if op == "==":
                        return a == b
                    if op == "is":
                        return a is b or a == b
                    if op == "<":
                        return a < b
                    if op == ">":
                        return a > b
                    if op == "in":
                        return a in b
                except TypeError:
                    return None
            if op in ("==", "is") and is_const(r):
                for f, v in st.facts.items():
                    if v and f.k == "cmp" and f.a[0] in ("==", "is") and f.a[1] is l and is_const(f.a[2]) and f.a[2] is not r:
                        return False
                if l.k == "ref" and isinstance(l.a[0], str):
                    return None
            if op == "is" and l.k == "ref" and r.k == "ref":
                return l is r
            if op == "is" and {l.k, r.k} & {"c"} and (l.k == "ref" or r.k == "ref"):
                return False
            if op in ("is", "==") and r.k == "ref" and l.k in ("tup", "list", "dict", "set"):
                return False
            if op == "in" and r.k in ("tup", "list", "set"):
                if l in r.a[0]:
                    return True
                if is_const(l) and all(is_const(x) for x in r.a[0]):
                    return False
                if not r.a[0]:
                    return False
                if l.k == "ref" and all(x.k == "ref" for x in r.a[0]):
                    return False
                vals = [self.known(T("cmp", "==", l, x), st) for x in r.a[0]]
                if any(v is True for v in vals):
                    return True
                if all(v is False for v in vals):
                    return False
            return None
        if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.bool" and len(t.a[1]) == 1:
            return self.known(t.a[1][0], st)
        return None

    def truth(self, t, st, node):
        v = self.known(t, st)
        if v is not None:
            return [(st, v)]
        if t.k == "un" and t.a[0] == "not":
            return [(s, not b) for s, b in self.truth(t.a[1], st, node)]
        if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.bool" and len(t.a[1]) == 1:
            return self.truth(t.a[1][0], st, node)
        res = []
        for b in (True, False):
            s = st.with_fact(t, b)
            if t.k == "cmp" and t.a[0] == "is" and t.a[2] is NONE and b:
                s = s.with_fact(t.a[1], False)
            if b and t.k not in ("cmp", "un"):
                s = s.with_fact(T("cmp", "is", t, NONE), False)
            if t.k == "cmp" and t.a[0] in ("==", "is") and b and is_const(t.a[2]):
                s = s.with_fact(t.a[1], bool(cval(t.a[2])))
            s = self.rule.on_branch(t, b, s, node, self.func)
            if s is not None:
                res.append((s, b))
        return res

    # -- expressions --------------------------------------------------------
    def eval(self, e, st, ex, cm=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            # evaluate the children for their events
            cur = [(st, None)]
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    cur = [(s2, None) for s, _ in cur for s2, _t in self.eval(ch, s, ex)]
            return [(s, T("free", type(e).__name__)) for s, _ in cur]
        return m(e, st, ex)

    def eval_list(self, exprs, st, ex):
        cur = [(st, ())]
        for x in exprs:
            if isinstance(x, ast.Starred):
                cur = [
                    (s2, ts + (T("star", t),))
                    for s, ts in cur for s2, t in self.eval(x.value, s, ex)]
            elif x is None:
                cur = [(s, ts + (NONE,)) for s, ts in cur]
            else:
                cur = [
                    (s2, ts + (t,))
                    for s, ts in cur for s2, t in self.eval(x, s, ex)]
        return cur

    def e_Constant(self, e, st, ex):
        v = e.value
        if v is Ellipsis:
            return [(st, T("free", "..."))]
        return [(st, const(v))]

    def e_Name(self, e, st, ex):
        t = st.env.get(e.id)
        if t is None:
            if e.id in ("True", "False", "None"):
                return [(st, const({"True": True, "False": False, "None": None}[e.id]))]
            r = self.P.resolve_name(self.func.module, e.id)
            if isinstance(r, str) and r == self.func.module.name + "." + e.id:
                g = self.func.module.globals.get(e.id)
                if isinstance(g, ast.Constant):
                    return [(st, const(g.value))]
                if isinstance(g, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in g.elts):
                    return [(st, T("tup", tuple(const(x.value) for x in g.elts)))]
                if isinstance(g, ast.Call) and dotted(g.func) in ("frozenset", "set", "tuple") and len(g.args) == 1 and isinstance(g.args[0], (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in g.args[0].elts):
                    return [(st, T("tup", tuple(const(x.value) for x in g.args[0].elts)))]
            if isinstance(r, str) and not r.startswith("builtins."):
                pass
            t = T("ref", r)
        return [(st, t)]

    def e_Attribute(self, e, st, ex):
        res = []
        for s, b in self.eval(e.value, st, ex):
            res.extend(self.get_attr(b, e.attr, s, ex, e))
        return res

    def get_attr(self, b, name, s, ex, node):
        if b.k == "ref":
            o = b.a[0]
            if isinstance(o, (Module, Class)):
                q = (o.name if isinstance(o, Module) else o.qual) + "." + name
                r = self.P.lookup_dotted(q)
                if isinstance(o, Class) and isinstance(r, str):
                    expr = o.find_attr(name)
                    if isinstance(expr, ast.Constant):
                        return [(s, const(expr.value))]
                return [(s, T("ref", r))]
            if isinstance(o, str):
                r = self.P.lookup_dotted(o + "." + name)
                return [(s, T("ref", r))]
        at = T("attr", b, name)
        if at in s.heap:
            return [(s, s.heap[at])]
        if b.k == "inst":
            expr = b.a[0].find_attr(name)
            if isinstance(expr, ast.Constant):
                # class level constant (may be overridden per instance)
                stored = self.instance_stores(b.a[0], name)
                if not stored:
                    return [(s, const(expr.value))]
        # repository properties the rule wants to see through
        for c in self.types_of(b, s):
            p = c.find(name)
            if p is not None and p.is_property:
                if p not in self.stack and len(self.stack) <= self.rule.max_depth and (
                        name in self.rule.inline_props or self.rule.inline(p, None, len(self.stack))):
                    res = self.call_func(p, b, [], {}, s, ex)
                    if "cached" in " ".join(p.deco_names()) or "lazy" in " ".join(p.deco_names()):
                        res = [(x.with_heap(at, v), v) for x, v in res]
                    return res
            break
        hook = getattr(self.rule, "on_load", None)
        if hook is not None:
            s = hook(b, name, s, node, self.func)
            if s is None:
                return []
        return [(s, at)]

    def instance_stores(self, cls, name):
        cache = self._closures.setdefault("stores", {})
        key = (cls, name)
        if key not in cache:
            cache[key] = any(
                isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store)
                for c in cls.mro() for f in c.methods.values() for x in ast.walk(f.node))
        return cache[key]

    def e_Subscript(self, e, st, ex):
        res = []
        for s, b in self.eval(e.value, st, ex):
            for s1, i in self.eval(e.slice, s, ex):
                if b.k in ("tup", "list") and is_const(i) and isinstance(cval(i), int) and -len(b.a[0]) <= cval(i) < len(b.a[0]) and not any(x.k == "star" for x in b.a[0]):
                    res.append((s1, b.a[0][cval(i)]))
                elif b.k == "dict" and is_const(i):
                    for k, v in b.a[0]:
                        if k is i:
                            res.append((s1, v))
                            break
                    else:
                        res.append((s1, T("sub", b, i)))
                else:
                    hook = getattr(self.rule, "sub_raises", None)
                    if hook is not None and hook(b, i, s1, e, self.func):
                        s2 = s1.copy()
                        s2.exc = T("exc", "KeyError")
                        s2.site = (self.func.path, e.lineno)
                        ex.add("raise", s2)
                    res.append((s1, T("sub", b, i)))
        return res

    def e_Slice(self, e, st, ex):
        return [
            (s, T("slice", ts)) for s, ts in
            self.eval_list([e.lower, e.upper, e.step], st, ex)]

    def e_Tuple(self, e, st, ex):
        return [(s, T("tup", ts)) for s, ts in self.eval_list(e.elts, st, ex)]

    def e_List(self, e, st, ex):
        return [(s, T("list", ts)) for s, ts in self.eval_list(e.elts, st, ex)]

    def e_Set(self, e, st, ex):
        return [(s, T("set", ts)) for s, ts in self.eval_list(e.elts, st, ex)]

    def e_Dict(self, e, st, ex):
        cur = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items in cur:
                if k is None:
                    for s2, t in self.eval(v, s, ex):
                        nxt.append((s2, items + ((T("free", "**"), t),)))
                else:
                    for s1, kt in self.eval(k, s, ex):
                        for s2, vt in self.eval(v, s1, ex):
                            nxt.append((s2, items + ((kt, vt),)))
            cur = nxt
        return [(s, T("dict", items)) for s, items in cur]

    def e_BinOp(self, e, st, ex):
        return [
            (s2, T("bin", type(e.op).__name__, a, b))
            for s, a in self.eval(e.left, st, ex)
            for s2, b in self.eval(e.right, s, ex)]

    def e_UnaryOp(self, e, st, ex):
        res = []
        for s, t in self.eval(e.operand, st, ex):
            if isinstance(e.op, ast.Not):
                if t.k == "un" and t.a[0] == "not":
                    pass
                v = self.known(t, s)
                res.append((s, T("un", "not", t) if v is None else const(not v)))
            elif isinstance(e.op, ast.USub) and is_const(t) and isinstance(cval(t), (int, float)):
                res.append((s, const(-cval(t))))
            else:
                res.append((s, T("un", type(e.op).__name__, t)))
        return res

    def e_Compare(self, e, st, ex):
        if len(e.ops) > 1:
            return [(s, const(b)) for s, b in self.cond(e, st, ex)]
        op = OPS[type(e.ops[0])]
        res = []
        for s, l in self.eval(e.left, st, ex):
            for s1, r in self.eval(e.comparators[0], s, ex):
                c = e.comparators[0]
                if isinstance(c, ast.Name) and op in ("in", "not in") and self.is_container(r) and not self.pristine(c.id, s1):
                    r = T("star", r)
                res.append((s1, self.mk_cmp(op, l, r)))
        return res

    def mk_cmp(self, op, l, r):
        neg = False
        if op in CMPNEG:
            op = CMPNEG[op]
            neg = True
        if op == ">":
            op, l, r = "<", r, l
        if op in ("==", "is") and is_const(l) and not is_const(r):
            l, r = r, l
        if op == "is" and is_const(r) and cval(r) is not None:
            op = "=="
        if op == "==" and r is NONE:
            op = "is"
        t = T("cmp", op, l, r)
        return T("un", "not", t) if neg else t

    def e_BoolOp(self, e, st, ex):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        res = []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s1, t in self.eval(v, s, ex):
                    if last:
                        res.append((s1, t))
                        continue
                    for s2, b in self.truth(t, s1, v):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            res.append((s2, t))
            cur = nxt
        return res

    def e_IfExp(self, e, st, ex):
        res = []
        for s, b in self.cond(e.test, st, ex):
            res.extend(self.eval(e.body if b else e.orelse, s, ex))
        return res

    def e_NamedExpr(self, e, st, ex):
        return [(s.bind(e.target.id, t), t) for s, t in self.eval(e.value, st, ex)]

    def e_JoinedStr(self, e, st, ex):
        parts = []
        for v in e.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        return [(s, T("fstr", ts)) for s, ts in self.eval_list(parts, st, ex)]

    def e_Lambda(self, e, st, ex):
        cache = self._closures.setdefault("lambda", {})
        f = cache.get(e)
        if f is None:
            f = Func(self.func.module, e, "%s.<lambda>" % self.func.qual, None, self.func)
            cache[e] = f
        return [(st, self.closure(f, st))]

    def e_Await(self, e, st, ex):
        res = self.eval(e.value, st, ex)
        rhook = getattr(self.rule, "on_iter_raise", None)
        if rhook is not None and not isinstance(e.value, ast.Call):
            # waiting for something which fails or is cancelled
            for s, t in res:
                x = rhook(T("call", T("free", "await"), (t,), (), None), s, e, self.func)
                if x is not None:
                    x = x.copy()
                    x.exc = T("exc", "?B")
                    x.site = (self.func.path, e.lineno)
                    ex.add("raise", x)
        return res

    def e_Starred(self, e, st, ex):
        return self.eval(e.value, st, ex)

    def e_Yield(self, e, st, ex):
        res = []
        vals = self.eval(e.value, st, ex) if e.value is not None else [(st, NONE)]
        for s, t in vals:
            res.extend(self.do_yield(t, s, ex, e))
        return res

    def do_yield(self, t, s, ex, node):
        s = self.rule.on_yield(t, s, node, self.func)
        if s is None:
            return []
        h = self.yield_handlers[-1]
        if h is None:
            for exc in self.rule.yield_raises(self.func, len(self.stack) - 1):
                x = s.copy()
                x.exc = T("exc", exc)
                x.site = (self.func.path, node.lineno)
                ex.add("raise", x)
            return [(s, T("free", "sent"))]
        r = h(s, t)
        ex.absorb(r, ("raise",))
        return [(x, NONE) for x in r.get("normal")]

    def e_YieldFrom(self, e, st, ex):
        res = []
        for s, t in self.eval(e.value, st, ex):
            g = self.generator_of(t, s)
            if g is None:
                # unknown iterator: its failure surfaces here
                hook = getattr(self.rule, "on_iter", None)
                rhook = getattr(self.rule, "on_iter_raise", None)
                x = rhook(t, s, e, self.func) if rhook else None
                x = (x if x is not None else s).copy()
                x.exc = T("exc", "?")
                x.site = (self.func.path, e.lineno)
                ex.add("raise", x)
                for s2, _ in self.do_yield(T("elem", t), s, ex, e):
                    s2 = hook("end", t, s2, e, self.func) if hook else s2
                    if s2 is not None:
                        res.append((s2, T("free", "yf")))
                continue
            fi, genv = g
            outer_h = self.yield_handlers[-1]
            base_depth = len(self.stack)

            def handler(gs, val):
                genenv = gs.env
                s1 = gs.copy()
                s1.env = dict(gs.env["$outer"].a[0])
                rx = Exits()
                saved = self.stack, self.yield_handlers
                self.stack = self.stack[:base_depth]
                self.yield_handlers = self.yield_handlers[:base_depth]
                try:
                    out = self.do_yield(val, s1, rx, e)
                finally:
                    self.stack, self.yield_handlers = saved
                rr = Exits()
                for x, _ in out:
                    x = x.copy()
                    ne = dict(genenv)
                    ne["$outer"] = T("env", frozenset(x.env.items()))
                    x.env = ne
                    rr.add("normal", x)
                for x in rx.get("raise"):
                    x = x.copy()
                    ne = dict(genenv)
                    ne["$outer"] = T("env", frozenset(x.env.items()))
                    x.env = ne
                    rr.add("raise", x)
                return rr

            e2 = dict(genv)
            e2["$outer"] = T("env", frozenset(s.env.items()))
            s0 = s.copy()
            s0.env = e2
            r = self.exec_func(fi, s0, [handler])
            for x in r.get("return"):
                x = x.copy()
                val = x.ret
                x.env = dict(x.env["$outer"].a[0])
                x.ret = None
                res.append((x, val))
            for x in r.get("raise"):
                x = x.copy()
                x.env = dict(x.env["$outer"].a[0])
                ex.add("raise", x)
        return res

    def comp(self, e, elts, kind, st, ex):
        """comprehension: element expressions are looked at once"""
        cur = [st]
        src_t = None
        zero = []
        for gi, g in enumerate(e.generators):
            nxt = []
            for s in cur:
                for s1, it in self.eval(g.iter, s, ex):
                    if src_t is None:
                        src_t = it
                    if gi == 0:
                        zero.append(s1)
                    for s2 in self.assign(g.target, T("elem", it), s1, ex):
                        ok = [s2]
                        for c in g.ifs:
                            ok2 = []
                            for y in ok:
                                for s3, b in self.cond(c, y, ex):
                                    if b:
                                        ok2.append(s3)
                            ok = ok2
                        nxt.extend(ok)
            cur = self.dedupe(nxt)
        res = []
        names = self.assigned_names([g.target for g in e.generators])
        for s in cur:
            for s1, ts in self.eval_list(elts, s, ex):
                t = T("comp", kind, ts if len(ts) != 1 else ts[0], src_t, tuple(sorted(
                    (k for k in s1.facts.items() if k[0] not in st.facts), key=lambda kv: (repr(kv[0]), kv[1]))))
                s2 = s1.copy()
                s2.env = {k: v for k, v in s1.env.items() if k not in names}
                for k in names:
                    if k in st.env:
                        s2.env[k] = st.env[k]
                s2.facts = {k: v for k, v in s1.facts.items() if not self.has_site(k, None, 0, -1)}
                res.append((s2, t))
        zero = self.dedupe(zero)
        if not res:
            return [(z, T("comp", kind, NONE, src_t or NONE, ())) for z in zero]
        # the zero element case: only the first iterable was looked at
        for z in zero:
            if all(s.auto != z.auto for s, _ in res):
                res.append((z, T("list", ())))
        return res

    def e_ListComp(self, e, st, ex):
        return self.comp(e, [e.elt], "list", st, ex)

    def e_SetComp(self, e, st, ex):
        return self.comp(e, [e.elt], "set", st, ex)

    def e_GeneratorExp(self, e, st, ex):
        return self.comp(e, [e.elt], "gen", st, ex)

    def e_DictComp(self, e, st, ex):
        return self.comp(e, [e.key, e.value], "dict", st, ex)

    # -- types --------------------------------------------------------------
    def types_of(self, t, st=None, depth=0):
        if depth > 6:
            return []
        if t.k == "inst":
            return [t.a[0]]
        if t.k == "super":
            return []
        if t.k == "call":
            f = t.a[0]
            if f.k == "ref":
                o = f.a[0]
                if isinstance(o, Class):
                    return [o]
                if isinstance(o, Func):
                    return self.return_types(o, depth)
            if f.k == "attr":
                h = self.hint(f.a[1] + "()", f.a[0], st, depth)
                if h:
                    return h
                for tg in self.method_targets(f.a[0], f.a[1], st, depth + 1):
                    if isinstance(tg, Func):
                        r = self.return_types(tg, depth)
                        if r:
                            return r
            return []
        if t.k in ("attr",):
            base = self.types_of(t.a[0], st, depth + 1)
            for c in base:
                p = c.find(t.a[1])
                if p is not None and p.is_property:
                    r = self.return_types(p, depth)
                    if r:
                        return r
            return self.hint(t.a[1], t.a[0], st, depth)
        if t.k in ("p", "free", "phi"):
            return self.hint(t.a[0], None, st, depth)
        if t.k == "elem":
            h = self.elem_hint(t.a[0])
            return h
        if t.k == "enter":
            c = t.a[0]
            if c.k == "call":
                name = refname(c.a[0]) or ""
                if name == "contextlib.closing" and c.a[1]:
                    return self.types_of(c.a[1][0], st, depth + 1)
                cn = c.a[0].a[1] if c.a[0].k == "attr" else name.rpartition(".")[2]
                return self.hint(cn + "()", None, st, depth)
        return []

    def elem_hint(self, t):
        name = None
        if t.k == "attr":
            name = t.a[1]
        elif t.k in ("p", "free"):
            name = t.a[0]
        elif t.k == "call":
            f = t.a[0]
            name = (f.a[1] if f.k == "attr" else (refname(f) or "").rpartition(".")[2]) + "()"
        if name:
            return self._hint("each " + name)
        return []

    def _hint(self, name):
        h = self.hints.get(name)
        if h is None:
            return []
        if isinstance(h, str):
            h = [h]
        res = []
        for q in h:
            c = self.P.classes.get(q)
            if c is None:
                r = self.P.lookup_dotted(q)
                c = r if isinstance(r, Class) else None
            if c is not None:
                res.append(c)
        return res

    def hint(self, name, base, st, depth):
        return self._hint(name)

    def return_types(self, f, depth=0):
        cache = self._closures.setdefault("rt", {})
        if f in cache:
            return cache[f]
        cache[f] = []
        res = []
        for x in walk_no_defs(f.node):
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Call):
                r = self.P.resolve_expr(f.module, x.value.func)
                if isinstance(r, Class) and r not in res:
                    res.append(r)
        if not res:
            h = self._hint(f.name + "()")
            res = h
        cache[f] = res
        return res

    def method_targets(self, recv, name, st=None, depth=0):
        if recv.k == "super":
            cls, cur = recv.a
            m = cls.find_after(cur, name)
            return [m] if m is not None else []
        types = self.types_of(recv, st, depth)
        res = []
        for c in types:
            m = c.find(name)
            if m is not None and m not in res:
                res.append(m)
        if res or types:
            return res
        if recv.k == "ref" and isinstance(recv.a[0], str):
            return []
        if name in COMMON_METHODS or name.startswith("__"):
            return []
        cands = self.P.by_method.get(name, [])
        if len(cands) == 1:
            return list(cands)
        if 1 < len(cands) <= 4:
            # one family of classes only
            tops = {c.cls.mro()[-1] for c in cands}
            if len(tops) == 1:
                return list(cands)
        return []

    # -- calls --------------------------------------------------------------
    def bind_args(self, f, recv, args, kwargs, skip_self=False):
        env = {}
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if recv is not None and f.cls is not None and not f.is_static:
            if params:
                env[params[0]] = recv
                params = params[1:]
        elif skip_self and params:
            params = params[1:]
        rest = []
        star = False
        for i, t in enumerate(args):
            if t.k == "star":
                star = True
                inner = t.a[0]
                if inner.k in ("tup", "list"):
                    for x in inner.a[0]:
                        if params:
                            env[params.pop(0)] = x
                        else:
                            rest.append(x)
                    star = False
                else:
                    j = 0
                    while params:
                        env[params.pop(0)] = T("sub", inner, const(j))
                        j += 1
                continue
            if params:
                env[params.pop(0)] = t
            else:
                rest.append(t)
        if a.vararg:
            env[a.vararg.arg] = T("tup", tuple(rest)) if not star else T("free", a.vararg.arg)
        kwonly = [x.arg for x in a.kwonlyargs]
        names = [x.arg for x in a.args + a.posonlyargs] + kwonly
        extra = []
        dstar = None
        for k, v in kwargs.items():
            if k == "**":
                dstar = v
                if v.k == "dict":
                    for kk, vv in v.a[0]:
                        if is_const(kk):
                            if cval(kk) in names:
                                env[cval(kk)] = vv
                            else:
                                extra.append((kk, vv))
                continue
            if k in names:
                env[k] = v
            else:
                extra.append((const(k), v))
        if a.kwarg:
            if dstar is not None and dstar.k != "dict":
                if not extra:
                    env[a.kwarg.arg] = dstar
                else:
                    env[a.kwarg.arg] = T("dict", tuple(extra) + ((T("free", "**"), dstar),))
            else:
                env[a.kwarg.arg] = T("dict", tuple(extra))
        # defaults
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in env:
                if dstar is not None and dstar.k != "dict":
                    env[p.arg] = T("sub", dstar, const(p.arg))
                else:
                    env[p.arg] = self.default_term(f, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                env[p.arg] = self.default_term(f, d) if d is not None else T("p", p.arg)
        for p in [x.arg for x in pos] + kwonly:
            if p not in env:
                if dstar is not None:
                    env[p] = T("sub", dstar, const(p))
                else:
                    env[p] = T("p", p)
        return env

    def default_term(self, f, d):
        if isinstance(d, ast.Constant) and d.value is not Ellipsis:
            return const(d.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return T("tup", ())
        r = self.P.resolve_expr(f.module, d)
        if r is not None:
            if isinstance(r, str) and r.startswith("builtins.") and r[9:] in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[r[9:]])
            return T("ref", r)
        return T("free", "default")

    def e_Call(self, e, st, ex):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            inst = None
            cur = self.func
            cls = cur.cls
            p = cur
            while cls is None and p.parent is not None:
                p = p.parent
                cls = p.cls
            selfname = p.params()[0] if p.params() else "self"
            inst = st.env.get(selfname)
            icls = cls
            if inst is not None:
                ts = self.types_of(inst, st)
                if ts and cls in ts[0].mro():
                    icls = ts[0]
            if cls is not None:
                return [(st, T("super", icls, cls))]
        res = []
        if isinstance(e.func, ast.Attribute):
            bases = self.eval(e.func.value, st, ex)
            pairs = []
            for s, b in bases:
                at = T("attr", b, e.func.attr)
                if b.k == "ref":
                    for s2, ft in self.get_attr(b, e.func.attr, s, ex, e.func):
                        pairs.append((s2, ft, b))
                elif at in s.heap:
                    pairs.append((s, s.heap[at], b))
                else:
                    pairs.append((s, at, b))
        else:
            pairs = [(s, ft, None) for s, ft in self.eval(e.func, st, ex)]
        for s, ft, recv in pairs:
            for s1, args in self.eval_list(e.args, s, ex):
                cur = [(s1, {})]
                for kw in e.keywords:
                    nxt = []
                    for s2, d in cur:
                        for s3, t in self.eval(kw.value, s2, ex):
                            d2 = dict(d)
                            d2[kw.arg or "**"] = t
                            nxt.append((s3, d2))
                    cur = nxt
                for s2, kwargs in cur:
                    res.extend((self.note_changes(e, s3), t) for s3, t in self.do_call(e, ft, recv, list(args), kwargs, s2, ex))
        return res

    def targets_for(self, ft, recv, st):
        if ft.k == "func":
            return [ft.a[0]], None
        if ft.k == "ref":
            o = ft.a[0]
            if isinstance(o, (Func, Class)):
                return [o], None
            if isinstance(o, str):
                return [o], None
            return [], None
        if ft.k == "attr":
            tg = self.method_targets(ft.a[0], ft.a[1], st)
            return tg, ft.a[0]
        return [], None

    def do_call(self, e, ft, recv, args, kwargs, st, ex):
        self.ncalls += 1
        # functools.partial objects
        if ft.k == "call" and refname(ft.a[0]) == "functools.partial" and ft.a[1]:
            kw = dict(ft.a[2])
            kw.update(kwargs)
            inner = ft.a[1][0]
            return self.do_call(
                e, inner, inner.a[0] if inner.k == "attr" else None,
                list(ft.a[1][1:]) + args, kw, st, ex)
        targets, r2 = self.targets_for(ft, recv, st)
        ev = Event()
        ev.interp = self
        ev.node = e
        ev.func = self.func
        ev.targets = targets
        ev.fterm = ft
        ev.recv = recv if recv is not None else r2
        if ft.k == "attr":
            ev.name = ft.a[1]
        else:
            ev.name = (refname(ft) or (ft.a[0] if ft.k in ("p", "free") else "?")).rpartition(".")[2]
        ev.args = args
        ev.kwargs = kwargs
        ev.stack = tuple(self.stack)
        ev.exits = ex
        site = None
        if ev.name not in self.rule.pure:
            site = (self.func.path, e.lineno, e.col_offset)
        term = T("call", ft, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), site)
        ev.term = term
        # a fresh evaluation: earlier facts about this site do not apply
        if site is not None:
            drop = [f for f in st.facts if f is term or (f.k in ("cmp", "un") and term in f.a)]
            if drop:
                st = st.copy()
                st.facts = {k: v for k, v in st.facts.items() if k not in drop}
        # well known builtins
        if ft.k == "ref" and isinstance(ft.a[0], str):
            q = ft.a[0]
            if q == "builtins.getattr" and len(args) >= 2 and is_const(args[1]):
                at = T("attr", args[0], cval(args[1]))
                if len(args) == 2:
                    return self.get_attr(args[0], cval(args[1]), st, ex, e)
                if at in st.heap:
                    return [(st, st.heap[at])]
        st = st.copy()
        out = self.rule.on_call(ev, st)
        if out is not None:
            return out
        # follow repository callees
        done = []
        followed = False
        for tg in targets:
            f = tg
            selfterm = ev.recv
            closure = dict(ft.a[1]) if ft.k == "func" else {}
            result_override = None
            if isinstance(tg, Class):
                f = tg.find("__init__")
                if f is None:
                    continue
                selfterm = term
                result_override = term
            if not isinstance(f, Func):
                continue
            if isinstance(tg, Func) and (tg.is_gen or tg.is_cm):
                continue
            if f in self.stack or len(self.stack) > self.rule.max_depth:
                continue
            if not self.rule.inline(f, ev, len(self.stack)):
                continue
            followed = True
            if isinstance(tg, Func) and tg.cls is None:
                selfterm = None
            if isinstance(tg, Func) and tg.cls is not None and ft.k == "ref":
                # Class.method(self, ...) or classmethod
                if tg.is_classmethod:
                    selfterm = T("ref", tg.cls)
                elif tg.is_static:
                    selfterm = None
                elif args:
                    selfterm = args[0]
                    args2 = args[1:]
                    for s, t in self.call_func(f, selfterm, args2, kwargs, st, ex, closure):
                        s = self.rule.after_call(ev, s, t)
                        if s is not None:
                            done.append((s, t))
                    continue
            if ev.recv is not None and ev.recv.k == "super" and not isinstance(tg, Class):
                selfname = self.func.params()[0] if self.func.params() else "self"
                selfterm = st.env.get(selfname, T("inst", ev.recv.a[0]))
            for s, t in self.call_func(f, selfterm, args, kwargs, st, ex, closure):
                if result_override is not None:
                    t = result_override
                s = self.rule.after_call(ev, s, t)
                if s is not None:
                    done.append((s, t))
        if followed:
            if len(done) > 1:
                d = {}
                for s, t in done:
                    d.setdefault((s.key(), t), (s, t))
                done = list(d.values())
            return done
        # opaque call
        nr = [self.noreturn(t) for t in targets if isinstance(t, Func)]
        if targets and len(nr) == len(targets) and all(nr):
            for exc in nr:
                x = st.copy()
                x.exc = T("exc", exc, term)
                x.site = (self.func.path, e.lineno)
                x = self.rule.on_raise(x, e, self.func, len(self.stack))
                if x is not None:
                    ex.add("raise", x)
            return []
        if ft.k == "ref" and ft.a[0] in ("sys.exit", "builtins.exit", "os._exit"):
            ev.raise_(st, "SystemExit")
            return []
        for exc in self.rule.may_raise(ev):
            ev.raise_(st, exc)
        st = self.rule.after_call(ev, st, term)
        return [(st, term)] if st is not None else []

    def call_func(self, f, selfterm, args, kwargs, st, ex, closure=None):
        env = dict(closure or {})
        env.update(self.bind_args(f, selfterm, args, kwargs))
        s0 = st.copy()
        outer = st.env
        s0.env = env
        s0.ret = s0.exc = None
        mk = (f, tuple(x.qual for x in self.stack[-3:]) if False else len(self.stack), s0.key(), self.cur_exc[-1] if self.cur_exc else None)
        r = self.memo.get(mk)
        if r is None:
            r = self.exec_func(f, s0, [None])
            if len(self.memo) < 20000:
                self.memo[mk] = r
        res = []
        for s in r.get("return"):
            t = s.ret
            s = s.copy()
            s.env = outer
            s.ret = None
            res.append((s, t))
        for s in r.get("raise"):
            s = s.copy()
            s.env = outer
            ex.add("raise", s)
        if len(res) > 24:
            # merge by automaton state, result and facts: the callee's heap
            # writes stay separate only as far as they differ
            d = {}
            for s, t in res:
                d.setdefault((s.key(), t), (s, t))
            res = list(d.values())
        return res

    def noreturn(self, f, _seen=None):
        """exception name when every path of f ends in raise, else None"""
        if f in self.noreturn_cache:
            return self.noreturn_cache[f]
        self.noreturn_cache[f] = None
        if any("singledispatch" in d or "overload" in d or "abstract" in d for d in f.deco_names()):
            return None
        if f.cls is not None and any(f.name in c.methods for c in self.P.subclasses(f.cls) if c is not f.cls):
            return None
        res = self._noreturn_body(f, f.node.body) if not isinstance(f.node, ast.Lambda) and not f.is_gen else None
        self.noreturn_cache[f] = res
        return res

    def _noreturn_body(self, f, body):
        """syntactic: the block cannot complete normally nor return"""
        for x in body:
            for y in [x] + list(walk_no_defs(x)):
                if isinstance(y, ast.Return):
                    return None
        last = None
        for stmt in body:
            if isinstance(stmt, ast.Raise):
                if stmt.exc is None:
                    return "?"
                e = stmt.exc
                if isinstance(e, ast.Call):
                    r = self.P.resolve_expr(f.module, e.func)
                    if isinstance(r, Class):
                        return r.qual
                    if isinstance(r, str):
                        return r[9:] if r.startswith("builtins.") else r
                    if isinstance(r, Func):
                        rt = self.return_types(r)
                        return rt[0].qual if rt else "pyramid.httpexceptions.HTTPException"
                    if isinstance(e.func, ast.Name):
                        return "pyramid.httpexceptions.HTTPException"
                r = self.P.resolve_expr(f.module, e)
                if isinstance(r, Class):
                    return r.qual
                return "?"
            if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call):
                r = self.P.resolve_expr(f.module, stmt.value.func)
                if isinstance(r, Func):
                    nr = self.noreturn(r)
                    if nr:
                        return nr
                if r == "sys.exit":
                    return "SystemExit"
            if isinstance(stmt, ast.If) and stmt.orelse:
                a = self._noreturn_body(f, stmt.body)
                b = self._noreturn_body(f, stmt.orelse)
                if a and b:
                    return a
        return None


def s_env(st, env):
    s = st.copy()
    s.env = env
    return s


def walk_no_defs(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
