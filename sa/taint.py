"""An abstract interpreter over the syntax tree which follows where strings come
from: flow sensitive in local names, context sensitive over project functions,
field based for keys of dictionaries and attributes.

A value carries *must* flags (intersected where paths meet)

  html   may be placed in HTML text and quoted attributes
  url    is a web or relative address (no other scheme)
  xml    an escaping markup object (py.xml)
  own    a dictionary built by the analysed package: its keys are known

and *may* parts (united): list cells, functions, classes of instances, and
``markup``: text which contains tags.  Loops and calls are iterated from the
optimistic start to a fixpoint; sinks are judged in a last pass only.
"""
import ast
import re

from .project import Func, Class, src

ALL = frozenset(("html", "url", "xml", "own"))
NONE = frozenset()
TAG = re.compile(r"</?(html|head|title|body|h[1-6]|p|br|a|div|form|input|button|strong|code|span|dl|dt|dd|ul|ol|li|td|tr|th|table|script|img|em|b|i|pre|link|meta|iframe|style)\b[^<]*", re.I)
URLATTR = re.compile(r"\b(href|src|action|formaction|data)\s*=\s*[\"']?$", re.I)
SCHEME = re.compile(r"^\s*[a-z][a-z0-9+.-]*:", re.I)


class V:
    __slots__ = ("flags", "cells", "items", "fns", "insts", "markup", "const")

    def __init__(self, flags=NONE, cells=NONE, items=None, fns=NONE, insts=NONE, markup=False, const=None):
        self.flags = frozenset(flags)
        self.cells = cells
        self.items = items
        self.fns = fns
        self.insts = insts
        self.markup = markup
        self.const = const

    def key(self):
        return (self.flags, self.cells, tuple(i.key() for i in self.items) if self.items is not None else None,
                self.fns, frozenset(c.qual for c in self.insts), self.markup, self.const)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def plus(self, *flags):
        return V(self.flags | set(flags), self.cells, self.items, self.fns, self.insts, self.markup, self.const)

    def __repr__(self):
        return "V(%s%s%s%s)" % (",".join(sorted(self.flags)), " markup" if self.markup else "", " %r" % self.const if self.const else "", " list" if self.cells else "")


OPT = V(ALL)          # nothing known yet: the start of the fixpoint
UNKNOWN = V()
NUM = V(("html", "url"))
NIL = V(ALL)          # None and other values which are no text


def join(a, b):
    if a is OPT:
        return b
    if b is OPT or a is b:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y) for x, y in zip(a.items, b.items))
    return V(a.flags & b.flags, a.cells | b.cells, items, a.fns | b.fns, a.insts | b.insts,
             a.markup or b.markup, a.const if a.const == b.const else None)


def joinall(vs):
    r = OPT
    for v in vs:
        r = join(r, v)
    return r


def const_v(c):
    if isinstance(c, bytes):
        c = c.decode("latin-1")
    if isinstance(c, str):
        fl = {"html"}
        if not SCHEME.match(c) or c.lower().lstrip().startswith(("http:", "https:")):
            fl.add("url")
        return V(fl, markup=bool(TAG.search(c)), const=c)
    return NIL


class Taint:
    """spec: .call(interp, func, node, dotted, name, recv, args, kwargs) -> V or None,
    .guard(func, call) -> argument index whose address is checked, or None"""

    def __init__(self, P, spec, prefixes):
        self.P = P
        self.spec = spec
        self.prefixes = prefixes
        self.fields = {}
        self.cells = {}
        self.memo = {}
        self.seen = set()
        self.changed = False
        self.closed = False
        self.report = None
        self.stack = []
        self.nodes = 0
        self.calls = 0

    # -- heap ----------------------------------------------------------------
    def put(self, table, key, v):
        old = table.get(key, OPT)
        new = join(old, v)
        if key not in table or new != old:
            table[key] = new
            self.changed = True

    def field(self, key, pkg=None):
        v = self.fields.get((pkg, key))
        if v is None:
            return UNKNOWN if self.closed else OPT
        return v

    def elem(self, v):
        if v is OPT:
            return OPT
        vs = [self.cells.get(c, OPT) for c in v.cells]
        if v.items is not None:
            vs += list(v.items)
        if not vs:
            return UNKNOWN
        return joinall(vs)

    # -- functions -----------------------------------------------------------
    def run(self, roots):
        self.roots = list(roots)
        for closed in (False, True):
            self.closed = closed
            for _ in range(40):
                self.changed = False
                self.memo = {}
                for f in self.roots:
                    self.call(f, None, {})
                if not self.changed:
                    break
        for f in list(self.P.iter_funcs(*self.prefixes)):
            if f.qual not in self.seen and f.parent is None and self.spec.wanted(f):
                self.roots.append(f)
                for _ in range(20):
                    self.changed = False
                    self.memo = {}
                    for g in self.roots:
                        self.call(g, None, {})
                    if not self.changed:
                        break
        self.memo = {}
        self.report = []
        for f in self.roots:
            self.call(f, None, {})
        return self.report

    def call(self, f, selfv, args, closure=None, rest=UNKNOWN):
        """value of a call of f, arguments by parameter name"""
        key = (f.qual, selfv.key() if selfv is not None else None,
               tuple(sorted((k, v.key()) for k, v in args.items() if k is not None)))
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 12 or any(k == f.qual for k in self.stack[-12:]):
            return UNKNOWN
        self.memo[key] = OPT
        self.seen.add(f.qual)
        self.stack.append(f.qual)
        self.calls += 1
        env = dict(closure or {})
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p in params:
            env[p] = args.get(p, UNKNOWN)
        if a.vararg:
            env[a.vararg.arg] = UNKNOWN
        if a.kwarg:
            env[a.kwarg.arg] = UNKNOWN
        if f.cls is not None and params and "staticmethod" not in f.deco_names() and selfv is None and params[0] not in args:
            env[params[0]] = V(insts=frozenset((f.cls,)))
        elif selfv is not None and params:
            env[params[0]] = selfv
        defaults = list(zip([x.arg for x in a.posonlyargs + a.args][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        defaults += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        ex = Exec(self, f, env)
        for n, d in defaults:
            if n not in args and (args or closure is not None):
                env[n] = ex.ev(d, env)
        ex.block(f.node.body, env)
        r = joinall(ex.returns) if ex.returns else NIL
        if f.is_gen:
            self.put(self.cells, (f.qual, "yield"), joinall(ex.yields) if ex.yields else OPT)
            r = V(cells=frozenset(((f.qual, "yield"),)))
        self.stack.pop()
        self.memo[key] = r
        return r

    def bad(self, f, node, what, key):
        if self.report is not None:
            self.report.append((f, node, what, key, list(self.stack)))


class Exec:
    def __init__(self, T, f, env):
        self.T = T
        self.f = f
        self.returns = []
        self.yields = []
        self.breaks = []
        self.pkg = f.module.name.partition(".")[0]

    def field(self, key, b=None):
        """value under a constant key of the dictionary b built by the package:
        from the places which build it, else from everything stored under
        that key in the package"""
        if b is not None and b.cells:
            vs = []
            for c in b.cells:
                v = self.T.cells.get((c, "key", key))
                if v is None:
                    # stored under a computed key
                    w = self.T.cells.get((c, "dyn"))
                    v = w if w is not None and w is not OPT else None
                vs.append(v)
            if all(v is not None for v in vs):
                return joinall(vs)
        return self.T.field(key, self.pkg)

    def setfield(self, key, v, cells=()):
        self.T.put(self.T.fields, (self.pkg, key), v)
        for c in cells:
            self.T.put(self.T.cells, (c, "key", key), v)

    # -- statements ----------------------------------------------------------
    def block(self, body, env):
        for n in body:
            if env is None:
                return None
            env = self.stmt(n, env)
        return env

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                r[k] = join(a[k], b[k])
            elif isinstance(k, str):
                r[k] = a.get(k, b.get(k))
        return r

    def stmt(self, n, env):
        self.T.nodes += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return env

    def s_FunctionDef(self, n, env):
        g = self.f.nested.get(n.name)
        if g is not None:
            env[n.name] = V(fns=frozenset((Closure(g),)))
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, env):
        return env

    def s_Return(self, n, env):
        v = NIL if n.value is None else self.ev(n.value, env)
        self.returns.append(v)
        return None

    def s_Raise(self, n, env):
        if n.exc is not None:
            self.ev(n.exc, env)
        return None

    def s_Continue(self, n, env):
        return None

    def s_Break(self, n, env):
        self.breaks.append(env)
        return None

    def s_Expr(self, n, env):
        self.ev(n.value, env)
        return env

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)
        return env

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)
        return env

    def s_AugAssign(self, n, env):
        t = ast.parse(src(n.target), mode="eval").body
        ast.copy_location(t, n.target)
        old = self.ev(t, env)
        new = self.ev(n.value, env)
        if old.cells and not old.const:
            for c in old.cells:
                self.T.put(self.T.cells, c, self.T.elem(new))
            v = old
        elif isinstance(n.op, ast.Add):
            v = self.concat([old, new], n)
        elif isinstance(n.op, ast.Mod):
            v = self.percent(old, [new], n)
        else:
            v = UNKNOWN
        self.assign(n.target, v, env)
        return env

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.forget(t.id, env)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, UNKNOWN, env)
                elif v.items is not None and len(v.items) == len(t.elts):
                    self.assign(x, v.items[i], env)
                elif v is OPT:
                    self.assign(x, OPT, env)
                else:
                    self.assign(x, self.T.elem(v) if v.cells or v.items is not None else UNKNOWN, env)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            for c in base.cells:
                self.T.put(self.T.cells, c, v)
                if k.const is None:
                    self.T.put(self.T.cells, (c, "dyn"), v)
            if k.const is not None:
                self.setfield(k.const, v, base.cells)
                if isinstance(t.value, ast.Name) and t.value.id in env:
                    env[t.value.id] = base.plus("own")
            self.forget_expr(src(t), env)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env)
            self.setfield("." + t.attr, v)
            self.forget_expr(src(t), env)

    def forget(self, name, env):
        for k in [k for k in env if isinstance(k, tuple) and name in k[2]]:
            del env[k]

    def forget_expr(self, s, env):
        for k in [k for k in env if isinstance(k, tuple) and k[1] == s]:
            del env[k]

    def s_If(self, n, env):
        self.ev(n.test, env)
        a = self.block(n.body, self.assume(n.test, True, dict(env)))
        b = self.block(n.orelse, self.assume(n.test, False, dict(env)))
        return self.merge(a, b)

    def s_Assert(self, n, env):
        self.ev(n.test, env)
        return self.assume(n.test, True, env)

    def assume(self, e, val, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not val, env)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for x in e.values:
                    env = self.assume(x, val, env)
            return env
        if isinstance(e, ast.NamedExpr):
            return self.assume(e.target, val, env)
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if val and v is not None and isinstance(v.const, tuple) and v.const[0] == "guard":
                self.mark(v.const[1], v.const[2], env)
            elif not val and v is not None and not v.markup:
                # an empty value
                env[e.id] = v.plus("html", "url")
            return env
        if val:
            x = self.T.spec.guarded(self, e)
            if x is not None:
                self.mark(src(x), frozenset(y.id for y in ast.walk(x) if isinstance(y, ast.Name)), env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and isinstance(e.left, ast.Name):
            c = e.comparators[0].value
            if c is None or isinstance(c, bool):
                if isinstance(e.ops[0], ast.Is) == val:
                    env[e.left.id] = NIL
        return env

    def mark(self, s, names, env):
        if s.isidentifier():
            if s in env:
                env[s] = env[s].plus("url")
                return
        env[("url", s, names)] = NUM

    def loop(self, body, env, head):
        pre = env
        out = None
        saved, self.breaks = self.breaks, []
        for _ in range(4):
            e = dict(pre)
            head(e)
            e = self.block(body, e)
            new = self.merge(pre, e) if e is not None else pre
            if new == pre:
                break
            pre = new
        for b in self.breaks:
            out = self.merge(out, b)
        self.breaks = saved
        return pre, out

    def s_For(self, n, env):
        it = self.ev(n.iter, env)
        el = self.T.elem(it)

        def head(e):
            self.assign(n.target, el, e)
        pre, out = self.loop(n.body, env, head)
        end = self.block(n.orelse, dict(pre))
        return self.merge(end, out)

    s_AsyncFor = s_For

    def s_While(self, n, env):
        self.ev(n.test, env)
        pre, out = self.loop(n.body, env, lambda e: self.assume(n.test, True, e))
        if isinstance(n.test, ast.Constant) and n.test.value:
            return out
        end = self.block(n.orelse, self.assume(n.test, False, dict(pre)))
        return self.merge(end, out)

    def s_With(self, n, env):
        for i in n.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        return self.block(n.body, env)

    s_AsyncWith = s_With

    def s_Try(self, n, env):
        mid = dict(env)
        e = dict(env)
        for x in n.body:
            if e is None:
                break
            e = self.stmt(x, e)
            if e is not None:
                mid = self.merge(mid, dict(e))
        res = self.block(n.orelse, e) if e is not None else None
        for h in n.handlers:
            he = dict(mid)
            if h.name:
                he[h.name] = UNKNOWN
            res = self.merge(res, self.block(h.body, he))
        if n.finalbody:
            f = self.block(n.finalbody, dict(mid) if res is None else res)
            return f if res is not None else None
        return res

    def s_Match(self, n, env):
        self.ev(n.subject, env)
        res = dict(env)
        for c in n.cases:
            e = dict(env)
            for x in ast.walk(c.pattern):
                nm = getattr(x, "name", None)
                if nm:
                    e[nm] = UNKNOWN
            res = self.merge(res, self.block(c.body, e))
        return res

    # -- expressions ---------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return UNKNOWN
        v = m(e, env)
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            s = None
            for k in env:
                if isinstance(k, tuple):
                    if s is None:
                        s = src(e)
                    if k[1] == s:
                        return v.plus("url")
        return v

    def e_Constant(self, e, env):
        return const_v(e.value)

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        return self.glob(e)

    def glob(self, e):
        T = self.T
        r = T.P.resolve_expr(self.f.module, e)
        if isinstance(r, Func):
            return V(fns=frozenset((Closure(r),)))
        if isinstance(r, Class):
            return V(fns=frozenset((Closure(r),)))
        if isinstance(e, ast.Name) and e.id in self.f.module.globals:
            g = self.f.module.globals[e.id]
            g = g[-1] if isinstance(g, (list, tuple)) else g
            val = getattr(g, "value", g)
            if isinstance(val, ast.expr):
                return Exec(T, self.f, {}).ev(val, {})
        return UNKNOWN

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const_v(x.value))
            else:
                v = self.ev(x.value, env)
                if x.conversion in (114, 97):
                    v = UNKNOWN
                parts.append(V(v.flags | (NONE if "xml" not in v.flags else {"html"}), markup=v.markup, const=v.const))
        return self.concat(parts, e)

    def concat(self, parts, node):
        """a string made of parts"""
        if any(p is OPT for p in parts):
            return OPT
        flags = set(("html",))
        markup = any(p.markup for p in parts)
        text = ""
        bad = None
        for p in parts:
            if "html" not in p.flags:
                flags.discard("html")
                bad = bad or "text which is not escaped"
            elif URLATTR.search(text) and "url" not in p.flags and self.T.spec.checks_urls(self.f):
                bad = "an address whose scheme was not checked"
                flags.discard("html")
            text = text + p.const if isinstance(p.const, str) else text + "\0"
        for p in parts:
            if p.const == "":
                continue
            if "url" in p.flags:
                flags.add("url")
            break
        if markup and bad:
            if self.T.spec.sink(self.f, node):
                self.T.bad(self.f, node, "markup is built with " + bad, bad)
            flags.add("html")        # reported once, where it is put together
        const = None
        if all(isinstance(p.const, str) for p in parts):
            const = "".join(p.const for p in parts)
        return V(flags, markup=markup, const=const)

    def percent(self, fmt, args, node, kw=None):
        if fmt is OPT:
            return OPT
        if not isinstance(fmt.const, str):
            vals = list(args) + list((kw or {}).values())
            return self.concat([fmt] + [V(v.flags - {"url"}, markup=v.markup) for v in vals], node)
        parts = []
        i = 0
        for m in re.split(r"(%(?:\([^)]*\))?[-+ #0-9.*]*[a-zA-Z%])", fmt.const):
            if m.startswith("%") and len(m) > 1:
                if m == "%%":
                    parts.append(const_v("%"))
                    continue
                nm = re.match(r"%\(([^)]*)\)", m)
                if m[-1] in "dixeEfFgGu":
                    parts.append(NUM)
                    i += 1
                elif nm:
                    parts.append((kw or {}).get(nm.group(1), (kw or {}).get(None, UNKNOWN)))
                else:
                    v = args[i] if i < len(args) else (args[-1] if args and len(args) == 1 and False else UNKNOWN)
                    parts.append(UNKNOWN if m[-1] == "r" else v)
                    i += 1
            elif m:
                parts.append(const_v(m))
        return self.concat(parts, node)

    def brace(self, fmt, args, kw, node):
        if fmt is OPT:
            return OPT
        if not isinstance(fmt.const, str):
            vals = list(args) + list(kw.values())
            return self.concat([fmt] + [V(v.flags - {"url"}, markup=v.markup) for v in vals], node)
        parts = []
        i = 0
        for m in re.split(r"(\{\{|\}\}|\{[^{}]*\})", fmt.const):
            if m in ("{{", "}}"):
                parts.append(const_v(m[0]))
            elif m.startswith("{"):
                nm = re.split(r"[!:]", m[1:-1])[0]
                if nm == "" or nm.isdigit():
                    j = int(nm) if nm else i
                    i += 1
                    parts.append(args[j] if j < len(args) else UNKNOWN)
                else:
                    parts.append(kw.get(nm, kw.get(None, UNKNOWN)))
            elif m:
                parts.append(const_v(m))
        return self.concat(parts, node)

    def e_BinOp(self, e, env):
        l = self.ev(e.left, env)
        if isinstance(e.op, ast.Mod):
            if isinstance(e.right, ast.Tuple):
                return self.percent(l, [self.ev(x, env) for x in e.right.elts], e)
            if isinstance(e.right, ast.Dict):
                kw = {}
                for k, v in zip(e.right.keys, e.right.values):
                    kw[k.value if isinstance(k, ast.Constant) else None] = self.ev(v, env)
                return self.percent(l, [], e, kw)
            r = self.ev(e.right, env)
            if r.items is not None:
                return self.percent(l, list(r.items), e, {None: UNKNOWN})
            n = len(re.findall(r"%(?!%)", l.const)) if isinstance(l.const, str) else 1
            if "own" in r.flags and isinstance(l.const, str):
                return self.percent(l, [], e, {k: self.field(k, r) for k in re.findall(r"%\(([^)]*)\)", l.const)})
            if r is OPT:
                return OPT
            return self.percent(l, [r] * n if r.cells or n == 1 else [r], e)
        r = self.ev(e.right, env)
        if isinstance(e.op, ast.Add):
            if l.cells or r.cells or l.items is not None or r.items is not None:
                c = ("+", self.f.qual, e.lineno, e.col_offset)
                self.T.put(self.T.cells, c, join(self.T.elem(l), self.T.elem(r)))
                return V(cells=frozenset((c,)))
            return self.concat([l, r], e)
        if isinstance(e.op, ast.Mult):
            return V(l.flags & r.flags, l.cells, markup=l.markup)
        return NUM

    def e_BoolOp(self, e, env):
        vs = []
        en = dict(env)
        for i, x in enumerate(e.values):
            v = self.ev(x, en)
            if isinstance(e.op, ast.Or) or i == len(e.values) - 1:
                vs.append(v)
            else:
                vs.append(NUM)
            en = self.assume(x, isinstance(e.op, ast.And), en)
        return joinall(vs)

    def e_UnaryOp(self, e, env):
        self.ev(e.operand, env)
        return NUM

    def e_Compare(self, e, env):
        for x in [e.left] + e.comparators:
            self.ev(x, env)
        g = self.T.spec.guarded(self, e)
        if g is not None:
            return V(NUM.flags, const=("guard", src(g), frozenset(y.id for y in ast.walk(g) if isinstance(y, ast.Name))))
        return NUM

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        a = self.ev(e.body, self.assume(e.test, True, dict(env)))
        b = self.ev(e.orelse, self.assume(e.test, False, dict(env)))
        return join(a, b)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def newcell(self, e):
        return ("new", self.f.qual, e.lineno, e.col_offset)

    def e_List(self, e, env):
        c = self.newcell(e)
        vs = [self.T.elem(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env) for x in e.elts]
        self.T.put(self.T.cells, c, joinall(vs) if vs else OPT)
        return V(cells=frozenset((c,)))

    e_Set = e_List

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, env)
        return V(items=tuple(self.ev(x, env) for x in e.elts))

    def e_Dict(self, e, env):
        c = self.newcell(e)
        own = True
        self.T.put(self.T.cells, c, OPT)
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                own = own and "own" in x.flags
                continue
            kv = self.ev(k, env)
            vv = self.ev(v, env)
            if kv.const is not None:
                self.setfield(kv.const, vv, (c,))
            else:
                self.T.put(self.T.cells, c, vv)
        return V(("own",) if own else (), cells=frozenset((c,)))

    def comp(self, e, env):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, self.T.elem(self.ev(g.iter, env)), env)
            for i in g.ifs:
                self.ev(i, env)
                env = self.assume(i, True, env)
        return env

    def e_ListComp(self, e, env):
        env = self.comp(e, env)
        c = self.newcell(e)
        self.T.put(self.T.cells, c, self.ev(e.elt, env))
        return V(cells=frozenset((c,)))

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        env = self.comp(e, env)
        c = self.newcell(e)
        self.ev(e.key, env)
        self.T.put(self.T.cells, c, self.ev(e.value, env))
        return V(cells=frozenset((c,)))

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return V(fns=frozenset((Lambda(e, dict(env)),)))

    def e_Yield(self, e, env):
        self.yields.append(self.ev(e.value, env) if e.value is not None else NUM)
        return UNKNOWN

    def e_YieldFrom(self, e, env):
        self.yields.append(self.T.elem(self.ev(e.value, env)))
        return UNKNOWN

    def e_Slice(self, e, env):
        return NUM

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            # a part of escaped text may cut an entity, which is harmless
            return V(b.flags - {"url"}, b.cells, None if b.items is None else b.items, markup=b.markup)
        k = self.ev(e.slice, env)
        return self.sub(b, k, e)

    def sub(self, b, k, e=None):
        if b is OPT:
            return OPT
        kc = k.const
        if isinstance(e, ast.AST) and isinstance(e, ast.Subscript):
            try:
                kc = ast.literal_eval(e.slice)
            except (ValueError, TypeError, SyntaxError):
                kc = k.const
        if isinstance(kc, int) and b.items is not None and -len(b.items) <= kc < len(b.items):
            return b.items[kc]
        if isinstance(kc, str):
            if "own" in b.flags:
                return self.field(kc, b)
            return UNKNOWN
        if b.cells or b.items is not None:
            return self.T.elem(b)
        return UNKNOWN

    def e_Attribute(self, e, env):
        d = self.T.spec.attribute(self, e, env)
        if d is not None:
            return d
        b = self.ev(e.value, env)
        r = self.attr(b, e.attr)
        if r is not None:
            return r
        if not b.insts and not b.fns:
            g = self.glob(e)
            if g is not UNKNOWN:
                return g
        for f in b.fns:
            if isinstance(f, Closure) and isinstance(f.f, Class):
                x = f.f.find_attr(e.attr)
                if isinstance(x, ast.expr):
                    return self.ev(x, {})
        return UNKNOWN

    def attr(self, b, name):
        if b is OPT:
            return OPT
        if name in ("__name__", "__doc__", "__qualname__"):
            return V(("html",))
        res = None
        for c in b.insts:
            v = self.T.spec.inst_attr(self, c, name)
            if v is None:
                m = c.find(name)
                if isinstance(m, Func):
                    if any(re.search(r"property|reify", d) for d in m.deco_names()):
                        v = self.T.call(m, V(insts=frozenset((c,))), {})
                    else:
                        v = V(fns=frozenset((Closure(m, V(insts=frozenset((c,)))),)))
                else:
                    x = c.find_attr(name)
                    v = self.T.fields.get((self.pkg, "." + name))
                    if isinstance(x, ast.expr):
                        w = Exec(self.T, self.f, {}).ev(x, {})
                        v = w if v is None else join(v, w)
                    if v is None:
                        v = UNKNOWN if self.T.closed else OPT
            res = v if res is None else join(res, v)
        return res

    # -- calls ---------------------------------------------------------------
    def e_Call(self, e, env):
        T = self.T
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        args = []
        star = False
        for a in e.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star = True
                if v.items is not None:
                    args += list(v.items)
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if "own" in v.flags:
                    kw[None] = v
                else:
                    kw[None] = v
            else:
                kw[k.arg] = v
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, env)
        if fn.__class__ is ast.Name and fn.id in env:
            dotted = None
            target = env[fn.id]
        else:
            r = T.P.resolve_expr(self.f.module, fn) if not (isinstance(fn, ast.Attribute) and self.local_base(fn, env)) else None
            dotted = r if isinstance(r, str) else getattr(r, "qual", None)
            target = V(fns=frozenset((Closure(r),))) if isinstance(r, (Func, Class)) else None
            if target is None and isinstance(fn, ast.Attribute) and (recv.insts or recv.fns):
                target = self.attr(recv, fn.attr)
                if target is None:
                    target = self.ev(fn, env)
            elif target is None and not isinstance(fn, (ast.Attribute, ast.Name)):
                target = self.ev(fn, env)
        r = T.spec.call(self, e, dotted, name, recv, args, kw, env)
        if r is not None:
            return r
        r = self.builtin(e, dotted, name, recv, args, kw, env)
        if r is not None:
            return r
        if target is not None and target is not OPT and target.fns:
            out = OPT
            for f in target.fns:
                out = join(out, self.apply(f, args, kw, env, star, e))
            return out
        if target is OPT:
            return OPT
        return UNKNOWN

    def local_base(self, fn, env):
        while isinstance(fn, ast.Attribute):
            fn = fn.value
        return isinstance(fn, ast.Name) and fn.id in env or not isinstance(fn, ast.Name)

    def apply(self, f, args, kw, env, star, e):
        T = self.T
        if isinstance(f, Lambda):
            en = dict(f.env)
            ps = [x.arg for x in f.node.args.args]
            for i, p in enumerate(ps):
                en[p] = args[i] if i < len(args) else kw.get(p, UNKNOWN)
            return self.ev(f.node.body, en)
        if isinstance(f, Partial):
            return self.apply(f.fn, list(f.args) + args, dict(f.kw, **kw), env, star, e)
        if isinstance(f, Value):
            return f.v
        if isinstance(f.f, Class):
            c = f.f
            init = c.find("__init__")
            inst = V(insts=frozenset((c,)))
            if isinstance(init, Func) and T.follow(init):
                self.apply(Closure(init, inst), args, kw, env, star, e)
            return inst
        g = f.f
        if not T.follow(g):
            return UNKNOWN
        params = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        selfv = f.selfv
        bind = {}
        names = params
        if selfv is not None and "staticmethod" not in g.deco_names():
            names = params[1:]
        else:
            selfv = None
        for p, v in zip(names, args):
            bind[p] = v
        for k, v in kw.items():
            if k is not None:
                bind[k] = v
            elif "own" in v.flags:
                for p in names + [x.arg for x in g.node.args.kwonlyargs]:
                    bind.setdefault(p, self.field(p, v))
        if not star and None not in kw:
            # parameters left out take their defaults
            pass
        closure = dict(env) if g.parent is not None and g.parent is self.f else {}
        return T.call(g, selfv, bind, closure=closure)

    def builtin(self, e, dotted, name, recv, args, kw, env):
        T = self.T
        if isinstance(e.func, ast.Attribute) and recv is not None and not recv.insts:
            if recv is OPT and name not in ("append", "add", "insert", "extend", "update"):
                return OPT
            if name in ("strip", "lstrip", "rstrip", "encode", "decode", "expandtabs"):
                return V(recv.flags, markup=recv.markup, const=recv.const if name in ("encode", "decode") else None)
            if name == "format":
                k2 = dict(kw)
                if None in kw and "own" in kw[None].flags and isinstance(recv.const, str):
                    for nm in re.findall(r"\{([a-zA-Z_]\w*)", recv.const):
                        k2.setdefault(nm, self.field(nm, kw[None]))
                return self.brace(recv, args, k2, e)
            if name == "join" and len(args) == 1:
                el = T.elem(args[0]) if (args[0].cells or args[0].items is not None or args[0] is OPT) else UNKNOWN
                if el is OPT:
                    return OPT if args[0] is OPT or not T.closed else NUM
                return self.concat([el, recv, el], e)
            if name == "replace" and len(args) >= 2:
                a, b = args[0].const, args[1]
                if isinstance(a, str) and not re.search("[&;#]|amp|lt|gt|quot", a) and "html" in b.flags and not (isinstance(b.const, str) and re.search("[<>\"']", b.const) and not b.markup):
                    return V((recv.flags & {"html"}) | (recv.flags & {"url"} if a and not re.search("[:/]", a) else set()), markup=recv.markup or b.markup)
                return V(markup=recv.markup)
            if name in ("append", "add", "appendleft") and args:
                for c in recv.cells:
                    T.put(T.cells, c, args[0])
                return NUM
            if name == "insert" and len(args) > 1:
                for c in recv.cells:
                    T.put(T.cells, c, args[1])
                return NUM
            if name in ("extend", "update") and recv.cells:
                for k, v in kw.items():
                    if k is not None:
                        self.setfield(k, v, recv.cells)
                for c in recv.cells:
                    if args:
                        el = T.elem(args[0])
                        T.put(T.cells, c, el)
                return NUM
            if name in ("get", "pop", "setdefault") and args:
                d = args[1] if len(args) > 1 else NIL
                if name == "setdefault" and args[0].const is not None and len(args) > 1:
                    self.setfield(args[0].const, args[1], recv.cells)
                if args[0].const is not None:
                    if "own" in recv.flags:
                        return join(self.field(args[0].const, recv), d)
                    if recv.cells and not recv.flags:
                        return UNKNOWN
                    return None
                if recv.cells:
                    el = T.elem(recv)
                    if name == "setdefault" and len(args) > 1:
                        for c in recv.cells:
                            T.put(T.cells, c, args[1])
                    return join(el, d)
                return None
            if name == "items" and recv.cells:
                c = ("items", self.f.qual, e.lineno, e.col_offset)
                T.put(T.cells, c, V(items=(UNKNOWN, T.elem(recv))))
                return V(cells=frozenset((c,)))
            if name in ("values", "copy") and recv.cells:
                return recv
            if name in ("lower", "upper", "title", "casefold", "capitalize"):
                return V(recv.flags & {"html"} if name in ("lower", "casefold") else (), markup=recv.markup)
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                c = ("split", self.f.qual, e.lineno, e.col_offset)
                T.put(T.cells, c, V(recv.flags & {"html"}, markup=recv.markup))
                return V(cells=frozenset((c,)))
        if isinstance(e.func, ast.Name) and name not in env:
            if name in ("sorted", "list", "tuple", "reversed", "set", "frozenset", "iter") :
                if not args:
                    return self.e_List(ast.copy_location(ast.List(elts=[], ctx=ast.Load()), e), env)
                a = args[0]
                if a is OPT:
                    return OPT
                c = ("copy", self.f.qual, e.lineno, e.col_offset)
                T.put(T.cells, c, T.elem(a))
                return V(a.flags & {"own"}, cells=frozenset((c,)), items=None)
            if name == "dict":
                c = self.newcell(e)
                T.put(T.cells, c, OPT)
                own = True
                for a in args:
                    own = own and ("own" in a.flags or a is OPT)
                    if a.cells:
                        T.put(T.cells, c, T.elem(a))
                for k, v in kw.items():
                    if k is None:
                        own = own and "own" in v.flags
                    else:
                        self.setfield(k, v, (c,))
                return V(("own",) if own else (), cells=frozenset((c,)))
            if name in ("len", "int", "float", "bool", "isinstance", "hasattr", "id", "hash", "sum", "range", "abs", "round"):
                if name == "range":
                    c = self.newcell(e)
                    T.put(T.cells, c, NUM)
                    return V(cells=frozenset((c,)))
                return NUM
            if name in ("str", "min", "max", "next"):
                if not args:
                    return const_v("")
                a = args[0]
                if name != "str":
                    return T.elem(a)
                return V(a.flags | ({"html"} if "xml" in a.flags else set()), markup=a.markup, const=a.const) if a is not OPT else OPT
            if name in ("enumerate", "zip"):
                c = ("zip", self.f.qual, e.lineno, e.col_offset)
                it = [T.elem(a) for a in args]
                if name == "enumerate":
                    it = [NUM] + it[:1]
                T.put(T.cells, c, V(items=tuple(it)))
                return V(cells=frozenset((c,)))
            if name in ("map", "filter") and len(args) == 2:
                c = ("map", self.f.qual, e.lineno, e.col_offset)
                el = T.elem(args[1])
                if name == "map":
                    fns = args[0].fns
                    r = OPT if fns else T.spec.call(self, ast.copy_location(ast.Call(func=e.args[0], args=[e.args[1]], keywords=[]), e), self.dotted_of(e.args[0]), None, None, [el], {}, env) or UNKNOWN
                    for f in fns:
                        r = join(r, self.apply(f, [el], {}, env, False, e))
                    el = r
                T.put(T.cells, c, el)
                return V(cells=frozenset((c,)))
            if name == "getattr" and len(args) >= 2 and isinstance(args[1].const, str):
                v = self.attr(args[0], args[1].const)
                if v is not None and len(args) > 2:
                    v = join(v, args[2])
                return v if v is not None else UNKNOWN
        if dotted in ("functools.partial", "partial") and e.args:
            f = self.ev(e.args[0], env)
            sp = T.spec.callable_value(self, e.args[0], env)
            if sp is not None:
                return V(fns=frozenset((Value(sp),)))
            return V(fns=frozenset(Partial(x, tuple(args[1:]), kw) for x in f.fns))
        return None

    def dotted_of(self, e):
        r = self.T.P.resolve_expr(self.f.module, e)
        return r if isinstance(r, str) else getattr(r, "qual", None)


class Closure:
    def __init__(self, f, selfv=None):
        self.f = f
        self.selfv = selfv

    def __eq__(self, o):
        return isinstance(o, Closure) and o.f is self.f

    def __hash__(self):
        return hash(id(self.f))


class Lambda:
    def __init__(self, node, env):
        self.node = node
        self.env = env

    def __eq__(self, o):
        return isinstance(o, Lambda) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def __eq__(self, o):
        return isinstance(o, Partial) and o.fn == self.fn and o.args == self.args

    def __hash__(self):
        return hash(self.fn)


class Value:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Value) and o.v == self.v

    def __hash__(self):
        return hash(self.v)
