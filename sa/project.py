"""Load the repository's source into a resolved program model.

Everything is derived from the syntax trees of /repo's current working tree:
modules, import tables, classes with their method resolution order, functions
(nested ones too) and module level bindings.  Nothing is imported or run.
"""
import ast
import os
import re

ROOTS = (
    ("common/devpi_common", "devpi_common"),
    ("server/devpi_server", "devpi_server"),
    ("web/devpi_web", "devpi_web"),
    ("postgresql/devpi_postgresql", "devpi_postgresql"),
    ("client/devpi", "devpi"),
    ("debugging/devpi_debugging", "devpi_debugging"),
)


class AnchorError(Exception):
    """A construct a rule is attached to is not in the tree any more.

    The check can then not say anything: this ends in an error exit, never in
    a silent pass."""


class Func:
    __slots__ = (
        "module", "node", "name", "qual", "cls", "parent", "nested",
        "is_cm", "is_property", "is_static", "is_classmethod", "is_gen",
        "_names", "lambda_body")

    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module = module
        self.node = node
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual
        self.cls = cls
        self.parent = parent
        self.nested = {}
        decos = [deco_name(d) for d in getattr(node, "decorator_list", ())]
        self.is_cm = any(d in ("contextmanager", "asynccontextmanager") for d in decos)
        self.is_property = any(
            d in ("property", "cached_property", "lazy", "reify", "lazydecorator")
            or d.endswith("cached_property") for d in decos)
        self.is_static = "staticmethod" in decos
        self.is_classmethod = "classmethod" in decos
        self.is_gen = any(
            isinstance(x, (ast.Yield, ast.YieldFrom))
            for x in walk_own(node))
        self._names = None

    @property
    def path(self):
        return self.module.path

    @property
    def lineno(self):
        return self.node.lineno

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        res = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            res.append(a.vararg.arg)
        res.extend(x.arg for x in a.kwonlyargs)
        if a.kwarg:
            res.append(a.kwarg.arg)
        return res

    def deco_calls(self):
        return [d for d in getattr(self.node, "decorator_list", ()) if isinstance(d, ast.Call)]

    def deco_names(self):
        return [deco_name(d) for d in getattr(self.node, "decorator_list", ())]

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, module, node, qual, parent=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.attrs = {}       # class level simple assignments name -> expr
        self.inner = {}
        self.parent = parent
        self.bases = []       # resolved Class objects or dotted strings
        self._mro = None

    @property
    def path(self):
        return self.module.path

    def mro(self):
        if self._mro is None:
            self._mro = [self]          # guards against cycles
            seqs = [b.mro() if isinstance(b, Class) else [] for b in self.bases]
            res = [self]
            seqs = [list(s) for s in seqs] + [[b for b in self.bases if isinstance(b, Class)]]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in o[1:] for o in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x is not cand] for s in seqs]
            self._mro = res
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def find_after(self, cls, name):
        mro = self.mro()
        i = mro.index(cls) + 1 if cls in mro else 1
        for c in mro[i:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def ext_bases(self):
        res = []
        for c in self.mro():
            res.extend(b for b in c.bases if isinstance(b, str))
        return res

    def method(self, name):
        m = self.find(name)
        if m is None:
            raise AnchorError("method %s.%s not found" % (self.qual, name))
        return m

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, text, is_pkg):
        self.name = name
        self.path = path
        self.text = text
        self.is_pkg = is_pkg
        self.tree = ast.parse(text, path)
        self.imports = {}      # local name -> dotted
        self.funcs = {}
        self.classes = {}
        self.globals = {}      # name -> expr


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ""


def walk_own(node):
    """walk a function body without descending into nested defs/lambdas/classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def dotted(expr):
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, repo="/repo", overlay=None):
        self.repo = repo
        self.modules = {}
        self.funcs = {}        # qual -> Func
        self.classes = {}      # qual -> Class
        self.by_method = {}    # method name -> [Func]
        self.class_by_name = {}
        self.templates = {}
        overlay = overlay or {}
        for rel, pkg in ROOTS:
            top = os.path.join(repo, rel)
            if not os.path.isdir(top):
                raise AnchorError("package directory %s is missing" % rel)
            for dirpath, dirnames, filenames in os.walk(top):
                dirnames[:] = sorted(
                    d for d in dirnames
                    if d not in ("__pycache__", "vendor", "static", "node_modules"))
                for fn in sorted(filenames):
                    full = os.path.join(dirpath, fn)
                    relp = os.path.relpath(full, repo)
                    if fn.endswith(".pt"):
                        with open(full, encoding="utf-8") as f:
                            self.templates[relp] = overlay.get(relp) or f.read()
                        continue
                    if not fn.endswith(".py"):
                        continue
                    sub = os.path.relpath(full, top)[:-3].split(os.sep)
                    is_pkg = sub[-1] == "__init__"
                    if is_pkg:
                        sub = sub[:-1]
                    name = ".".join([pkg] + sub)
                    text = overlay.get(relp)
                    if text is None:
                        with open(full, encoding="utf-8") as f:
                            text = f.read()
                    self.modules[name] = Module(name, relp, text, is_pkg)
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if isinstance(r, Class):
                    c.bases.append(r)
                else:
                    c.bases.append(r if isinstance(r, str) else (dotted(b) or "?"))
        for c in self.classes.values():
            self.class_by_name.setdefault(c.name, []).append(c)
            for name, f in c.methods.items():
                self.by_method.setdefault(name, []).append(f)

    # -- building -----------------------------------------------------------
    def _collect(self, m):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, a.name)
                    else:
                        top = a.name.split(".")[0]
                        m.imports.setdefault(top, top)
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = ".".join(parts + ([node.module] if node.module else []))
                for a in node.names:
                    m.imports.setdefault(a.asname or a.name, base + "." + a.name)
        self._collect_body(m, m.tree.body, m.name, None, None)

    def _collect_body(self, m, body, prefix, cls, parent):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, node, prefix, cls, parent)
            elif isinstance(node, ast.ClassDef):
                c = Class(m, node, prefix + "." + node.name, cls)
                self.classes[c.qual] = c
                if cls is None and parent is None:
                    m.classes[node.name] = c
                elif cls is not None:
                    cls.inner[node.name] = c
                self._collect_body(m, node.body, c.qual, c, None)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        if cls is not None:
                            cls.attrs[t.id] = node.value
                        elif parent is None:
                            m.globals[t.id] = node.value
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                if node.value is not None:
                    if cls is not None:
                        cls.attrs[node.target.id] = node.value
                    elif parent is None:
                        m.globals[node.target.id] = node.value
            elif isinstance(node, (ast.If, ast.Try, ast.With)):
                for attr in ("body", "orelse", "finalbody"):
                    self._collect_body(m, getattr(node, attr, []), prefix, cls, parent)
                for h in getattr(node, "handlers", []):
                    self._collect_body(m, h.body, prefix, cls, parent)

    def _add_func(self, m, node, prefix, cls, parent):
        q = prefix + "." + node.name
        f = Func(m, node, q, cls, parent)
        if q in self.funcs and any("overload" in d for d in self.funcs[q].deco_names()):
            old = self.funcs.pop(q)
            i = 2
            while "%s#%d" % (q, i) in self.funcs:
                i += 1
            old.qual = "%s#%d" % (q, i)
            self.funcs[old.qual] = old
        if q in self.funcs:
            # redefinitions (property setters, singledispatch, conditional
            # definitions): keep the first under the plain name
            i = 2
            while "%s#%d" % (q, i) in self.funcs:
                i += 1
            f.qual = q = "%s#%d" % (q, i)
            self.funcs[q] = f
        else:
            self.funcs[q] = f
            if cls is not None:
                cls.methods[node.name] = f
            elif parent is None:
                m.funcs[node.name] = f
        if parent is not None:
            parent.nested[node.name] = f
        for sub in walk_own(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, sub, q, None, f)
            elif isinstance(sub, ast.ClassDef):
                c = Class(m, sub, q + "." + sub.name, None)
                self.classes[c.qual] = c
                self._collect_body(m, sub.body, c.qual, c, None)
        return f

    # -- lookup -------------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorError("module %s not found" % name)
        return m

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            # inherited method of a known class
            head, _, tail = qual.rpartition(".")
            c = self.classes.get(head)
            if c is not None:
                f = c.find(tail)
            if f is None:
                r = self.lookup_dotted(qual)
                if isinstance(r, Func):
                    f = r
        if f is None:
            raise AnchorError("function %s not found" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            r = self.lookup_dotted(qual)
            if isinstance(r, Class):
                return r
            raise AnchorError("class %s not found" % qual)
        return c

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in c.mro()]

    def lookup_dotted(self, name, depth=0):
        """resolve an absolute dotted name to Func/Class/Module or, when it is
        not part of the repository, the dotted string."""
        if depth > 8:
            return name
        if name in self.funcs:
            return self.funcs[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.modules:
            return self.modules[name]
        head, _, tail = name.rpartition(".")
        if not head:
            return name
        base = self.lookup_dotted(head, depth + 1)
        if isinstance(base, Module):
            if tail in base.imports:
                return self.lookup_dotted(base.imports[tail], depth + 1)
            if tail in base.globals:
                r = self.resolve_expr(base, base.globals[tail])
                if isinstance(r, (Func, Class)):
                    return r
            return name
        if isinstance(base, Class):
            m = base.find(tail)
            if m is not None:
                return m
            for c in base.mro():
                if tail in c.inner:
                    return c.inner[tail]
            return name
        if isinstance(base, str) and base != head:
            return base + "." + tail
        return name

    def resolve_name(self, module, name):
        """module level meaning of a bare name."""
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            return self.lookup_dotted(module.imports[name])
        if name in module.globals:
            return module.name + "." + name
        return "builtins." + name

    def resolve_expr(self, module, expr):
        if isinstance(expr, ast.Name):
            return self.resolve_name(module, expr.id)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(module, expr.value)
            if isinstance(base, Module):
                return self.lookup_dotted(base.name + "." + expr.attr)
            if isinstance(base, Class):
                return self.lookup_dotted(base.qual + "." + expr.attr)
            if isinstance(base, str):
                return self.lookup_dotted(base + "." + expr.attr)
        return None

    def iter_funcs(self, *prefixes):
        for q, f in sorted(self.funcs.items()):
            if not prefixes or any(f.module.name == p or f.module.name.startswith(p + ".") for p in prefixes):
                yield f


def src(node):
    try:
        return ast.unparse(node)
    except Exception:
        return "<%s>" % type(node).__name__


def enclosing_map(module):
    """node -> innermost Func-like def node for every node of the module."""
    res = {}

    def rec(node, cur):
        for ch in ast.iter_child_nodes(node):
            res[ch] = cur
            rec(ch, ch if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else cur)
    rec(module.tree, None)
    return res


_ws = re.compile(r"\s+")
