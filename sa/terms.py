"""Interned value-provenance terms: what an expression was computed from."""


class T:
    __slots__ = ("k", "a", "_h")
    _tab = {}

    def __new__(cls, k, *a):
        key = (k, a)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.k = k
            r.a = a
            r._h = hash(key)
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


class CV:
    """constant value with type-aware identity (True != 1)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __eq__(self, o):
        return isinstance(o, CV) and type(o.v) is type(self.v) and o.v == self.v


def const(v):
    return T("c", CV(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.k == "c"


def cval(t):
    return t.a[0].v


def refname(t):
    """dotted name for references to functions, classes, modules, externals"""
    if t.k == "ref":
        o = t.a[0]
        if isinstance(o, str):
            return o
        return getattr(o, "qual", None) or o.name
    if t.k == "func":
        return t.a[0].qual
    return None


def show(t, depth=0):
    if depth > 6:
        return "…"
    k, a = t.k, t.a
    d = depth + 1
    if k == "c":
        return repr(a[0].v)
    if k in ("p", "free"):
        return a[0]
    if k == "inst":
        return "self"
    if k == "ref":
        return (refname(t) or "?").rpartition(".")[2]
    if k == "func":
        return a[0].name
    if k == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if k == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join(
            [show(x, d) for x in a[1]] + ["%s=%s" % (n, show(v, d)) for n, v in a[2]]))
    if k == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if k in ("tup", "list", "set"):
        return "(%s)" % ", ".join(show(x, d) for x in a[0])
    if k == "cmp":
        return "%s %s %s" % (show(a[1], d), a[0], show(a[2], d))
    if k == "bin":
        return "%s %s %s" % (show(a[1], d), a[0], show(a[2], d))
    if k == "un":
        return "%s %s" % (a[0], show(a[1], d))
    if k == "elem":
        return "each of %s" % show(a[0], d)
    if k == "exc":
        return "exc:%s" % a[0]
    if k == "phi":
        return "%s~" % a[0]
    if k == "fstr":
        return "f'" + "".join(show(x, d) for x in a[0]) + "'"
    return "<%s>" % k


def subterms(t, seen=None):
    """all terms a term was built from (itself included)"""
    if seen is None:
        seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        stack = list(x.a)
        while stack:
            y = stack.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                stack.extend(y)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def attr_chain(t):
    """'a.b.c' of attribute chains, with the root's name."""
    parts = []
    while t.k == "attr":
        parts.append(t.a[1])
        t = t.a[0]
    if t.k == "inst":
        parts.append("self")
    elif t.k in ("p", "free"):
        parts.append(t.a[0])
    elif t.k == "call":
        parts.append(call_name(t) + "()")
    elif t.k == "ref":
        parts.append(refname(t) or "?")
    else:
        parts.append("?")
    return ".".join(reversed(parts))


def call_name(t):
    """last component of the called name of a call term"""
    f = t.a[0]
    if f.k == "attr":
        return f.a[1]
    n = refname(f)
    if n:
        return n.rpartition(".")[2]
    if f.k in ("p", "free"):
        return f.a[0]
    return "?"


def is_call_to(t, *names):
    """call term whose callee's last name or dotted name is one of names"""
    if t.k != "call":
        return False
    if call_name(t) in names:
        return True
    n = refname(t.a[0])
    return n in names


def call_args(t):
    return t.a[1]


def call_kwargs(t):
    return dict(t.a[2])


def call_recv(t):
    f = t.a[0]
    return f.a[0] if f.k == "attr" else None
