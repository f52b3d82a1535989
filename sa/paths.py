"""Event traces of all paths through a function.

``trace_paths(ctx, func, labels)`` gives, for every way out of the function
(return or raise), the sequence of labelled events on that path: calls that
completed ("x"), calls that raised ("x!"), attribute stores, branch outcomes.
A rule is then a predicate over these sequences.
"""
from .core import StdRule, TRIVIAL, Interp
from .project import Func, Class
from .terms import *  # noqa
from .terms import T

MAXLEN = 24
PRUNE = "-prune-"      # a branch or iteration the rule does not look at


class Path:
    __slots__ = ("kind", "trace", "st", "ret", "exc", "site")

    def __init__(self, kind, st):
        self.kind = kind
        self.trace = st.auto
        self.st = st
        self.ret = st.ret
        self.exc = st.exc
        self.site = st.site

    @property
    def where(self):
        return "%s:%d" % self.site if self.site else ""

    def idx(self, label):
        return self.trace.index(label) if label in self.trace else -1

    def last(self, label):
        return max((i for i, x in enumerate(self.trace) if x == label), default=-1)

    def has(self, *labels):
        return any(x in self.trace for x in labels)

    def describe(self):
        s = "path: %s -> %s" % (" ; ".join(self.trace) or "(no events)", self.kind)
        if self.kind == "raise" and self.exc is not None:
            s += " %s" % self.exc.a[0]
        if self.site:
            s += " at %s:%d" % self.site
        return s


class StoreEv:
    __slots__ = ("kind", "base", "name", "value", "node", "func", "targets", "args", "kwargs")


def chain_match(spec, chain):
    if chain == spec:
        return True
    return chain.endswith("." + spec)


class PathRule(StdRule):
    def __init__(self, P, labels, through=(), stores=(), dels=(), branch=None, quiet=(),
                 raises=None, stop=(), events=(), default_raises=("?",), yields=None,
                 yield_exc=("?B",), depth=6, with_label=None, follow=None, dedupe=True,
                 max_states=64, iters=None, sub_raise=None, with_raises=None, rounds=None, iter_raise=None, results=None):
        # results(ev, st): None or the (label, value) pairs a call splits the path into
        self.results = results
        if rounds is not None:
            self.loop_rounds = rounds
        self.labels = labels if isinstance(labels, list) else list(labels.items())
        self.through = set(through)
        self.stores = list(stores.items()) if isinstance(stores, dict) else list(stores)
        self.dels = list(dels.items()) if isinstance(dels, dict) else list(dels)
        self.branch = branch
        self.raises = raises or {}
        self.quiet = frozenset(quiet)
        self.raises_default = default_raises
        self.yields = yields
        self.yield_exc = yield_exc
        self.max_depth = depth
        self.follow = follow
        self.with_label = with_label
        self.dd = dedupe
        self.max_states = max_states
        self.iters = iters
        self.with_raises = with_raises
        self.iter_raise = iter_raise
        if sub_raise is not None:
            self.sub_raises = sub_raise
        ev = set(events)
        for lab, spec in self.labels:
            for s in (spec if isinstance(spec, (list, tuple)) else [spec]):
                if isinstance(s, str):
                    ev.add(s.rpartition(".")[2])
        for lab, spec in self.stores + self.dels:
            for s in (spec if isinstance(spec, (list, tuple)) else [spec]):
                if isinstance(s, str):
                    ev.add("=" + s.rpartition(".")[2])
        self.events = frozenset(ev)
        self.stop = frozenset(stop)
        StdRule.__init__(self, P)

    # matching
    def label_of(self, ev, st):
        for lab, spec in self.labels:
            for s in (spec if isinstance(spec, (list, tuple)) else [spec]):
                if isinstance(s, str):
                    if "." in s:
                        if any(n == s or n.endswith("." + s) for n in ev.target_names) or (
                                ev.fterm.k in ("attr", "ref") and chain_match(s, attr_chain(ev.fterm))):
                            return lab
                    elif ev.name == s:
                        return lab
                else:
                    r = s(ev, st)
                    if r:
                        return lab if r is True else r
        return None

    def push(self, st, lab):
        if lab is None:
            return st
        tr = st.auto
        if self.dd and tr and tr[-1] == lab:
            return st
        if len(tr) >= MAXLEN:
            return st
        return st.with_auto(tr + (lab,))

    def inline(self, f, ev, depth):
        if ev is not None and getattr(self, "_cur", None) is not None and self._cur[0] is ev.node:
            lab = self._cur[1]
            if lab is not None and lab not in self.through:
                return False
        if self.follow is not None:
            r = self.follow(f, ev, depth)
            if r is not None:
                return r
        return StdRule.inline(self, f, ev, depth)

    def on_call(self, ev, st):
        if self.results is not None:
            r = self.results(ev, st)
            if r is not None:
                self._cur = (ev.node, None)
                return [(self.push(st, lab), val) for lab, val in r]
        lab = self.label_of(ev, st)
        self._cur = (ev.node, lab)
        if lab is None or lab in self.through:
            if lab is not None:
                return self._through(ev, st, lab)
            return None
        # labelled, opaque
        it = ev.interp
        nr = [it.noreturn(t) for t in ev.targets if isinstance(t, Func)]
        dead = ev.targets and len(nr) == len(ev.targets) and all(nr)
        excs = self.raises.get(lab)
        if excs is None:
            excs = StdRule.may_raise(self, ev) or self.raises_default
        for e in (nr if dead else excs):
            ev.raise_(self.push(st, lab + "!"), e)
        if dead:
            return []
        return [(self.push(st, lab), ev.term)]

    def _through(self, ev, st, lab):
        # marks the start of a followed call
        st2 = self.push(st, lab)
        if st2 is st:
            return None
        it = ev.interp
        saved = self.labels
        self.labels = [(a, b) for a, b in saved if a != lab]
        try:
            self._cur = (ev.node, None)
            return it.do_call(ev.node, ev.fterm, ev.recv, ev.args, ev.kwargs, st2, ev.exits)
        finally:
            self.labels = saved

    def on_store(self, kind, base, name, value, st, node, func):
        if kind == "name":
            return st
        return self._store(self.stores, kind, base, name, value, st, node, func)

    def on_del(self, kind, base, name, st, node, func):
        return self._store(self.dels, kind, base, name, None, st, node, func)

    def _store(self, specs, kind, base, name, value, st, node, func):
        for lab, spec in specs:
            for s in (spec if isinstance(spec, (list, tuple)) else [spec]):
                if isinstance(s, str):
                    if kind == "attr" and (name == s or "." in s and chain_match(s, attr_chain(T("attr", base, name)))):
                        return self.push(st, lab)
                else:
                    e = StoreEv()
                    e.kind, e.base, e.name, e.value, e.node, e.func = kind, base, name, value, node, func
                    r = s(e, st)
                    if r:
                        return self.push(st, lab if r is True else r)
        return st

    def on_branch(self, term, value, st, node, func):
        if self.branch is not None:
            r = self.branch(term, value, st)
            if r == PRUNE:
                return None
            if r:
                return self.push(st, r)
        return st

    def on_yield(self, term, st, node, func):
        if self.yields is not None and len(self.interp.stack) == 1:
            r = self.yields if isinstance(self.yields, str) else self.yields(term, st)
            return self.push(st, r)
        return st

    def yield_raises(self, func, depth):
        return self.yield_exc

    def on_iter(self, what, it, st, node, func):
        if self.iters is not None:
            r = self.iters(what, it, st)
            if r == PRUNE:
                return None
            if r:
                return self.push(st, r)
        return st

    def on_iter_raise(self, it, st, node, func):
        """iterating over an unknown iterator may fail"""
        if self.iter_raise is not None:
            r = self.iter_raise(it, st)
            if r:
                return self.push(st, r)
        return None

    def exit_raises(self, cm, st, kind, node, func):
        if self.with_raises is not None and kind != "raise":
            r = self.with_raises(cm, st)
            if r:
                return self.push(st, r)
        return None

    def on_with(self, what, cm, st, node, func):
        if self.with_label is not None:
            r = self.with_label(what, cm, st)
            if r:
                return self.push(st, r)
        return st


def trace_paths(ctx, func, labels, self_cls=None, facts=None, args=None, hints=None, init=(), **kw):
    if isinstance(func, str):
        func = ctx.P.func(func)
    rule = PathRule(ctx.P, labels, **kw)
    ex = ctx.run(rule, func, self_cls=self_cls, auto=tuple(init), args=args, facts=facts, hints=hints)
    res = []
    for kind in ("return", "raise"):
        for st in ex.get(kind):
            res.append(Path(kind, st))
    return res


def check_paths(ctx, rule, func, paths, pred, msg, key="", kinds=("return", "raise")):
    """every path has to satisfy the predicate"""
    bad = [p for p in paths if p.kind in kinds and not pred(p)]
    if isinstance(func, str):
        func = ctx.P.func(func)
    p = bad[0] if bad else None
    ctx.ob(rule, func, not bad, msg, where=(p.where if p and p.site else ""), key=key,
           trace=[x.describe() for x in bad[:3]])
    return not bad


def precedes(a, b):
    """each b (attempted or done) has an earlier completed a"""
    a = (a,) if isinstance(a, str) else tuple(a)
    b = (b,) if isinstance(b, str) else tuple(b)
    bb = b + tuple(x + "!" for x in b)

    def pred(p):
        seen = False
        for x in p.trace:
            if x in a:
                seen = True
            elif x in bb and not seen:
                return False
        return True
    return pred


def follows(a, b):
    """after each a there is a later b (attempted or done)"""
    a = (a,) if isinstance(a, str) else tuple(a)
    b = (b,) if isinstance(b, str) else tuple(b)
    bb = b + tuple(x + "!" for x in b)

    def pred(p):
        need = False
        for x in p.trace:
            if x in a:
                need = True
            if x in bb:
                need = False
        return not need
    return pred


def fact(st, pred):
    """truth value of the first fact whose term satisfies pred, else None"""
    for t, v in st.facts.items():
        if pred(t):
            return v
    return None
