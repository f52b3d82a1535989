"""M07: index and user configuration changes are validated as a whole."""
from rules.lib import *  # noqa

MD = "devpi_server.model"
NORM = "get_indexconfig_from_kwargs"


def returns(paths):
    return live_paths(paths)


def remove_value(t):
    return contains(t, lambda x: x.k == "ref" and refname(x).endswith("RemoveValue"))


def is_remove_test(t):
    return t.k == "cmp" and t.a[0] in ("is", "==") and remove_value(t)


def wants(t, key):
    """a constant equal to key occurs in the term"""
    return contains(t, lambda x: x.k == "c" and cval(x) == key)


def modify(ctx):
    R = ctx.rule("M07.modify", "a change of an index configuration is stored only after all of it was accepted, keeps the type and the options not mentioned")
    P = ctx.P
    f = P.func(MD + ".BaseStage._modify")

    def stored(t):
        """the configuration which is stored for the index"""
        return t is not None and wants(t, "indexes")

    def lab(ev, st):
        if ev.name == NORM:
            return "norm"
        if ev.name == "validate_config":
            return "valid"
        if ev.recv is not None and stored(ev.recv):
            if ev.name == "setdefault" and not contains(ev.recv, lambda x: x.k == "call" and call_name(x) == "setdefault"):
                return "own"
            if ev.name in ("update", "setdefault"):
                return "apply"
            if ev.name in ("pop", "popitem", "clear"):
                return "drop" if ev.name == "pop" else "clear"
        if ev.name == "update" and ev.recv is not None and has_call(ev.recv, NORM) and not has_attr(ev.recv, "key"):
            return "extend"

    def store(e, st):
        if e.kind == "sub" and stored(e.base):
            if contains(e.name, lambda x: x.k in ("p", "attr") and x.a[-1] == "index"):
                # the whole configuration of the index is put in place
                return "own" if has_call(e.value, "get", "setdefault", "copy", "dict") or contains(e.value, lambda x: x.k == "sub" and wants(x, "indexes")) else "replace"
            return "apply"

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "type":
            return "typed" if v else "untyped"
        if t.k == "cmp" and t.a[0] == "==" and wants(t, "type") and has_attr(t, "ixconfig"):
            return "same" if v else "differs"
        if has_call(t, NORM) and not is_remove_test(t) and t.k in ("sub", "call", "elem"):
            return "unknown" if v else "known"
        if wants(t, "_keep_unknown"):
            return "keep" if v else "nokeep"
    paths = trace_paths(ctx, f, {"x": lab}, stores={"s": store}, self_cls=f.cls, default_raises=(), branch=br, dedupe=False, rounds=1,
                        events=(NORM, "validate_config", "setdefault", "update", "pop", "popitem", "clear"), follow=lambda g, ev, d: False if g.name in (NORM, "validate_config", "sro") else ev is not None and g.cls is f.cls,
                        with_label=lambda w, cm, st: {"enter": "open", "exit": "saved"}.get(w) if has_call(cm, "update") and has_attr(cm, "key") else None)
    live = returns(paths)
    ctx.ob(R, f, bool(live), "nothing is stored", key="paths")
    for p in live:
        ctx.ob(R, f, p.has("untyped", "same"), "the type of an index can be changed", path=p, key="type")
        ctx.ob(R, f, -1 < p.idx("norm") < p.idx("open"), "the configuration is changed before the values are checked", path=p, key="norm")
        ctx.ob(R, f, not p.has("unknown") or p.has("keep"), "unknown options are stored", path=p, key="unknown")
        ctx.ob(R, f, p.has("known", "unknown"), "unknown options are not looked at", path=p, key="unknown-test")
        ctx.ob(R, f, p.has("apply") and p.has("saved"), "the change is not stored", path=p, key="apply")
        ctx.ob(R, f, p.last("valid") > max(p.last("apply"), p.last("drop")), "the configuration is stored without the check of its type", path=p, key="valid")
        ctx.ob(R, f, p.last("valid") < p.last("saved"), "the configuration is stored before the check of its type", path=p, key="valid-order")
        ctx.ob(R, f, not p.has("replace", "clear"), "options which are not part of a change are lost", path=p, key="partial")
    # the type which is stored is the one the index has
    g = P.func(MD + ".BaseStage." + NORM)
    return g


ENSURE = ("ensure_boolean", "ensure_list", "ensure_acl_list")


def normalize(ctx):
    R = ctx.rule("M07.normalize", "each value of a configuration change is stored in its normalised form; defaults of a type cannot be removed; plugin defaults do not replace what is set")
    P = ctx.P
    f = P.func(MD + ".BaseStage." + NORM)
    seen = []

    def known(key):
        return contains(key, lambda x: x.k == "elem" and has_call(x, "get_possible_indexconfig_keys"))

    def plugin(key):
        return contains(key, lambda x: x.k == "elem" and has_call(x, "devpiserver_indexconfig_defaults"))

    def note(st, key, value, node, what):
        fs = dict(st.facts)
        seen.append((what, key, value, node, fs))

    def lab(ev, st):
        if ev.recv is not None and ev.recv.k in ("dict", "call", "p") and ev.name in ("setdefault", "__setitem__") and len(ev.args) == 2:
            note(st, ev.args[0], ev.args[1], ev.node, ev.name)

    def store(e, st):
        if e.kind == "sub":
            note(st, e.name, e.value, e.node, "store")
    trace_paths(ctx, f, {"x": lab}, stores={"s": store}, self_cls=f.cls, default_raises=(), events=("setdefault", "normalize_indexconfig_value", "get_possible_indexconfig_keys", "get_default_config_items", "pop"), rounds=1, max_states=400,
                follow=lambda g, ev, d: ev is not None and g.cls is f.cls and g.name not in ("normalize_indexconfig_value", "get_possible_indexconfig_keys", "get_default_config_items") )
    n = 0
    for what, key, value, node, fs in seen:
        w = where(f, node)
        if known(key):
            n += 1
            ok = has_call(value, "normalize_indexconfig_value")
            if ok:
                ok = value.k == "call" and any(k.k == "cmp" and k.a[0] == "is" and v is False and contains(k, lambda x: x == value) and contains(k, lambda x: x is NONE or x == NONE) for k, v in fs.items())
                ctx.ob(R, f, ok, "a value no rule of the type accepted is stored", w, key="refused")
                own = call_recv(value)
                a = call_args(value)
                ctx.ob(R, f, len(a) == 2 and contains(a[0], lambda x: x == key), "the value is normalised for another option", w, key="key")
                cust_key = has_attr(key, "customizer")
                ctx.ob(R, f, own is not None and has_attr(own, "customizer") == cust_key, "the value is normalised by the wrong rules", w, key="rules")
            else:
                ok = remove_value(value) or any(is_remove_test(k) and v is True for k, v in fs.items())
                ctx.ob(R, f, ok, "a value is stored as it was received", w, key="raw")
        elif plugin(key):
            n += 1
            types = [(k, v) for k, v in fs.items() if k.k == "call" and call_name(k) == "isinstance" and has_call(k, "devpiserver_indexconfig_defaults")]
            typed = [k for k, v in types if v is True]
            if typed:
                b = contains(typed[0], lambda x: x.k == "ref" and refname(x).rpartition(".")[2] == "bool")
                acl = contains(typed[0], lambda x: x.k == "ref" and refname(x).endswith("ACLList"))
                want = "ensure_boolean" if b else "ensure_acl_list" if acl else "ensure_list"
                ctx.ob(R, f, has_call(value, want), "the option of a plugin is stored without %s" % want, w, key="plugin-" + want)
            given = any(k.k == "cmp" and k.a[0] == "in" and k.a[1] == key and v is True and (has_param(k.a[2], "kwargs")) for k, v in fs.items())
            absent = any(k.k == "cmp" and k.a[0] == "in" and k.a[1] == key and v is False and has_attr(k.a[2], "ixconfig") for k, v in fs.items())
            keeps = contains(value, lambda x: x.k == "sub" and has_attr(x.a[0], "ixconfig") and x.a[1] == key or x.k == "call" and call_name(x) == "get" and call_recv(x) is not None and call_recv(x).k == "attr" and call_recv(x).a[1] == "ixconfig")
            ctx.ob(R, f, given or absent or keeps, "the default of a plugin replaces the value an index has when the option is not part of the change", w, key="plugin-partial")
        elif cstr(key) == "type":
            n += 1
            ctx.ob(R, f, has_attr(value, "ixconfig") and wants(value, "type"), "the type of an index changes", w, key="type")
        elif cstr(key) is None and contains(key, lambda x: x.k == "elem"):
            # the rest: only removals
            ok = any(is_remove_test(k) and v is True for k, v in fs.items())
            if has_param(key, "kwargs"):
                n += 1
                ctx.ob(R, f, ok, "an option no rule knows is stored", w, key="rest")
    ctx.count(R, n, 4, "values stored for a configuration")
    # the removal of defaults is refused
    for who in ("self", "customizer"):
        def own(t):
            return has_call(t, "get_default_config_items") and has_attr(t, "customizer") == (who == "customizer")

        def br(t, v, st):
            if is_remove_test(t) and contains(t, lambda x: x.k == "elem" and own(x)):
                return "removed" if v else "kept"
        paths = trace_paths(ctx, f, {"x": lambda ev, st: None}, self_cls=f.cls, default_raises=(), branch=br, dedupe=False, rounds=1, max_states=400,
                            events=("get_default_config_items", "get_possible_indexconfig_keys"), follow=lambda g, ev, d: ev is not None and g.cls is f.cls and g.name not in ("normalize_indexconfig_value", "get_possible_indexconfig_keys", "get_default_config_items"),
                            iters=lambda w, it, st: ("default" if w == "next" else None) if own(it) else (None if w == "end" else PRUNE))
        live = returns(paths)
        ctx.ob(R, f, some(paths, "removed"), "the defaults of the %s can be removed" % ("type" if who == "self" else "customizer"), key="default-" + who)
        for p in live:
            ctx.ob(R, f, not p.has("removed"), "a default can be removed", path=p, key="default-removed-" + who)


def types(ctx):
    R = ctx.rule("M07.options", "each kind of index has a rule for each option it offers, which gives values of the type of the option")
    P = ctx.P
    n = 0
    base = P.classes[MD + ".BaseStage"]
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if base not in c.mro() or "normalize_indexconfig_value" not in c.methods:
            continue
        norm = c.methods["normalize_indexconfig_value"]
        possible = c.method("get_possible_indexconfig_keys")
        defaults = c.method("get_default_config_items")
        keys, typ = set(), {}
        for x in ast.walk(possible.node):
            if isinstance(x, ast.Return):
                keys |= {y.value for y in ast.walk(x) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
        uses_default = any(calls_in(possible.node, "get_default_config_items"))
        for x in ast.walk(defaults.node):
            if isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant):
                k, v = x.elts[0].value, x.elts[1]
                typ[k] = "bool" if isinstance(v, ast.Constant) and isinstance(v.value, bool) else "list" if isinstance(v, (ast.List, ast.Tuple)) else "str"
                if uses_default:
                    keys.add(k)
        if not keys:
            ctx.ob(R, possible, True, key="dynamic")
            continue
        pk = norm.params()[1]
        for k in sorted(keys):
            n += 1
            paths = trace_paths(ctx, norm, {"x": lambda ev, st: None}, self_cls=c, default_raises=(), args={pk: const(k)}, events=("ensure_boolean", "ensure_list", "ensure_acl_list", "normalize_bases"), follow=lambda g, ev, d: False)
            live = returns(paths)
            done = [p for p in live if p.ret is not None and p.ret != NONE]
            ctx.ob(R, norm, bool(done) and len(done) == len(live), "the option %r of %s is not processed" % (k, c.name), key="processed-" + k)
            for p in done:
                t = typ.get(k)
                r = p.ret
                raw = r.k == "p"
                if t == "bool" or k.startswith(("mirror_no_", "mirror_use_")) or k == "volatile":
                    ctx.ob(R, norm, has_call(r, "ensure_boolean"), "the option %r is stored without being a boolean" % k, path=p, key="type-" + k)
                elif k.startswith("acl_"):
                    ctx.ob(R, norm, has_call(r, "ensure_acl_list"), "the option %r is stored without being a list of principals" % k, path=p, key="type-" + k)
                elif t == "list":
                    ctx.ob(R, norm, has_call(r, "ensure_list", "ensure_acl_list"), "the option %r is stored without being a list" % k, path=p, key="type-" + k)
                    if k == "bases":
                        ctx.ob(R, norm, has_call(r, "normalize_bases"), "the bases are stored without checking them", path=p, key="bases")
                    if "whitelist" in k:
                        ctx.ob(R, norm, has_call(r, "normalize_whitelist_name", "normalize_name"), "names of a whitelist are stored without normalising them", path=p, key="whitelist")
                elif k == "mirror_cache_expiry":
                    ctx.ob(R, norm, has_call(r, "int"), "the cache expiry is stored without being a number", path=p, key="expiry")
                elif t == "str":
                    facts = [kk for kk, v in p.st.facts.items() if kk.k == "cmp" and kk.a[0] in ("in", "==") and v is True and contains(kk, lambda x: x == r)]
                    ctx.ob(R, norm, bool(facts), "the option %r is stored with any value" % k, path=p, key="value-" + k)
                elif k == "mirror_url":
                    facts = [kk for kk, v in p.st.facts.items() if kk.k == "call" and call_name(kk) in ("startswith", "match") and v is True]
                    ctx.ob(R, norm, bool(facts), "the mirror URL is stored without being a URL", path=p, key="url")
    ctx.count(R, n, 10, "options of index types")
    # a wrong value is refused as such, instead of failing
    f = P.func(MD + ".ensure_boolean")
    paths = trace_paths(ctx, f, {"x": lambda ev, st: None}, default_raises=())
    for p in returns(paths):
        ok = p.ret is not None and (p.ret in (TRUE, FALSE) or any(k.k == "call" and call_name(k) == "isinstance" and v is True for k, v in p.st.facts.items()) or p.ret.k in ("cmp", "phi") or has_call(p.ret, "bool"))
        ctx.ob(R, f, ok, "a value which is no boolean is accepted", path=p, key="boolean")


def users(ctx):
    R = ctx.rule("M07.user", "a change of a user is checked before anything of it is stored; options outside the allowed ones are never stored")
    P = ctx.P
    cls = P.classes[MD + ".User"]
    f = cls.methods["_modify"]
    wl = lambda w, cm, st: {"enter": "open", "exit": "saved"}.get(w) if has_call(cm, "update") and has_attr(cm, "key") else None
    paths = trace_paths(ctx, f, {"valid": "validate_config"}, self_cls=cls, default_raises=(), follow=lambda g, ev, d: False, rounds=1, with_label=wl)
    for p in returns(paths):
        ctx.ob(R, f, -1 < p.idx("valid") < p.idx("open"), "a user is changed before the change was checked", path=p, key="valid")
    got = [ev for ev in collect(ctx, f, cls, "validate_config")]
    for ev in got:
        ctx.ob(R, f, any("kwargs" in show(a) for a in ev_args(ev)) or bool(ev.kwargs) or bool(ev.args), "the change of a user is not what is checked", where(f, ev.node), key="args")
    g = cls.methods["validate_config"]

    def br(t, v, st):
        if has_attr(t, "known_keys") or contains(t, lambda x: x.k == "bin" and has_param(x, "kwargs")):
            return "unknown" if v else "known"
    paths = trace_paths(ctx, g, {"x": lambda ev, st: None}, self_cls=cls, default_raises=(), branch=br, follow=lambda g, ev, d: False)
    ctx.ob(R, g, any(p.kind == "raise" for p in paths), "unknown user options are accepted", key="unknown")
    for p in returns(paths):
        ctx.ob(R, g, not p.has("unknown"), "unknown user options are accepted", path=p, key="unknown")
    # changes from outside go through the allowed keys
    h = cls.methods["modify"]
    for ev in collect(ctx, h, cls, "_modify"):
        ctx.ob(R, h, any(has_call(a, "get_cleaned_config") for a in ev_args(ev)) or any(has_call(t, "get_cleaned_config") for t in subterms(ev.term)), "options outside the allowed ones are stored for a user", where(h, ev.node), key="cleaned")
    k = cls.methods["get_cleaned_config"]
    ctx.ob(R, k, any(isinstance(x, ast.Attribute) and x.attr in ("allowed_keys", "public_keys", "visible_keys") for x in ast.walk(k.node)), "options outside the allowed ones are stored for a user", key="allowed")
    # "indexes", "username", "created" and "modified" are never set by a change
    consts = {}
    for x in cls.node.body:
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
            consts[x.targets[0].id] = {y.value for y in ast.walk(x.value) if isinstance(y, ast.Constant)} | {z for y in ast.walk(x.value) if isinstance(y, ast.Name) for z in consts.get(y.id, ())}
    allowed = consts.get("allowed_keys", set())
    ctx.ob(R, k, bool(allowed) and not allowed & {"indexes", "username", "created", "modified"}, "%s can be set by a change of a user" % sorted(allowed & {"indexes", "username", "created", "modified"}), key="protected")
    vis = consts.get("visible_keys", set())
    ctx.ob(R, k, bool(vis) and not vis & {"password", "pwhash", "pwsalt"}, "secrets of a user are shown", key="visible")


def collect(ctx, f, cls, name):
    res = []

    def lab(ev, st):
        if ev.name == name:
            res.append(ev)
    trace_paths(ctx, f, {"x": lab}, self_cls=cls, default_raises=(), events=(name,), follow=lambda g, ev, d: False, rounds=1)
    return res


def owners(ctx):
    R = ctx.rule("M07.owners", "the stored index configurations are only changed by the checked operations")
    P = ctx.P
    ok = {MD + ".BaseStage._modify", MD + ".RootModel.delete_stage", MD + ".User._modify"}
    n = 0
    for f in P.iter_funcs(*ALL_SERVER):
        for x in walk_own(f.node):
            cm = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "set") and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "key" and "user" in src(x.func.value).lower():
                cm = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "set") and isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Attribute) and x.func.value.func.attr == "USER":
                cm = x
            if cm is None:
                continue
            n += 1
            top = f
            while top.parent is not None and isinstance(top.parent, Func):
                top = top.parent
            # other functions may change the user, not its indexes
            if f.module.name in ("devpi_server.importexport", "devpi_server.main"):
                # an import keeps bases which do not exist yet or anymore;
                # the initial indexes come from the code itself
                continue
            touched = any(isinstance(y, ast.Constant) and y.value == "indexes" for y in ast.walk(f.node))
            ctx.ob(R, f, top.qual in ok or not touched, "index configurations are changed without checking them", where(f, cm), key="store")
    ctx.count(R, n, 2, "changes of stored users")


def check(ctx):
    modify(ctx)
    normalize(ctx)
    types(ctx)
    users(ctx)
    owners(ctx)


MODEL = "server/devpi_server/model.py"
SELFTEST = [
    (MODEL, """        if 'type' in kw and self.ixconfig["type"] != kw['type']:
            raise""", """        if 'type' in kw and kw.get("force") is None and self.ixconfig["type"] != kw['type']:
            raise"""),
    (MODEL, """            self.customizer.validate_config(oldconfig, newconfig)
            self.ixconfig = newconfig
            return newconfig""", """            self.ixconfig = newconfig
        self.customizer.validate_config(oldconfig, newconfig)
        return newconfig"""),
    (MODEL, """            newconfig = userconfig["indexes"].setdefault(self.index, {})
""", """            newconfig = userconfig["indexes"][self.index] = {}
"""),
    (MODEL, """            newconfig.update(ixconfig)
            self.customizer.validate_config(oldconfig, newconfig)
""", """            self.customizer.validate_config(oldconfig, newconfig)
            newconfig.update(ixconfig)
"""),
    (MODEL, """            if keep_unknown:
                # used""", """            if keep_unknown or self.ixconfig["type"] == "mirror":
                # used"""),
    (MODEL, """                value = self.customizer.normalize_indexconfig_value(key, value)
                if value is None:
                    raise ValueError(
                        "The key '%s' wasn't processed."
                        % (key))
""", """                value = self.customizer.normalize_indexconfig_value(key, value)
"""),
    (MODEL, """                if isinstance(value, bool):
                    new_value = ensure_boolean(new_value)
""", """                if isinstance(value, bool):
                    new_value = bool(new_value)
"""),
    (MODEL, """        if key == "acl_toxresult_upload":
            return ensure_acl_list(value)
""", """        if key == "acl_toxresult_upload":
            return ensure_list(value)
"""),
    (MODEL, """        if key in ("custom_data", "description", "title"):
            return value

    def delete""", """        if key in ("custom_data", "description"):
            return value

    def delete"""),
    (MODEL, """        self.validate_config(**kwargs)
        modified = {}
        with self.key.update() as userconfig:
""", """        modified = {}
        with self.key.update() as userconfig:
            self.validate_config(**kwargs)
"""),
    (MODEL, """        kwargs = self.get_cleaned_config(**kwargs)
        modified =""", """        modified ="""),
    (MODEL, """        for key, value in self.customizer.get_default_config_items():
            if kwargs.get(key) is RemoveValue:
                raise InvalidIndexconfig("Default values can't be removed.")
""", ""),
    ("server/devpi_server/mirror.py", """            try:
                value = int(value)
            except (TypeError, ValueError):
                raise self.InvalidIndexconfig([
                    "'mirror_cache_expiry' option must be an integer"])
            return value
""", """            return value
"""),
]
