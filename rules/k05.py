"""K05: serialisation round trip, key names."""
from rules.lib import *  # noqa

FU = "devpi_server.fileutil"
RO = "devpi_server.readonly"
KT = "devpi_server.keyfs_types"


def cbytes(t):
    return cval(t) if t is not None and t.k == "c" and isinstance(cval(t), bytes) else None


def dump_tokens(ctx, f, obj):
    """set of token sequences a dump function writes"""
    par = f.params()
    W, O = T("p", par[0]), T("p", par[1])
    defaults = {}
    pk = f.params()[2:] if len(par) > 2 else []

    def tok(ev, st):
        if ev.fterm is W:
            a = ev.args[0]
            b = cbytes(a)
            if b is not None:
                return "op:" + b.decode("latin-1")
            if a.k == "call" and len(call_args(a)) == 2 and cstr(call_args(a)[0]) is not None:
                v = call_args(a)[1]
                fmt = cstr(call_args(a)[0])
                what = "len" if v.k == "call" and call_name(v) == "len" else "obj" if v is O else "attr:" + v.a[1] if v.k == "attr" and v.a[0] is O else "?"
                return "pack:%s:%s" % (fmt, what)
            if a is O:
                return "raw"
            if a.k == "call" and call_name(a) == "encode":
                r = call_recv(a)
                enc = call_args(a)[0] if call_args(a) else const("utf-8")
                kind = "str" if r is O else "fstr" if r.k in ("fstr",) or r.k == "call" and call_name(r) == "str" else "?"
                return "raw:%s:%s" % (kind, cstr(enc))
            return "other"
        if ev.fterm.k in ("sub", "call") and "_dispatch" in show(ev.fterm):
            a = ev.args
            key = show(ev.fterm)
            item = a[1] if len(a) == 2 else NONE
            what = "?"
            okdisp = ("__class__" in key or "type(" in key)
            if len(a) == 2 and a[0] is W and okdisp and show(item) in key:
                if item.k == "elem" and item.a[0] is O:
                    what = "item"
                elif item.k == "sub" and item.a[0].k == "elem" and item.a[1].k == "c":
                    base = item.a[0].a[0]
                    if base.k == "call" and call_name(base) == "items" and call_recv(base) is O:
                        what = ("key", "value")[cval(item.a[1])]
                    elif base.k == "call" and call_name(base) == "enumerate" and call_args(base)[0] is O:
                        what = ("index", "item")[cval(item.a[1])]
            return "sub:" + what

    conds = []

    def br(t, v, st):
        if t is O:
            return "if:" + str(v)
        if t.k == "cmp" and t.a[0] in ("<", "<=") and O in (t.a[1], t.a[2]):
            lim = t.a[1] if t.a[2] is O else t.a[2]
            lo = cval(lim) if lim.k == "c" else ctx.P.__dict__.get("_const_" + show(lim))
            upper = t.a[2] is O     # lim < obj
            big = v if upper else not v
            return "big" if big else "small:%s%s" % (show(lim), "" if (t.a[0] == "<") == upper else "-1")
    paths = trace_paths(ctx, f, {"t": tok}, branch=br, dedupe=False, follow=lambda g, ev, d: False, default_raises=("?",),
                        raises={}, events=("write",), quiet=("encode",) if False else ())
    return paths


def load_tokens(ctx, f):
    """op byte -> list of (fields, result) for the loader"""
    res = {}

    def iters(what, it, st):
        return None

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] in ("==", "in", "is") and v:
            for side in (t.a[1], t.a[2]):
                b = cbytes(side)
                if b:
                    return "OP:" + b.decode("latin-1")
                if items(side) and all(cbytes(x) for x in items(side)):
                    return "OP:" + "".join(cbytes(x).decode("latin-1") for x in items(side))
        return None

    def size(t):
        return cval(t) if t.k == "c" else "n" if has_call(t, "read") else "?"

    def describe(t):
        """what the pushed value is made of"""
        if t.k == "c":
            return repr(cval(t))
        if t.k == "dict":
            return "{}"
        if t.k == "call":
            n = call_name(t) or show(t.a[0])
            a = call_args(t)
            kw = dict(call_kwargs(t))
            if n == "read" or n == "p" or t.a[0].k == "attr" and t.a[0].a[1] == "read":
                return "bytes[%s]" % ("i4" if a[0].k != "c" else cval(a[0]))
            if n in ("from_bytes", "_from_bytes"):
                sg = kw.get("signed")
                bo = kw.get("byteorder")
                return "i%s%s" % (cval(call_args(a[0])[0]) if a[0].k == "call" else "?", "" if sg is TRUE and bo is not None and cstr(bo) == "big" else "?")
            if n in ("unpack", "_unpack"):
                return "unpack:%s:%s" % (cstr(a[0]), describe(a[1]))
            if n == "decode":
                return "str[%s:%s]" % (describe(call_recv(t)), cstr(a[0]) if a else "utf-8")
            if n in ("int", "complex", "tuple", "set", "frozenset", "float"):
                return "%s(%s)" % (n, ", ".join(describe(x) for x in a))
            return n
        if t.k == "sub" and t.a[1] is const(0):
            return describe(t.a[0]) + "[0]"
        if t.k == "bin":
            return "bin(%s)" % ", ".join(describe(x) for x in t.a[1:])
        if items(t):
            return "list(%s)" % ", ".join(describe(x) for x in items(t))
        return show(t)
    return br, describe


def roundtrip(ctx):
    R = ctx.rule("K05.codec", "for each serialisable type the reader rebuilds, from the fields in the order and encoding the writer "
                 "produced, a value of the same type")
    m = ctx.P.module(FU)
    table = None
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and src(st.targets[0]) == "_dispatch" and isinstance(st.value, ast.Dict):
            table = {src(k): src(v) for k, v in zip(st.value.keys, st.value.values)}
    if not table:
        raise AnchorError("the table of serialisable types is gone")
    # writer side
    want = {
        # type: (opcode(s), token sequences on complete paths)
        "tuple": [("sub:item*", "op:@", "pack:!i:len")],
        "frozenset": [("sub:item*", "op:E", "pack:!i:len")],
        "set": [("sub:item*", "op:O", "pack:!i:len")],
        "bytes": [("op:A", "pack:!i:len", "raw")],
        "bool": [("if:True", "op:R"), ("if:False", "op:C")],
        "float": [("op:D", "pack:!d:obj")],
        "int": [("big", "op:H", "pack:!i:len", "raw:fstr:ascii"), ("small", "op:F", "pack:!i:obj")],
        "dict": [("op:J", "sub:key", "sub:value", "op:P")],
        "list": [("op:K", "pack:!i:len", "sub:index", "sub:item", "op:P")],
        "NoneType": [("op:L",)],
        "str": [("op:N", "pack:!i:len", "raw:str:utf-8")],
        "complex": [("op:T", "pack:!d:attr:real", "pack:!d:attr:imag")],
    }
    kinds = {"tuple": "tuple", "frozenset": "frozenset", "set": "set", "bytes": "bytes", "bool": "bool", "float": "float", "int": "int",
             "dict": "dict", "list": "list", "None.__class__": "NoneType", "type(None)": "NoneType", "str": "str", "complex": "complex",
             "readonly.TupleViewReadonly": "tuple", "readonly.DictViewReadonly": "dict", "readonly.ListViewReadonly": "list",
             "readonly.SetViewReadonly": "set", "filestore.Digests": "dict"}
    ops = {}
    for tname, fname in sorted(table.items()):
        kind = kinds.get(tname) or kinds.get("readonly." + tname.split(".")[-1])
        if kind is None:
            # another type: has to be one the value protection knows as well
            ctx.ob(R, m.name, False, "type %s is serialised but not known to read back equal" % tname, key="unknown-" + tname)
            continue
        f = m.funcs.get(fname)
        if f is None:
            raise AnchorError("serialiser %s not found" % fname)
        paths = dump_tokens(ctx, f, None)
        seqs = set()
        for p in paths:
            if p.kind != "return":
                continue
            s = []
            for x in p.trace:
                if x.startswith("small:"):
                    x = "small"
                s.append(x)
            seqs.add(tuple(s))

        def norm(seq, kind):
            """collapse loop repetitions"""
            loop = {"tuple": ("sub:item",), "frozenset": ("sub:item",), "set": ("sub:item",),
                    "dict": ("sub:key", "sub:value", "op:P"), "list": ("sub:index", "sub:item", "op:P")}.get(kind)
            if not loop:
                return seq
            out, i = [], 0
            while i < len(seq):
                if seq[i:i + len(loop)] == loop:
                    if not out or out[-1] != "*":
                        out.append("*")
                    i += len(loop)
                else:
                    out.append(seq[i])
                    i += 1
            return tuple(x for x in out if x != "*"), "*" in out, out.index("*") if "*" in out else -1
        if kind in ("tuple", "set", "frozenset", "dict", "list"):
            op = {"tuple": "op:@", "set": "op:O", "frozenset": "op:E", "dict": "op:J", "list": "op:K"}[kind]
            base = (op,) if kind == "dict" else (op, "pack:!i:len")
            pos = 0 if kind in ("tuple", "set", "frozenset") else len(base)
            ns = {norm(s, kind) for s in seqs}
            ok = ns and all(b == base and (not star or at == pos) for b, star, at in ns) and any(star for b, star, at in ns)
            got = {op[3:]}
        else:
            ok = seqs == set(want[kind])
            got = {x[3:] for s in seqs for x in s if x.startswith("op:")}
        ctx.ob(R, f, ok, "a %s is not written in the form the reader expects (%s)" % (tname, sorted(seqs)[:2]), key="write-" + tname)
        if not tname.startswith(("readonly.", "filestore.")):
            ops[kind] = got
    # the size of integers written in four bytes
    f = m.funcs.get("_dump_int")
    if f is not None:
        O = T("p", f.params()[1])
        lim = []

        def br(t, v, st):
            if t.k == "cmp" and t.a[0] in ("<", "<=") and O in (t.a[1], t.a[2]):
                lim.append((t.a[0], t.a[1] if t.a[2] is O else t.a[2], t.a[2] is O))
                upper = t.a[2] is O
                return "big" if v == upper else "small"
        trace_paths(ctx, f, {}, branch=br, events=("write",), follow=lambda g, ev, d: False)
        good = bool(lim)
        for op, l, upper in lim:
            v = cval(l) if l.k == "c" else None
            if v is None:
                g = m.globals.get((refname(l) or "").rpartition(".")[2])
                v = literal(g) if g is not None else None
                if v is None and g is not None:
                    try:
                        v = eval(compile(ast.Expression(g), "x", "eval"), {"__builtins__": {}})  # constant expression of numbers
                    except Exception:
                        v = None
            if v is None:
                good = False
            elif upper:   # l < obj / l <= obj is big
                good = good and (v if op == "<" else v - 1) <= 2**31 - 1
            else:         # obj < l is small
                good = good and (v - 1 if op == "<" else v) <= 2**31 - 1
        ctx.ob(R, f, good, "an integer which does not fit is written in four bytes", key="int-limit")
    # reader side
    f = ctx.P.func(FU + ".load")
    br, describe = load_tokens(ctx, f)
    pushes = {}

    def push(ev, st):
        if ev.name in ("stack_append", "append") and len(ev.args) == 1:
            t = ev.args[0]
            cur = [x for x in st.auto if x.startswith("OP:")]
            if cur:
                for o in cur[-1][3:]:
                    pushes.setdefault(o, set()).add(describe(t))
            return "push"
        if ev.name == "_load_collection":
            cur = [x for x in st.auto if x.startswith("OP:")]
            if cur:
                for o in cur[-1][3:]:
                    pushes.setdefault(o, set()).add("collection:" + (refname(ev.args[0]) or show(ev.args[0])))
            return "collection"
    paths = trace_paths(ctx, f, {"p": push}, branch=br, dedupe=False, follow=lambda g, ev, d: False, max_states=200,
                        stores={"setitem": lambda e, st: e.kind == "sub"})
    expect = {
        "@": {"collection:builtins.tuple"}, "E": {"collection:builtins.frozenset"}, "O": {"collection:builtins.set"},
        "A": {"bytes[i4]"}, "C": {"False"}, "R": {"True"}, "L": {"None"}, "D": {"unpack:!d:bytes[8][0]"},
        "F": {"i4"}, "H": {"int(bytes[i4])"}, "J": {"{}"}, "N": {"str[bytes[i4]:utf-8]"},
        "T": {"complex(unpack:!d:bytes[8][0], unpack:!d:bytes[8][0])"},
    }
    for op, exp in sorted(expect.items()):
        ctx.ob(R, f, pushes.get(op) == exp, "the reader rebuilds something else for %r: %s" % (op, sorted(pushes.get(op, ()))), key="read-" + op)
    ctx.ob(R, f, len(pushes.get("K", ())) == 1 and "i4" in next(iter(pushes["K"])) and "None" in next(iter(pushes["K"])), "the reader does not rebuild lists of the written length", key="read-K")
    lens = []
    g = f.nested.get("_load_collection")
    if g is None:
        raise AnchorError("the reader has no function for collections")
    outs = []
    trace_paths(ctx, g, {"p": lambda ev, st: ev.name in ("stack_append", "append") and (outs.append(ev.args[0]) or True)}, follow=lambda g, ev, d: False)
    ctx.ob(R, g, bool(outs) and all(o.k == "call" and o.a[0] is T("p", g.params()[0]) for o in outs) and any("slice" in show(o) or ":" in show(o) for o in outs),
           "collections are not rebuilt from the items on the stack", key="collection")
    # key and value order of items
    vals = []

    def setitem(e, st):
        if e.kind == "sub":
            vals.append((e.name, e.value))
            return "setitem"
    trace_paths(ctx, f, {"pop": ["stack_pop"]}, branch=br, follow=lambda g, ev, d: False, stores={"s": setitem}, max_states=200, dedupe=False)

    def line(t):
        sites = [x.a[3] for x in subterms(t) if x.k == "call"]
        return sites[0] if sites else None
    good = bool(vals) and all(line(k) and line(v) and line(v) < line(k) for k, v in vals)
    ctx.ob(R, f, good, "key and value of an item are mixed up", key="item-order")
    # everything else is refused
    paths = trace_paths(ctx, f, {}, branch=lambda t, v, st: "unknown" if t.k == "cmp" and t.a[0] == "==" and not v and any(cbytes(x) == b"T" for x in t.a[1:]) else None,
                        follow=lambda g, ev, d: False, max_states=200)
    ctx.ob(R, f, any(p.has("unknown") and p.kind == "raise" for p in paths), "unknown input is not refused", key="unknown")

    f = ctx.P.func(FU + "._dump")
    paths = trace_paths(ctx, f, {"disp": lambda ev, st: "_dispatch" in show(ev.fterm), "stop": lambda ev, st: ev.args and cbytes(ev.args[0]) == b"Q"},
                        raises={"disp": ("builtins.KeyError", "struct.error"), "stop": ()}, follow=lambda g, ev, d: False, events=("_dispatch",))
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" and not p.has("stop") or p.has("disp") and p.has("stop"), "unserialisable data is accepted", key="refuse")
    ctx.ob(R, f, any(p.kind == "raise" and p.has("disp!") for p in paths) and not any(p.kind == "return" and p.has("disp!") for p in paths),
           "an error while serialising is swallowed", key="error")
    return ops


def tables(ctx, ops):
    R = ctx.rule("K05.types", "the types which can be serialised, protected for reading, copied for change and declared for keys agree")
    tab = {}
    for f in ctx.P.funcs.values():
        if f.module.name == RO:
            for d in f.node.decorator_list if hasattr(f.node, "decorator_list") else ():
                s = src(d)
                for which in ("ensure_deeply_readonly", "get_mutable_deepcopy"):
                    if s.startswith(which + ".register"):
                        ann = f.node.args.args[0].annotation
                        tab.setdefault(which, set()).add(src(d.args[0]) if isinstance(d, ast.Call) and d.args else src(ann))
    a, b = (({"NoneType" if x == "None" else x for x in tab.get(w, ())}) for w in ("ensure_deeply_readonly", "get_mutable_deepcopy"))
    ctx.ob(R, RO, a == b and len(a) > 8, "types protected for reading and copied for change differ: %s" % sorted(a ^ b), key="protect-copy")
    base = (a & b) - {"ReadonlyView"}
    ser = set(ops)
    ctx.ob(R, FU, base <= ser, "types which can be handed out but not be serialised: %s" % sorted(base - ser), key="protect-serialise")
    ctx.ob(R, FU, ser - base <= {"complex"}, "types which can be serialised but not be handed out: %s" % sorted(ser - base), key="serialise-protect")
    for f in (ctx.P.func(RO + ".ensure_deeply_readonly"), ctx.P.func(RO + ".get_mutable_deepcopy")):
        paths = trace_paths(ctx, f, {})
        check_paths(ctx, R, f, paths, lambda p: p.kind == "raise", "values of unknown types are accepted", key="unknown")
    n = 0
    for f, c in callers(ctx.P, "add_key", prefixes=ALL_SERVER):
        if len(c.args) != 3:
            continue
        n += 1
        ctx.ob(R, f, src(c.args[2]) in base, "a key is declared for a type which cannot be stored", where(f, c), key=src(c.args[0]))
    ctx.count(R, n, 6, "declared keys")


def keynames(ctx):
    R = ctx.rule("K05.keys", "each declared key pattern can be reversed unambiguously and parameters never contain the separator")
    n = 0
    names = {}
    for f, c in callers(ctx.P, "add_key", prefixes=ALL_SERVER):
        if len(c.args) != 3 or literal(c.args[1]) is None:
            continue
        n += 1
        pat = literal(c.args[1])
        segs = pat.split("/")
        ctx.ob(R, f, all(s.count("{") <= 1 and (not s.count("{") or s.startswith("{") and s.endswith("}")) for s in segs)
               and len({s for s in segs if "{" in s}) == len([s for s in segs if "{" in s]),
               "parameters of a key cannot be told apart", where(f, c), key=pat)
        names.setdefault(literal(c.args[0]), []).append(pat)
        ctx.ob(R, f, len(names[literal(c.args[0])]) == 1, "a key name is declared twice", where(f, c), key="dup-" + str(literal(c.args[0])))
    ctx.count(R, n, 6, "declared keys")
    pats = [p for ps in names.values() for p in ps]
    shape = [tuple("{}" if "{" in s else s for s in p.split("/")) for p in pats]
    ctx.ob(R, "devpi_server.model.add_keys", len(set(shape)) == len(shape), "two keys share the same names", key="distinct")
    f = ctx.P.func(KT + ".PTypedKey.__call__")

    def br(t, v, st):
        if t.k == "cmp" and t.a[0] == "in" and cstr(t.a[1]) == "/":
            return "slash" if v else "noslash"
    paths = trace_paths(ctx, f, {"format": ["format"]}, branch=br, iters=lambda w, it, st: "val" if w == "next" else "vals-end", follow=lambda g, ev, d: False, dedupe=False)
    any_form = any(has_call(t, "any") for p in paths for t in p.st.facts)
    if not any_form:
        check_paths(ctx, R, f, paths, handled("val", ("slash", "noslash"), "vals-end"), "a parameter is not looked at", key="each")
        ctx.ob(R, f, some(paths, "val"), "parameters are not looked at", key="instances")
    check_paths(ctx, R, f, paths, lambda p: not p.has("slash") or p.kind == "raise", "a parameter containing the separator is accepted", key="slash")
    ctx.ob(R, f, any_form or any(p.has("slash") for p in paths), "a parameter containing the separator is accepted", key="slash-test")
    f = ctx.P.func(KT + ".PTypedKey.__init__")
    strs = {cstr(const(x)) for x in strings_in(f.node)}
    ctx.ob(R, f, any("[^\\/]+" in x or "[^/]+" in x for x in strs) and "^" in strs and "$" in strs, "the reverse pattern matches across separators or only parts of a name", key="reverse")
    f = ctx.P.func("devpi_server.keyfs.KeyFS.get_key_instance")
    paths = trace_paths(ctx, f, {"inst": lambda ev, st: "extract_params" in show(ev.term) and not ev.name == "extract_params"}, follow=lambda g, ev, d: False,
                        branch=lambda t, v, st: "param" if v and has_call(t, "isinstance") else None)
    check_paths(ctx, R, f, paths, lambda p: p.kind == "raise" or not p.has("param") or contains(p.ret, lambda x: x.k == "call" and call_name(x) == "extract_params" and T("p", "relpath") in call_args(x)),
                "a stored name is not mapped back to the key with its parameters", key="instance")
    f = ctx.P.func("devpi_server.keyfs.KeyFS.add_key")
    paths = trace_paths(ctx, f, {}, stores={"reg": lambda e, st: e.kind == "sub" and has_attr(e.base, "_keys")}, events=("_keys",), follow=lambda g, ev, d: False,
                        branch=lambda t, v, st: ("dup" if v else "new") if t.k == "cmp" and t.a[0] == "in" and has_attr(t.a[2], "_keys") else None)
    check_paths(ctx, R, f, paths, lambda p: not p.has("reg") or p.has("new") and not p.has("dup"), "a key name is taken twice", key="register")


def check(ctx):
    ops = roundtrip(ctx)
    tables(ctx, ops)
    keynames(ctx)
    ctx.assumptions += ["struct.pack/unpack, int.from_bytes and utf-8 encoding are inverse to each other"]


S = "server/devpi_server/"
SELFTEST = [
    (S + "fileutil.py", "if obj > FOUR_BYTE_INT_MAX:", "if obj > FOUR_BYTE_INT_MAX + 1:"),
    (S + "fileutil.py", "FOUR_BYTE_INT_MAX = 2147483647", "FOUR_BYTE_INT_MAX = 4294967295"),
    (S + "fileutil.py", "_load_collection(frozenset)", "_load_collection(set)"),
    (S + "fileutil.py", "    frozenset: _dump_frozenset,", "    frozenset: _dump_set,"),
    (S + "fileutil.py", "    readonly.TupleViewReadonly: _dump_tuple,", "    readonly.TupleViewReadonly: _dump_list,"),
    (S + "fileutil.py", "    bool: _dump_bool,", "    bool: _dump_int,"),
    (S + "fileutil.py", "            value = stack_pop()\n                key = stack_pop()", "            key = stack_pop()\n                value = stack_pop()"),
    (S + "fileutil.py", "raise DumpError(f\"can't serialize {e.args[0]}\")", "write(b'L')"),
    (S + "fileutil.py", "stack_append(_unpack(\"!d\", read(8))[0])", "stack_append(_unpack(\"!f\", read(4))[0])"),
    (S + "fileutil.py", "    write(b'D')\n    write(_pack(\"!d\", obj))", "    write(b'D')\n    write(_pack(\"!d\", round(obj, 6)))"),
    (S + "keyfs_types.py", "if \"/\" in val:", "if val.startswith(\"/\"):"),
    (S + "keyfs_types.py", "[^\\/]+", ".+"),
    (S + "readonly.py", "@get_mutable_deepcopy.register\ndef _(val: frozenset)", "def _(val: frozenset)"),
    (S + "model.py", "\"{user}/{index}/+e/{dirname}/{basename}\"", "\"{user}/{index}/+e/{dirname}-{basename}\""),
]
