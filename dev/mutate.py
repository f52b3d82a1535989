"""Development tool: mutate functions and list mutants a property's check misses.
usage: mutate.py PROP qualname-prefix... [--all]"""
import ast, copy, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from sa.project import Project, AnchorError
from check import analyse

REPO = "/repo"


def is_log(stmt):
    s = ast.unparse(stmt)
    return isinstance(stmt, ast.Expr) and (s.startswith(("threadlog.", "log.", "self.log.", "thread_p", "warnings.", "'", '"')) or isinstance(stmt.value, ast.Constant))


def mutants(fn):
    """yield (desc, lineno, mutate(node copy path))"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        for fld in ("body", "orelse", "finalbody"):
            body = getattr(n, fld, None)
            if not isinstance(body, list):
                continue
            for j, st in enumerate(body):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) or is_log(st) or isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
                    continue
                yield ("delete: " + ast.unparse(st).split("\n")[0], st.lineno, ("del", i, fld, j))
                if j + 1 < len(body) and not is_log(body[j+1]):
                    yield ("swap: %s <-> %s" % (ast.unparse(st).split("\n")[0], ast.unparse(body[j+1]).split("\n")[0]), st.lineno, ("swap", i, fld, j))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield ("negate: " + ast.unparse(n.test), n.lineno, ("neg", i))
        if isinstance(n, ast.BoolOp):
            yield ("andor: " + ast.unparse(n), n.lineno, ("andor", i))
            for j in range(len(n.values)):
                yield ("dropterm %d: %s" % (j, ast.unparse(n)), n.lineno, ("dropterm", i, j))
        if isinstance(n, ast.Try):
            if n.finalbody:
                yield ("finally->after", n.lineno, ("nofinally", i))
            for j, h in enumerate(n.handlers):
                if h.type is not None and ast.unparse(h.type) == "BaseException":
                    yield ("except BaseException->Exception", h.lineno, ("exc", i, j))
                yield ("handler->pass", h.lineno, ("hpass", i, j))
        if isinstance(n, ast.With):
            yield ("with removed: " + ast.unparse(n.items[0]), n.lineno, ("nowith", i))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield ("flip %s" % n.value, n.lineno, ("flip", i))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield ("cmp: " + ast.unparse(n), n.lineno, ("cmp", i))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
            yield ("arith: " + ast.unparse(n), n.lineno, ("arith", i))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield ("return None: " + ast.unparse(n), n.lineno, ("retnone", i))
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            yield ("unwrap: " + ast.unparse(n), n.lineno, ("unwrap", i))
        if isinstance(n, ast.Call):
            for j, k in enumerate(n.keywords):
                if k.arg:
                    yield ("dropkw %s: %s" % (k.arg, ast.unparse(n).split("\n")[0][:80]), n.lineno, ("dropkw", i, j))


def apply(fn, m):
    nodes = list(ast.walk(fn))
    n = nodes[m[1]]
    k = m[0]
    if k == "del":
        body = getattr(n, m[2])
        st = body[m[3]]
        new = ast.copy_location(ast.Pass(), st)
        body[m[3]] = new
    elif k == "swap":
        b = getattr(n, m[2])
        b[m[3]], b[m[3]+1] = b[m[3]+1], b[m[3]]
    elif k == "neg":
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    elif k == "andor":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "dropterm":
        del n.values[m[2]]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif k == "nofinally":
        # body; final (not on exceptions)
        fb = n.finalbody
        n.finalbody = []
        if not n.handlers:
            h = ast.ExceptHandler(type=None, name=None, body=[ast.Raise(exc=None, cause=None)])
            n.handlers = [h]
        n.orelse = n.orelse + fb
    elif k == "exc":
        n.handlers[m[2]].type = ast.Name(id="Exception", ctx=ast.Load())
    elif k == "hpass":
        n.handlers[m[2]].body = [ast.Pass()]
    elif k == "nowith":
        it = n.items[0]
        if len(n.items) > 1:
            n.items = n.items[1:]
        else:
            pre = ast.Expr(it.context_expr) if it.optional_vars is None else ast.Assign(targets=[it.optional_vars], value=it.context_expr)
            body = n.body
            n.__class__ = ast.If
            n._fields = ast.If._fields
            n.test = ast.Constant(True)
            n.body = [pre] + body
            n.orelse = []
    elif k == "flip":
        n.value = not n.value
    elif k == "cmp":
        op = n.ops[0]
        mp = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
              ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops = [mp[type(op)]()]
    elif k == "arith":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif k == "retnone":
        n.value = ast.Constant(None)
    elif k == "unwrap":
        a = n.args[0]
        n.func, n.args = ast.Name(id="_id", ctx=ast.Load()), [a]
    elif k == "dropkw":
        del n.keywords[m[2]]
    ast.fix_missing_locations(fn)


def find(tree, node_line, name):
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name and x.lineno == node_line:
            return x


def job(a):
    prop, path, name, line, m, desc, ln = a
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    fn = find(tree, line, name)
    try:
        apply(fn, m)
        text = ast.unparse(ast.fix_missing_locations(tree))
        if m[0] == "unwrap":
            text += "\n\ndef _id(x):\n    return x\n"
        compile(text, path, "exec")
    except Exception as e:
        return (desc, ln, name, "skip %r" % e)
    try:
        ctx, _ = analyse(prop, Project(REPO, overlay={path: text}))
    except AnchorError as e:
        return (desc, ln, name, "anchor %s" % e)
    except Exception as e:
        return (desc, ln, name, "CRASH %r" % e)
    known = KNOWN
    v = [x for x in ctx.violations if (x["rule"], x["construct"], x["key"]) not in known]
    return (desc, ln, name, "caught" if v else "MISSED")


if __name__ == "__main__":
    prop = sys.argv[1]
    P = Project(REPO)
    ctx, _ = analyse(prop, P)
    KNOWN = {(x["rule"], x["construct"], x["key"]) for x in ctx.violations}
    jobs = []
    for pre in sys.argv[2:]:
        if pre.startswith("-"):
            continue
        got = [f for q, f in P.funcs.items() if (q == pre or q.startswith(pre + ".") ) and not isinstance(f.node, ast.Lambda)]
        if not got:
            print("no function", pre)
        tops = [f for f in got if not any(f.node is not g.node and f.node in ast.walk(g.node) for g in got)]
        for f in tops:
            for desc, ln, m in mutants(f.node):
                jobs.append((prop, f.path, f.name, f.node.lineno, m, desc, ln))
    with Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=2)
    c = {}
    for desc, ln, name, r in res:
        c[r.split()[0]] = c.get(r.split()[0], 0) + 1
        if r != "caught" or "--all" in sys.argv:
            print("%-8s %s:%d  %s" % (r[:60], name, ln, desc[:130]))
    print(c)
