"""mutate.py OUTDIR: writes one-edit mutants of the library (OUTDIR/NNNN.diff-like json:
file, line, original text, new text) whose edited line is a line of the original
repository. Used to look for weak spots of the checks; not used by any check."""
import ast, json, os, random, subprocess, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
FILES = ["agentspeak/__init__.py", "agentspeak/lexer.py", "agentspeak/parser.py", "agentspeak/runtime.py", "agentspeak/stdlib.py", "simse/helper.py"]
SKIP = {"LogHandler", "LogFormatter", "get_logger", "dump", "__repr__", "repl", "main", "dump_variables", "_dump_plans", "console_format", "shutdown", "Log.info", "asl_repr_var"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def muts(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.splitlines(True)
    orig = set(subprocess.run(["git", "-C", REPO, "show", "fda036b:" + path], capture_output=True, text=True).stdout.splitlines())
    if not orig:
        orig = set(open("/tmp/basewt/" + path).read().splitlines())
    tree = ast.parse(src)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def seg(n):
        a, b = pos(n)
        return src[a:b]
    out = []
    def emit(node, new, kind, fn):
        a, b = pos(node)
        if lines[node.lineno - 1].rstrip("\n") not in orig:
            return
        out.append({"file": path, "line": node.lineno, "a": a, "b": b, "old": src[a:b], "new": new, "kind": kind, "fn": fn})
    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                if ch.name in SKIP:
                    continue
                f = fn + [ch.name]
            name = ".".join(f)
            if fn or isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                one(ch, name)
            walk(ch, f)
    def one(n, fn):
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            emit(n, "pass", "del", fn)
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            emit(n, "pass", "del", fn)
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            emit(n.test, "not (%s)" % seg(n.test), "neg", fn)
            emit(n.test, "True", "true", fn)
            emit(n.test, "False", "false", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            emit(n, "%s %s %s" % (seg(n.left), CMP[type(o)], seg(n.comparators[0])), "cmp", fn)
            if isinstance(o, (ast.Lt, ast.Gt)):
                emit(n, "%s %s %s" % (seg(n.comparators[0]), CMPS[type(o)], seg(n.left)), "cmpswap", fn)
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vs = [seg(v) for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                emit(n, "(" + op.join("(%s)" % v for v in vs) + ")", "boolop", fn)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                emit(n, str(not n.value), "const", fn)
            elif isinstance(n.value, int):
                emit(n, str(n.value + 1), "const", fn)
                if n.value:
                    emit(n, str(n.value - 1), "const", fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            emit(n, "%s %s %s" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith", fn)
            emit(n, seg(n.left), "arith", fn)
        if isinstance(n, ast.Call):
            f = seg(n.func).split(".")[-1]
            if len(n.args) >= 1 and f in ("freeze", "grounded", "evaluate", "list", "tuple", "deepcopy", "sorted", "reversed", "set", "frozenset", "int", "float", "max", "min", "deref"):
                emit(n, seg(n.args[0]), "unwrap", fn)
            if f in ("all", "any"):
                emit(n, ("any" if f == "all" else "all") + seg(n)[3:], "quant", fn)
            if f in ("append",):
                emit(n, seg(n.func)[:-6] + "appendleft" + seg(n)[len(seg(n.func)):], "left", fn)
            if f == "popleft":
                emit(n, seg(n.func)[:-7] + "pop" + seg(n)[len(seg(n.func)):], "left", fn)
            if f == "pop" and not n.args:
                emit(n, seg(n.func)[:-3] + "popleft" + seg(n)[len(seg(n.func)):], "left", fn)
        if isinstance(n, ast.Attribute) and n.attr in ("left", "right", "head", "tail", "success", "failure", "args", "annots"):
            other = {"left": "right", "right": "left", "head": "tail", "tail": "head", "success": "failure", "failure": "success", "args": "annots", "annots": "args"}[n.attr]
            emit(n, seg(n)[:-len(n.attr)] + other, "attr", fn)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            emit(n, "return", "ret", fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            emit(n.slice, "0", "index", fn)
    walk(tree, [])
    return out


if __name__ == "__main__":
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    all_ = []
    for f in FILES:
        all_ += muts(f)
    for i, m in enumerate(all_):
        m["id"] = i
    json.dump(all_, open(d + "/all.json", "w"))
    import collections
    print(len(all_), collections.Counter(m["file"] for m in all_))
