#!/usr/bin/env python3
"""Mutation run, to find what the checks do not see.
mutate.py OUT.jsonl COUNT SEED [FILE...]: draws mutants of single expressions or statements
of the source, drops those the repository's tests kill, runs the checks concerned with the
function until one reports a violation, and writes one line per mutant.  Survivors are then
read by hand (equivalent, outside the properties, or a gap to close)."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plant import copy, sh, PY
P = "C01 C02 C05 C06 C07 C14 C15 C10 C11"
CHECKS = {
    "pyclibrary/c_parser.py": {
        "Type": "C27 C02 C01 C12 C16", "Compound": "C27 C07 C12", "Struct": "C27", "Union": "C27", "Enum": "C27 C06 C12", "__init__": "C28 C29 C11 C12 C13 C26 C30",
        "process_all": "C29 C12 C13 C11 C14", "load_cache": "C13 C12", "import_dict": "C12 C11 C13 C28", "write_cache": "C12 C13", "find_headers": "C23 C12 C13 C28",
        "load_file": "C28 C13 C29 C30 C12", "_format_parsed_file": "C30", "print_all": "C30", "__str__": "C30", "remove_comments": "C10 C30 C05",
        "preprocess": "C03 C08 C04 C10 C14 C05", "eval_preprocessor_expr": "C03 C15", "process_macro_defn": "C04 C05 C03 C12", "compile_fn_macro": "C04", "expand_macros": "C04 C05",
        "expand_fn_macro": "C04", "separate": "C04", "split_macro_args": "C04", "parse_defs": "C14 C29 C21", "build_parser": P, "process_declarator": "C01 C07", "process_type": "C01 C07",
        "process_enum": "C06 C11", "process_function": "C01 C14", "packing_at": "C08", "process_struct": "C07 C08 C01", "process_variable": "C01 C05", "process_typedef": "C01 C02",
        "eval_expr": "C05 C15 C06", "eval": "C05 C15 C03", "add_def": "C11 C12 C29", "rem_def": "C03 C11 C12", "is_fund_type": "C26 C02", "eval_type": "C02 C20", "find": "C11 C30",
        "find_text": "C30", "c_div": "C05", "c_mod": "C05", "CDivision": "C05", "kwl": P, "flatten": P, "recombine": P, "int_strip": "C05 C03", "_init_cparser": "C26 " + P, None: P + " C03 C26 C16"},
    "pyclibrary/c_library.py": {"CLibraryMeta": "C21 C24 C23", "CLibrary": "C19 C20 C17 C18 C22 C21 C12 C25", "CFunction": "C17 C18 C22 C20", "CallResult": "C18 C17", None: "C25 C17 C20"},
    "pyclibrary/backends/ctypes.py": {None: "C16 C09 C17 C18 C25 C20 C26 C21"},
    "pyclibrary/utils.py": {"get_arch": "C24", "get_shared_library_arch": "C24", "LibraryPath": "C24 C23", None: "C23 C24"},
    "pyclibrary/init.py": {None: "C26"},
    "pyclibrary/thirdparty/find_library.py": {None: "C23"},
}
SKIP = {"win_defs", "pretty_signature", "__repr__", "check_output", "print_parse_results"}


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(n, new, where):
        a, b = seg(n)
        out.append((a, b, new, n.lineno, where))

    def visit(n, where):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP and n.name != "__repr__":
                return
            where = where + [n.name]
        t = lambda x: raw[seg(x)[0]:seg(x)[1]].decode()  # noqa
        if isinstance(n, ast.Call) and ("logger" in t(n.func) or t(n.func) == "print"):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Assign) and t(n.targets[0]) in ("machine_types", "mess", "m", "msg", "__all__") and (t(n.targets[0]) != "m" or "{}" in t(n)):
            return
        if isinstance(n, (ast.If, ast.IfExp)) and ("win32" in t(n.test) or "darwin" in t(n.test)) or isinstance(n, ast.Raise) and "NotImplementedError" in t(n):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            put(n, "(%s %s %s)" % (t(n.left), sw[type(n.ops[0])], t(n.comparators[0])), where)
        if isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join("(%s)" % t(v) for v in n.values) + ")", where)
            for v in n.values:
                put(n, "(" + (" and " if w == " or " else " or ").join("(%s)" % t(x) for x in n.values if x is not v) + ")", where)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % t(n.operand), where)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", where), put(n.test, "False", where)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, "(%d)" % (n.value + 1), where)
            put(n, "(%d)" % (n.value - 1), where)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), where)
        if isinstance(n, ast.Constant) and type(n.value) is str and len(n.value) > 0 and where:
            put(n, "'zqz'", where)
        if isinstance(n, ast.Constant) and type(n.value) is str and any(c in n.value for c in "+*?|") and len(n.value) > 3:
            s = n.value
            for i, c in enumerate(s):
                if c in "+*?" and i and s[i - 1] != "\\":
                    put(n, repr(s[:i] + s[i + 1:]), where)
                    if c in "*+":
                        put(n, repr(s[:i] + ("+" if c == "*" else "*") + s[i + 1:]), where)
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.BitOr, ast.Add)):
                put(n, t(n.left), where), put(n, t(n.right), where)
            if isinstance(n.op, (ast.Sub,)):
                put(n, t(n.left), where)
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", where)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and "logger" not in t(n) and where:
            put(n, "pass", where)
        if isinstance(n, ast.Break):
            put(n, "pass", where)
        if isinstance(n, ast.Continue):
            put(n, "pass", where), put(n, "break", where)
        if isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            for i, e in enumerate(n.elts):
                x = ", ".join(t(y) for y in n.elts if y is not e)
                put(n, {ast.List: "[%s]", ast.Tuple: "(%s,)", ast.Set: "{%s}"}[type(n)] % x, where)
        if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(len(n.keys)):
                put(n, "{%s}" % ", ".join("%s: %s" % (t(k), t(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i), where)
        if isinstance(n, ast.Call):
            f = t(n.func)
            if f in ("Optional", "ZeroOrMore", "OneOrMore", "Keyword", "Group") and n.args:
                for g in {"Optional", "ZeroOrMore", "OneOrMore"} & {f} and {"Optional", "ZeroOrMore", "OneOrMore"} - {f} or set():
                    if len(n.args) == 1 and not n.keywords:
                        put(n.func, g, where)
            if f.endswith((".strip", ".copy")) and not n.args:
                put(n, f.rsplit(".", 1)[0], where)
            if f in ("deepcopy", "list", "dict", "sorted", "re.escape", "tuple") and len(n.args) == 1 and not n.keywords:
                put(n, "(%s)" % t(n.args[0]), where)
            for kw in n.keywords:
                if kw.arg:
                    pass
        for c in ast.iter_child_nodes(n):
            visit(c, where)
    visit(ast.parse(src), [])
    res = []
    for a, b, new, line, where in out:
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(s, path, "exec")
        except SyntaxError:
            continue
        res.append((s, line, raw[a:b].decode(), new, where))
    return res


SHARDS = 5


def main(out, count, seed, *files):
    if not os.environ.get("SHARD"):
        ps = [subprocess.Popen([sys.executable, __file__, out, count, seed, *files], env=dict(os.environ, SHARD=str(i))) for i in range(SHARDS)]
        for p in ps:
            p.wait()
        return
    shard = int(os.environ["SHARD"])
    rng = random.Random(int(seed))
    done = set()
    if os.path.exists(out):
        for x in open(out):
            r = json.loads(x)
            done.add((r["file"], r["line"], r["old"], r["new"]))
    todo = []
    for f in files or CHECKS:
        todo += [(f, *m) for m in mutants(os.path.join("/repo", f))]
    rng.shuffle(todo)
    todo = todo[:int(count)][shard::SHARDS]
    d = copy()
    n = 0
    try:
        for f, src, line, old, new, where in todo:
            if n >= int(count):
                break
            if (f, line, old, new) in done:
                continue
            n += 1
            p = os.path.join(d, f)
            keep = open(p).read()
            open(p, "w").write(src)
            r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], d, timeout=200)
            res, used = "tests", []
            if r.returncode == 0:
                m = CHECKS[f]
                names = next((m[w] for w in where if w in m), m[None])
                res = "SURVIVED"
                for c in names.split():
                    used.append(c)
                    r = sh(["./check.py", c], V, {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_WORKERS": "2", "VERIF_SCALE": "0.5"})
                    if r.returncode == 1:
                        res = c
                        break
                    if r.returncode != 0:
                        res = "exit %d %s" % (r.returncode, c)
                        break
            open(p, "w").write(keep)
            with open(out, "a") as fo:
                fo.write(json.dumps({"file": f, "line": line, "where": where, "old": old, "new": new, "res": res, "used": used}) + "\n")
            if res != "tests":
                print(f, line, "/".join(where), "|", " ".join(old.split())[:100], "->", new[:100], "|", res, used, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main(*sys.argv[1:])
