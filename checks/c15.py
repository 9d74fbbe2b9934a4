"""Two kinds of headers.  (a) expressions of the host language (calls, attributes,
subscripts, comprehensions... over builtins, modules, literals and a probe object
published as a builtin) in every place where the parser evaluates text; an audit hook,
the captured output and the probe tell whether anything of the host was used, and no
such expression may get a value.  (b) headers whose own names are those of Python
builtins, modules and keywords: they behave as the same header with neutral names."""
import builtins, contextlib, io, json, keyword, os, re, sys
from hypothesis import strategies as st
from vlib import c, sut
from vlib.core import HarnessError, Part, Violation
import pyclibrary.c_parser as module

ARMED = [None]
EVENTS = []
MODULES = ["antigravity", "this", "turtle", "cmd", "zq_evil_mod", "sndhdr", "tkinter"]
BAD = re.compile(r"os\.(system|exec|fork|forkpty|posix_spawn|spawn|remove|rename|mkdir|rmdir|chmod|chown|link|symlink|kill|killpg|putenv|unsetenv|listdir|scandir|truncate|utime|chdir|startfile|walk)"
                 r"|subprocess\.|socket\.|shutil\.|tempfile\.|pty\.|builtins\.(input|breakpoint)|urllib\.|ctypes\.dlopen|webbrowser\.|code\.__new__|time\.sleep|signal\.|glob\.|http\.|ftplib\.")


def hook(event, args):
    d = ARMED[0]
    if d is None:
        return
    if event == "open":
        path, mode = str(args[0]), args[1]
        if d in path and not path.endswith(".h") or isinstance(mode, str) and set(mode) & set("wax+"):
            EVENTS.append((event, path, mode))
    elif event == "import":
        if args[0] in MODULES:
            EVENTS.append((event, args[0]))
    elif BAD.match(event):
        EVENTS.append((event, str(args)[:200]))


sys.addaudithook(hook)


class Probe:
    """Records every use of it."""


def record(name):
    def method(self, *args, **kw):
        if ARMED[0] is not None:
            EVENTS.append(("probe", name))
        return 4242
    return method


for _n in ("call", "getattr", "getitem", "add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod",
           "and", "rand", "or", "ror", "xor", "rxor", "lshift", "rlshift", "rshift", "rrshift", "neg", "pos", "invert", "int", "index", "bool", "len", "iter", "eq", "lt", "gt", "contains"):
    setattr(Probe, "__%s__" % _n, record(_n))
Probe.__hash__ = lambda self: 1
PROBE = Probe()

NAMES = ["len", "abs", "print", "open", "exit", "quit", "eval", "exec", "compile", "__import__", "input", "id", "type", "vars", "dir", "globals", "locals", "getattr",
         "str", "int_", "list", "dict", "max", "min", "sum", "os", "sys", "re", "subprocess", "self", "logging", "help", "breakpoint", "memoryview", "copyright", "license",
         "__builtins__", "__name__", "__file__", "__debug__", "Ellipsis", "NotImplemented", "zq_probe", "zq_probe", "zq_probe", "CParser", "logger", "c_div", "c_mod", "number"]
# Python reads these as len, print, open... (NFKC normalisation)
WIDE = lambda t: "".join(chr(ord(ch) + 0xfee0) for ch in t)       # noqa
NAMES += [WIDE(x) for x in ("len", "print", "open", "exit", "eval", "zq_probe", "zq_probe", "zq_probe", "zq_probe")] + ["\uff50rint", "e\uff56al", "z\uff51_probe", "\U0001d4c1en"]
ATTRS = ["real", "__class__", "__mro__", "__subclasses__", "upper", "format", "system", "path", "__dict__", "__globals__", "join", "bit_length", "count", "defs", "exit", "zq_attr", "numerator"]


@st.composite
def lit(draw):
    return draw(st.one_of(st.integers(0, 99).map(str), st.sampled_from(['"abc"', '"zq"', "1.5", '"a" "b"', "0x10"])))


@st.composite
def host(draw, depth=2):
    """An expression which needs the host language."""
    any_ = lambda: draw(host(depth - 1)) if depth > 0 and draw(st.booleans()) else draw(lit())       # noqa
    head = lambda: draw(host(depth - 1)) if depth > 0 and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(NAMES))     # noqa
    k = draw(st.integers(0, 16))
    if k <= 2:
        return draw(st.sampled_from(NAMES))
    if k <= 5:
        return "%s(%s)" % (head(), ", ".join(any_() for _ in range(draw(st.integers(0, 2)))))
    if k == 6:
        return "%s%s%s" % (head(), draw(st.sampled_from([".", ".", "->", " . "])), draw(st.sampled_from(ATTRS)))
    if k == 7:
        return "%s[%s]" % (head(), any_())
    if k == 8:
        return "%s %s %s" % (draw(lit()), draw(st.sampled_from(["+", "*", "-", "/", "%", "|", "<<", "==", "<"])), draw(host(depth - 1)) if depth else draw(st.sampled_from(NAMES)))
    if k == 9:
        return draw(st.sampled_from(['"%s".%s' % ("abc", "upper()"), '"a,b".split(",")', '(1).__class__', '().__class__.__base__', '[].append(1)', '"{0.__class__}".format(1)',
                                     '1 .real', '"abc"[0]', '"abc"[::-1]', '(5).bit_length()', '[1, 2][0]', '{1: 2}[1]', '"".join(["a"])', "f\"{1}\"", "b'x'"]))
    if k == 10:
        return "[%s for zq in (1, 2)]" % any_()
    if k == 11:
        return "lambda zq: %s" % any_()
    if k == 12:
        return "(lambda: %s)()" % any_()
    if k == 13:
        return draw(st.sampled_from(["open(\"@/made\", \"w\")", "open(\"@/secret\")", "open(\"@/secret\").read()", "__import__(\"os\").system(\"touch @/made\")", "exec(\"import os; os.mkdir('@/made')\")",
                                     "eval(\"__import__('os').getpid()\")", "print(\"ZQPRINT\")", "__import__(\"zq_evil_mod\")", "__import__(\"this\")", "exit(3)", "quit()", "input()", "breakpoint()",
                                     "os.system(\"touch @/made\")", "__import__(\"subprocess\").run([\"true\"])", "sys.exit(1)", "os.mkdir(\"@/made\")", "().__class__.__base__.__subclasses__()",
                                     "(yield 1)", "(zq := 1)", "__builtins__[\"open\"](\"@/made\", \"w\")", "__builtins__.print(\"ZQPRINT\")", "globals()[\"zq\"]", "self.defs.clear()", "setattr(CParser, \"zq\", 1)",
                                     "await_(1)", "raise_(SystemExit)", *[WIDE("exit") + "(3)", WIDE("open") + "(\"@/made\", \"w\")", WIDE("print") + "(\"ZQPRINT\")", WIDE("zq_probe") + "(1)", WIDE("zq_probe") + " + 1"]]))
    if k == 14:
        return "1 if %s else 2" % any_()
    if k == 15:
        return "%s(*%s)" % (head(), any_())
    return "-%s" % head()


PLACES = ["macro", "macro", "macro", "var", "var", "array", "dim", "enum", "if", "elif", "fn macro", "bits", "member", "default", "dim2", "typedef dim", "arg dim", "alias"]


@st.composite
def cases(draw):
    return [[draw(st.sampled_from(PLACES)), draw(host())] for _ in range(draw(st.integers(1, 5)))]


def snapshot():
    return (sorted(vars(sut.CParser)), sorted(builtins.__dict__), len(sys.modules) and sorted(m for m in MODULES if m in sys.modules))


def run(case):
    d = sut.fresh_dir()
    with open(d + "/secret", "w") as f:
        f.write("secret")
    lines = []
    for i, (place, e) in enumerate(case):
        e = e.replace("@", d)
        n = "zq%d" % i
        lines += {"macro": ["#define %s %s" % (n, e)], "var": ["int %s = %s;" % (n, e)], "array": ["int %s[] = { %s, 1 };" % (n, e)], "dim": ["int %s[%s];" % (n, e)],
                  "enum": ["enum e%s { %s = %s };" % (n, n, e)], "if": ["#if %s" % e, "#endif"], "elif": ["#if 0", "#elif %s" % e, "#endif"],
                  "fn macro": ["#define f%s(x) %s" % (n, e), "int %s = f%s(1);" % (n, n)], "bits": ["struct s%s { int b : %s; };" % (n, e)],
                  "member": ["struct s%s { int m = %s; };" % (n, e)], "default": ["int f%s(int a = %s);" % (n, e)], "dim2": ["struct s%s { int m[%s]; };" % (n, e)],
                  "typedef dim": ["typedef int t%s[%s];" % (n, e)], "arg dim": ["int f%s(int a[%s]);" % (n, e)], "alias": ["#define a%s %s" % (n, e), "int %s = a%s;" % (n, n)]}[place]
    text = "int before;\n" + "\n".join(lines) + "\nint after;\n"
    path = sut.write(text, os.path.join(d, "x.h"))
    was = snapshot()
    hooks = [builtins.__dict__, module.__dict__, sys.modules["__main__"].__dict__]
    for h in hooks:
        h["zq_probe"] = PROBE
    out = io.StringIO()
    files = sorted(os.listdir(d))
    del EVENTS[:]
    stdout, stderr = sys.stdout, sys.stderr
    try:
        sys.stdout = sys.stderr = out
        ARMED[0] = d
        p = sut.CParser(path)
        ARMED[0] = None
        # a probe recorded as a value would answer to comparisons from now on
    except BaseException as e:
        raise Violation("parsing raised %s: %s\n%s" % (type(e).__name__, e, text))
    finally:
        ARMED[0] = None
        sys.stdout, sys.stderr = stdout, stderr
        for h in hooks:
            h.pop("zq_probe", None)
    if EVENTS:
        raise Violation("the host interpreter was used: %r\n%s" % (EVENTS[:5], text))
    if "ZQPRINT" in out.getvalue():
        raise Violation("something was printed: %r\n%s" % (out.getvalue(), text))
    if sorted(os.listdir(d)) != files:
        raise Violation("files were made: %r\n%s" % (os.listdir(d), text))
    if snapshot() != was:
        raise Violation("the interpreter was changed: %r\n%s" % (snapshot(), text))
    for i, (place, e) in enumerate(case):
        n = "zq%d" % i
        v = p.defs["values"].get(n)
        if v is not None:
            raise Violation("%s has the value %s\n%s" % (n, safe(v), text))
        if place == "dim" and n in p.defs["variables"]:
            dims(p.defs["variables"][n][1], text)
        if place == "typedef dim" and "t" + n in p.defs["types"]:
            dims(p.defs["types"]["t" + n], text)
        if place == "dim2" and "s" + n in p.defs["structs"]:
            for m in p.defs["structs"]["s" + n]["members"]:
                dims(m[1], text)
        if place == "member" and "s" + n in p.defs["structs"]:
            for m in p.defs["structs"]["s" + n]["members"]:
                if m[2] is not None:
                    raise Violation("member %s has the value %s\n%s" % (m[0], safe(m[2]), text))
    for n in ("before", "after"):
        if n not in p.defs["variables"]:
            raise Violation("%s is not recorded\n%s" % (n, text))
    sut.shutil.rmtree(d)
    return sorted({x[0] for x in case})


def safe(v):
    return repr(v) if type(v) is not Probe else "the probe"


def dims(t, text):
    for x in t[1:]:
        if isinstance(x, list) and x[0] is not None:
            raise Violation("an array has the dimension %s\n%s" % (safe(x[0]), text))


# --- (b) -------------------------------------------------------------------------------------
HOSTILE = [n for n in dir(builtins) if n.isidentifier() and not n.startswith("_") and n not in ("int", "float", "bool", "_", "copyright")] + keyword.kwlist + \
    ["os", "sys", "re", "self", "logging", "ctypes", "t", "s", "expr", "values", "parser", "ast", "toks", "args", "scope", "macro", "CParser", "logger", "match", "case", "type", "print"]
HOSTILE = sorted({n for n in HOSTILE if n not in ("if", "else", "for", "while", "continue", "break", "return")})
DUNDER = ["__name__", "__file__", "__builtins__", "__import__", "__debug__", "__doc__", "__dict__", "__class__"]
TEMPLATES = ["#define @A %d", "#define @A @M + %d", "int @A = %d;", "static const int @A = @V * 2 + %d;", "int @A[] = { %d, @V };", "enum @A { e@U, f@U = %d };", "enum g@U { @A = %d, h@U };",
             "struct @A { int @B; char *@C[%d]; };", "typedef int @A;", "int @A(int @B, char *@C);", "#define @A(@B) (@B + %d)", "int @A(void) { return @V; }", "union @A { int x : 3; };",
             "#if defined(@A)\nint x@U;\n#else\nint y@U;\n#endif", "#if @A == 0\nint x@U;\n#endif", "#ifdef @M\nint z@U;\n#endif", "#if @M > %d\nint w@U;\n#endif", "#undef @M", "int @A = @Z;", "#define @A @Z",
             "int @A[@V];", "typedef struct @A @B;", "#define @A \"@V\"", "extern const char *@A;", "#if @Z || @Z + 1 > 1\nint v@U;\n#endif", "#if !@Z && @Z < 1\nint u@U;\n#endif"]


@st.composite
def neutral(draw):
    names = draw(st.permutations(HOSTILE + [n for n in DUNDER if draw(st.booleans())]))
    return {"items": [[draw(st.integers(0, len(TEMPLATES) - 1)), draw(st.integers(1, 9)), draw(st.integers(0, 9))] for _ in range(draw(st.integers(2, 9)))], "names": list(names)[:45]}


def build(case, table):
    """Header text; table maps the number of a name to its spelling."""
    lines, used, macros, variables = [], 0, [], []
    pool = [i for i, n in enumerate(case["names"]) if not n.startswith("__")]
    dunder = [i for i, n in enumerate(case["names"]) if n.startswith("__")]
    for u, (k, v, sel) in enumerate(case["items"]):
        t = TEMPLATES[k]
        if "@M" in t and not macros or "@V" in t and not variables:
            continue
        macro_only = t.startswith("#define @A")
        new = {}
        for x in "ABC":
            if "@" + x in t:
                src = dunder if macro_only and x == "A" and dunder and sel == 0 else pool
                if not src:
                    return None
                new[x] = src.pop(0)
        if "@Z" in t:
            new["Z"] = (dunder or pool)[-1] if sel % 2 and dunder else pool[-1]
        if "@M" in t:
            new["M"] = macros[sel % len(macros)]
        if "@V" in t:
            new["V"] = variables[sel % len(variables)]
        for x, i in new.items():
            t = t.replace("@" + x, table[i])
        t = t.replace("@U", "_%d" % u)
        if t.startswith("#undef"):
            macros = [m for m in macros if m != new["M"]]
        elif TEMPLATES[k] in ("#define @A %d",):
            macros.append(new["A"])
        elif TEMPLATES[k] == "int @A = %d;":
            variables.append(new["A"])
        lines.append(t % v if "%d" in t else t)
    return "\n".join(lines) + "\n"


def run_neutral(case):
    table = case["names"]
    other = ["nn%d_" % i for i in range(len(table))]
    a, b = build(case, table), build(case, other)
    if a is None or not a.strip():
        return False
    p, q = sut.parse(a), sut.parse(b)
    back = dict(zip(other, table))
    word = re.compile(r"nn\d+_")
    want = {k: {rename(n, word, back): v for n, v in d.items()} for k, d in c.norm_defs(q.defs).items()}
    want = json.loads(word.sub(lambda m: back[m.group()], json.dumps(want, sort_keys=True, default=repr)))
    got = json.loads(json.dumps(c.norm_defs(p.defs), sort_keys=True, default=repr))
    # what the host language cannot spell may have no value
    kw = set(keyword.kwlist) & set(table)
    for k in ("values", "variables"):
        for n in list(want[k]):
            if n in got[k] and (k == "values" and got[k][n] is None or k == "variables" and got[k][n][0] is None) and kw & set(re.findall(r"\w+", a)):
                want[k][n] = got[k][n]
    if kw & set(re.findall(r"\w+", a)):      # dimensions given by such a name
        want, got = [json.loads(re.sub(r"\[\"\[\]\", (null|\d+)\]", '["[]", 0]', json.dumps(x))) for x in (want, got)]
    d = c.diff(want, got)
    if d:
        raise Violation("differs from the header with other names: %s\n--- header\n%s--- with other names\n%s" % (d, a, b))
    return ["names"]


def rename(n, word, back):
    return word.sub(lambda m: back[m.group()], n)


PARTS = [Part("host expressions", cases(), run, 1500, rule="all: every case has an expression of the host language"),
         Part("names", neutral(), run_neutral, 900, rule="non-trivial: the header is not empty")]
