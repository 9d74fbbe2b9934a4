"""Headers of macros, initialised variables, arrays and array dimensions whose constant
expressions refer to earlier constants; every recorded value is compared with
the one gcc computes when the same lines are compiled.  Expressions which cannot
be computed (unknown names, calls, C-only operators, code) must give no value.
Cases where C itself would overflow or change a value in a cast are set aside."""
import ast, re
from hypothesis import strategies as st
from vlib import real, sut
from vlib.core import Part, Violation, HarnessError

LIM = 2 ** 31


class Out(Exception):
    pass


class V:
    """C integer constant; raises Out where C overflows or turns unsigned."""

    def __init__(self, v, u=False):
        if not -LIM <= v < LIM or u and v < 0:
            raise Out
        self.v, self.u = v, u

    def op(self, o, f, div=False):
        if isinstance(o, float):
            return f(float(self.v), o)
        if not isinstance(o, V) or self.u != o.u and (self.v < 0 or o.v < 0):
            raise Out
        return V(f(self.v, o.v), self.u or o.u)

    def __add__(self, o): return self.op(o, lambda a, b: a + b)
    def __sub__(self, o): return self.op(o, lambda a, b: a - b)
    def __mul__(self, o): return self.op(o, lambda a, b: a * b)
    def __and__(self, o): return self.op(o, lambda a, b: a & b)
    def __or__(self, o): return self.op(o, lambda a, b: a | b)
    def __xor__(self, o): return self.op(o, lambda a, b: a ^ b)
    def __radd__(self, o): return o + float(self.v)
    def __rsub__(self, o): return o - float(self.v)
    def __rmul__(self, o): return o * float(self.v)
    def __neg__(self): return V(-self.v, self.u)
    def __pos__(self): return self
    def __invert__(self): return V(~self.v, self.u)

    def __rtruediv__(self, o):
        if self.v == 0:
            raise Out
        return o / float(self.v)

    def __truediv__(self, o):
        if isinstance(o, float):
            if o == 0:
                raise Out
            return float(self.v) / o
        if o.v == 0:
            raise Out
        q = abs(self.v) // abs(o.v)
        return self.op(o, lambda a, b: q if (a < 0) == (b < 0) else -q)

    def __mod__(self, o):
        return self - o * (self / o)

    def __lshift__(self, o):
        if self.v < 0 or not 0 <= o.v < 20:
            raise Out
        return V(self.v << o.v, self.u)

    def __rshift__(self, o):
        if not 0 <= o.v < 20:
            raise Out
        return V(self.v >> o.v, self.u)


class Cast:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __pow__(self, v):
        if not isinstance(v, V) or not self.lo <= v.v < self.hi:
            raise Out
        return V(v.v)


CASTS = {"int": (-LIM, LIM), "long": (-LIM, LIM), "short": (-2 ** 15, 2 ** 15), "unsigned char": (0, 256),
         "signed char": (-128, 128), "long long": (-LIM, LIM), "MyT": (-LIM, LIM), "int32_t": (-LIM, LIM),
         "const int": (-LIM, LIM)}


def py_eval(text, env):
    """Value by C rules, or raise Out."""
    ns = {n: v for n, v in env.items() if not isinstance(v, str)}
    for i, (t, r) in enumerate(CASTS.items()):
        text = re.sub(r"\(\s*%s\s*\)" % t.replace(" ", r"\s+"), " CAST%d**" % i, text)
        ns["CAST%d" % i] = Cast(*r)

    def lit(m):
        s = m.group(0)
        if re.match(r"CAST|[A-Za-z_]", s):
            return s
        if re.search(r"[.]|[eE]", s) and not s.lower().startswith("0x"):
            return "(%s)" % s.rstrip("fFlL")
        u = "u" in s.lower()
        b = s.rstrip("uUlL")
        v = int(b, 16) if b.lower().startswith("0x") else int(b, 8) if b.startswith("0") and len(b) > 1 else int(b)
        return "V(%d,%s)" % (v, u)
    text = re.sub(r"[A-Za-z_]\w*|0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?[uUlLfF]*", lit, text)
    ns["V"], ns["True"], ns["False"] = V, True, False
    try:
        r = eval(text, {"__builtins__": {}}, ns)
    except Out:
        raise
    except ZeroDivisionError:
        raise Out
    except RecursionError:
        raise Out
    if isinstance(r, float) and (r != r or abs(r) > 1e300):
        raise Out
    return r


# --- generation -----------------------------------------------------------------
@st.composite
def int_lit(draw):
    n = draw(st.one_of(st.integers(0, 9), st.integers(0, 300), st.sampled_from([0, 1, 2, 255, 256, 65535, 2 ** 20])))
    f = draw(st.sampled_from(["%d"] * 5 + ["0x%x", "0X%X", "0%o", "%dU", "%dL", "%dul", "%dll", "%dULL", "0x%xu", "0%oL", "%dl", "%dLu", "0x%XUL"]))
    s = f % n
    return "0" if s == "00" else s


DYADIC = ["1.5f", "0.25F", "2.f", ".5f", "1e2f", "0.75L", "3.0l", "12.5", "0.5e1"]
DOUBLES = ["0.1", "3.14159", "1e-3", "2.5e+2", "1.", ".125", "10.25", "6.02E3", "100.0", "1e10", "007.5", "12345.678"]

PREC = {"|": 1, "^": 2, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}


@st.composite
def expr(draw, names, depth=3, prec=0, lits=None, ops=None, casts=True):
    k = draw(st.integers(0, 9)) if depth else draw(st.integers(0, 3))
    if k <= 2:
        return draw(int_lit() if lits is None else st.sampled_from(lits))
    if k == 3:
        return draw(st.sampled_from(names)) if names else draw(int_lit() if lits is None else st.sampled_from(lits))
    if k == 4:
        e = draw(expr(names, depth - 1, 0, lits, ops, casts))
        return "(%s)" % e
    if k == 5:
        op = draw(st.sampled_from("-+~" if lits is None else "-+"))
        e = draw(expr(names, depth - 1, 7, lits, ops, casts))
        return op + (" " if e[0] in "+-" else draw(st.sampled_from(["", " "]))) + e
    if k == 6 and casts and lits is None:
        t = draw(st.sampled_from(sorted(CASTS)))
        if casts == "named":
            t = draw(st.sampled_from(["MyT", "int", "long", "unsigned char"]))
        inner = draw(st.one_of(int_lit(), st.sampled_from(names) if names else int_lit(),
                               expr(names, depth - 1, 0, lits, ops, casts).map("({})".format)))
        return "(%s)%s%s" % (t, draw(st.sampled_from(["", " "])), inner)
    op = draw(st.sampled_from(ops or ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "+", "-", "*"]))
    p = PREC[op]
    a = draw(expr(names, depth - 1, p, lits, ops, casts))
    if op in ("<<", ">>"):
        b = str(draw(st.integers(0, 6)))
    else:
        b = draw(expr(names, depth - 1, p + 1, lits, ops, casts))
    sp = draw(st.sampled_from([" ", " ", ""]))
    if sp == "" and (b[0] in "+-~" or op in "&/*" or a[-1] in "eE"):      # 0x1E-1 is a single token
        sp = " "
    s = a + sp + op + sp + b
    return "(%s)" % s if p < prec else s


STRINGS = ['"abc"', '""', '"a b"', '"tab\\tnl\\n"', '"q\\"q"', '"back\\\\slash"', '"oct\\101"', '"hex\\x41!"', '"a" "b"', '"it\'s"',
           '"/* c */"', '"// x"', '"NA + 1"', '"%d {}"', '"one" "" "two"', '"nul\\0"', '"\\?\\?="', '"\\x041"', '"\\x4" "1"', '"\\e[0m"', '"\\1234"', '"\\x7f\\177"']
PIECES = ["a", "  ", " ", "\t", "(int)1", "10L", "010", "1.5f", ";", ",", "{}", "(", ")", "#", "\\\"", "\\\\", "'", "NA", "*/", "//", "sizeof(int)", "0x1Fu", "\\n", "%s", "/", "\\?", "\\x007z", "\\e", "\\17"]
strings_st = st.one_of(st.sampled_from(STRINGS), st.lists(st.sampled_from(PIECES), max_size=5).map(lambda x: '"%s"' % "".join(x)))
NOT_VALUES = ["unknown_x", "unknown_x + 1", "sizeof(int)", "fn(1)", "fn (1, 2)", "1 +", "(1", "1 2", "1 ? 2 : 3", "!1", "1 && 0",
              "1 || 0", "do { x; } while (0)", "__attribute__((packed))", "int", "unsigned long", "x.y", "struct s", "{ 1, 2 }",
              "extern \"C\" {", "L\"abc\"", "@", "1 / 0", "5 % 0", "print", "len", "str", "__import__(\"os\")", "None", "True", "...",
              "abs(-3)", "1 is 1", "not 1", "a->b", "&x", "*p", "1; 2", "int x", "\"a\"[0]", "static const", "return 1", "lambda", "x = 3",
              "open(\"f\")", "(1, 2)", "1.real", "\"a\" . \"b\"", "0b", "09", "2 ** 3", "f\"x\"", "defined(X)"]

ESCAPES = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "e": "\x1b"}


def c_string(text):
    """The characters of adjacent string literals."""
    def esc(m):
        x = m.group(1)
        return chr(int(x[1:], 16)) if x[0] == "x" else chr(int(x, 8)) if x[0] in "01234567" else ESCAPES.get(x, x)
    return "".join(re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", esc, lit[1:-1]) for lit in re.findall(r'"(?:\\.|[^"\\])*"', text))


NOT_INIT = ["unknown_x", "unknown_x + 1", "fn(1)", "fn (1, 2)", "1 ? 2 : 3", "!1", "1 && 0", "1 || 0", "&x", "*p", "1 / 0", "5 % 0",
            "len", "str", "None", "True", "abs(-3)", "a->b", "arr[2]", "print(1)", "max", "x.y", "unknown_x * 2 + len"]


@st.composite
def cases(draw):
    items, ints, floats = [], [], []
    minfs, mfs = [], []         # constants known when the macros are read
    n = split = 0
    for _ in range(draw(st.integers(2, 8))):
        if split == 0 and n > 1 and draw(st.integers(0, 4)) == 0:
            split, minfs, mfs = n, list(ints), list(floats)      # the rest goes to a second file
        k = draw(st.sampled_from(["macro"] * 4 + ["var", "var", "arr", "dim", "fmacro", "fvar", "str", "svar", "none", "none", "nvar", "big"]))
        n += 1
        name = draw(st.sampled_from(["K%d", "K_%d_U", "kL%d", "max%d", "e%d", "x%dF", "A%d", "new%d", "sizeof_%d"])) % n
        if k == "macro":
            items.append([k, name, draw(expr(minfs))])
            ints.append(name)
            minfs.append(name)
        elif k == "var":
            items.append([k, name, draw(expr(ints, 2, casts="named")),
                          draw(st.sampled_from(["int", "const int", "static const long", "extern const int32_t"]))])
            ints.append(name)
        elif k == "arr":
            items.append([k, name, draw(st.lists(expr(ints, 2, casts="named"), min_size=1, max_size=4))])
        elif k == "dim":
            items.append([k, name, draw(st.lists(expr(ints, 2, casts="named"), min_size=1, max_size=2))])
        elif k == "fmacro":
            lits = draw(st.sampled_from([DYADIC, DOUBLES]))
            items.append([k, name, draw(expr([x for x in mfs if lits is DOUBLES], 2, 0, lits, ["+", "-", "*"]))])
            floats.append(name)
            mfs.append(name)
        elif k == "fvar":
            items.append([k, name, draw(expr([x for x in floats], 2, 0, DOUBLES, ["+", "-", "*", "/"]))])
            floats.append(name)
        elif k in ("str", "svar"):
            items.append([k, name, draw(strings_st)])
        elif k == "big":
            v = draw(st.integers(0, 2 ** 64 - 1) | st.sampled_from([2 ** 32 - 1, 2 ** 63, 2 ** 31, 2 ** 64 - 1]))
            items.append([k, name, draw(st.sampled_from(["0x%x", "0x%XULL", "%dULL", "%dull", "0%oULL"])) % v])
        else:
            items.append([k, name, draw(st.sampled_from(NOT_VALUES if k == "none" else NOT_INIT))])
    return {"items": items, "split": split}


def c_type(kind):
    return {"macro": "ll", "var": "ll", "fmacro": "d", "fvar": "d", "str": "s", "svar": "s", "big": "u"}.get(kind)


def run(case):
    # 1. drop what C itself does not define
    env, keep, dead = {}, [], set()
    macros = {}
    for it in case["items"]:
        kind, name = it[0], it[1]
        try:
            texts = it[2] if isinstance(it[2], list) else [it[2]]
            if kind in ("macro", "var", "arr", "dim", "fmacro", "fvar"):
                vals = []
                for t in texts:
                    if any(re.search(r"\b%s\b" % d, t) for d in dead):
                        raise Out
                    prev = None
                    while prev != t:
                        prev = t
                        t = re.sub(r"(?<![\w.])[A-Za-z_]\w*", lambda m: macros.get(m.group(0), m.group(0)), t)
                    vals.append(py_eval(t, env))
                if kind == "dim":
                    if any(not isinstance(v, V) or not 1 <= v.v <= 300 for v in vals):
                        raise Out
                elif kind in ("macro", "fmacro"):
                    macros[name] = texts[0]
                elif kind != "arr":
                    if kind == "var" and not isinstance(vals[0], V):
                        raise Out
                    env[name] = vals[0] if kind == "fvar" else V(vals[0].v)
            keep.append(it)
        except Out:
            dead.add(name)
        except (SyntaxError, NameError, TypeError) as e:
            raise HarnessError("model: %r on %r" % (e, it))
    if not keep:
        return False
    # 2. the header and the C program printing the values
    head, prog, prints = [], [], []
    for it in keep:
        kind, name, t = it[0], it[1], it[2]
        if kind in ("macro", "fmacro", "str", "big"):
            line = "#define %s %s" % (name, t)
        elif kind == "var":
            line = "%s %s = %s;" % (it[3], name, t)
        elif kind == "fvar":
            line = "const double %s = %s;" % (name, t)
        elif kind == "svar":
            line = "const char *%s = %s;" % (name, t)
        elif kind == "arr":
            line = "int %s[] = {%s};" % (name, ", ".join(t))
        elif kind == "dim":
            line = "int %s%s;" % (name, "".join("[%s]" % x for x in t))
        elif kind == "nvar":
            line = "int %s = %s;" % (name, t)
        else:
            line = "#define %s %s" % (name, t)
        head.append(line)
        if kind in ("none", "nvar"):
            continue
        prog.append(re.sub("^(extern|static) ", "", line))
        if kind in ("macro", "var"):
            prints.append('printf("%%lld\\n", (long long)(%s));' % name)
        elif kind in ("fmacro", "fvar"):
            prints.append('printf("%%a\\n", (double)(%s));' % name)
        elif kind in ("str", "svar"):
            prints.append('{ const char s[] = %s; size_t n = sizeof(s) - 1; printf("s"); for (size_t i = 0; i < n; i++) printf("%%02x", (unsigned char)s[i]); printf("\\n"); }' % t)
        elif kind == "arr":
            prints.append('for (size_t i = 0; i < sizeof(%s) / sizeof(int); i++) printf("%%d ", %s[i]); printf("\\n");' % (name, name))
        elif kind == "dim":
            prints.append('printf("%%lld %%lld\\n", (long long)sizeof(%s), (long long)sizeof(%s[0]));' % (name, name))
        elif kind == "big":
            prints.append('printf("%%llu\\n", (unsigned long long)(%s));' % name)
    out = sut.fresh(".exe")
    src = "#include <stdio.h>\n#include <stddef.h>\n#include <stdint.h>\ntypedef long MyT;\nint main(void) {\n" + \
        "\n".join(prog) + "\n" + "\n".join(prints) + "\nreturn 0; }\n"
    sut.gcc(["-x", "c", "-O0", "-o", out, "-"], src)
    lines = iter(sut.run([out]).stdout.split("\n"))
    sut.os.unlink(out)
    # 3. what is recorded
    cut = sum(1 for it in keep if it in case["items"][:case["split"]])
    texts = ["typedef long MyT;\n" + "\n".join(head[:cut]) + "\n", "\n".join(head[cut:]) + "\n"]
    paths = [sut.write(t) for t in (texts if case["split"] else ["".join(texts)])]
    p = sut.CParser(paths)
    for q in paths:
        sut.os.unlink(q)
    text = "// next file\n".join(texts)
    labels = {"files-%d" % len(paths)}
    for it in keep:
        kind, name, t = it[0], it[1], it[2]
        labels.add(kind)
        if kind == "dim":
            size, sub = map(int, next(lines).split())
            dims = [size // sub, sub // 4] if len(t) == 2 else [size // 4]
            got = [d[0] for d in p.defs["variables"][name][1][1:]]
            if got != dims or any(type(g) is not int for g in got):
                raise Violation("%s: dimensions %r, expected %r\n%s" % (name, got, dims, text))
            continue
        if kind in ("none", "nvar"):
            exp = None
        else:
            ln = next(lines)
            exp = [int(x) for x in ln.split()] if kind == "arr" else float.fromhex(ln) if kind in ("fmacro", "fvar") \
                else bytes.fromhex(ln[1:]).decode("latin1") if kind in ("str", "svar") else int(ln)
        if name not in p.defs["values"]:
            raise Violation("%s has no entry in values\n%s" % (name, text))
        got = p.defs["values"][name]
        ok = got == exp and isinstance(got, str) == isinstance(exp, str)
        if kind in ("macro", "var", "big"):
            ok = ok and isinstance(got, int)
        if exp is None:
            ok = got is None
        if not ok:
            raise Violation("%s %s is %r, expected %r\n%s" % (kind, name, got, exp, text))
        if kind in ("var", "fvar", "svar", "arr", "nvar"):
            if p.defs["variables"][name][0] != exp:
                raise Violation("variable %s is %r, expected %r" % (name, p.defs["variables"][name][0], exp))
    refs = any(re.search(r"\b%s\b" % a[1], str(b[2])) for a in keep for b in keep if a is not b)
    if refs:
        labels.add("refers to earlier constants")
    return sorted(labels)


# --- histories of definitions of a few names ----------------------------------------------
TEXTS = [("7", 7), ("0x10", 16), ("010", 8), ("0", 0), ("-3", -3), ("1.5", 1.5), ("(2 + 3) * 2", 10), ("9 / 2", 4), ("5UL", 5), ("~0", -1),
         ("some text", None), ("sizeof(int)", None), ("1 +", None), ("fn(1)", None), ("unknown_n", None), ("{ 1 }", None), ("1 / 0", None), ("do { } while (0)", None)]


@st.composite
def histories(draw):
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        steps.append([draw(st.integers(0, 1)), draw(st.sampled_from(["define", "define", "redefine", "function"])), draw(st.integers(0, len(TEXTS) - 1)),
                      draw(st.integers(0, 3)) == 0])
    return steps


def run_histories(steps):
    texts, kinds, vals = [[]], {}, {}
    for i, k, v, cut in steps:
        if cut:
            texts.append([])
        n, t = "HX%d" % i, TEXTS[v]
        if k == "redefine" or kinds.get(n) == "function":
            texts[-1].append("#undef " + n)
            kinds.pop(n, None)
        if k == "function":
            if n in kinds:
                texts[-1].append("#undef " + n)
            texts[-1].append("#define %s(x) (x + %s)" % (n, t[0]))
            kinds[n] = "function"
        else:
            texts[-1].append("#define %s%s" % (n, " " + t[0]))
            kinds[n], vals[n] = "object", t
    text = "\n// next file\n".join("\n".join(x) for x in texts)
    paths = [sut.write("\n".join(x) + "\n") for x in texts]
    p = sut.CParser(paths)
    for q in paths:
        sut.os.unlink(q)
    for n, k in kinds.items():
        if k == "function":
            if n in p.defs["macros"] or n not in p.defs["fnmacros"]:
                raise Violation("%s is not recorded as a function-like macro only\n%s" % (n, text))
            continue
        want = vals[n]
        got = p.defs["values"].get(n, "nothing")
        if n in p.defs["fnmacros"] or p.defs["macros"].get(n, "").split() != want[0].split():
            raise Violation("text of %s: %r, expected %r\n%s" % (n, p.defs["macros"].get(n), want[0], text))
        if got != want[1] or type(got) is not type(want[1]):
            raise Violation("%s is %r, expected %r\n%s" % (n, got, want[1], text))
    return ["redefined"] if len(steps) > len({x[0] for x in steps}) else False


# --- operators of every priority, comparisons included --------------------------------------
CMP = ["<", ">", "<=", ">=", "==", "!="]
BINARY = ["+", "-", "*", "<<", ">>", "&", "|", "^", "/", "%", "&&", "||"] + CMP


@st.composite
def flat(draw, names, d=2):
    """Operators without parenthesis, as they come."""
    out, n = "", draw(st.integers(1, 5))
    op = ""
    for i in range(n):
        if op in ("<<", ">>", "/", "%"):
            out += str(draw(st.integers(1, 3)))
        else:
            k = draw(st.integers(0, 7 if d else 5))
            out += draw(st.sampled_from([""] * 6 + ["-", "~", "+", "!"])) if k < 6 or draw(st.booleans()) else ""
            out += str(draw(st.integers(0, 9))) if k < 4 or k < 6 and not names else draw(st.sampled_from(names)) if k < 6 else "(%s)" % draw(flat(names, d - 1))
        if i < n - 1:
            op = draw(st.sampled_from([o for o in BINARY if op not in ("<<", ">>") or o in CMP + ["&", "|", "^", "<<", ">>", "&&", "||"]]))
            out += " %s " % op
    return out


@st.composite
def comparisons(draw):
    items, names = [], []
    for i in range(draw(st.integers(1, 6))):
        n = "Q%d" % i
        if draw(st.booleans()):
            e, must = draw(flat(names)), False
        else:
            a, b = ("(%s)" % x if re.search(r"[&|^]", x) else x for x in (draw(expr([], 1, casts=False)), draw(expr([], 1, casts=False))))
            e, must = "%s %s %s" % (a, draw(st.sampled_from(CMP)), b), True
            if draw(st.booleans()):
                e = "(%s)" % e
                if draw(st.booleans()):
                    e += draw(st.sampled_from([" + 1", " * 3", " << 2", " == 1", " | 4"]))
        e = re.sub(r"(?<=[0-9a-fA-FlL])[uU]", "", e)        # comparisons of signed and unsigned wrap around
        if draw(st.booleans()):
            items.append(["#define %s (%s)" % (n, e) if draw(st.booleans()) else "#define %s %s" % (n, e), must])
        else:
            items.append(["int %s = %s;" % (n, e), must])
            names.append(n)
    return items


def run_comparisons(items):
    text = "".join(x + "\n" for x, _ in items)
    prog = text.replace("int Q", "const int Q")
    src = "#include <stdio.h>\nint main(void) {\n%s%sreturn 0; }\n" % (prog, "".join('printf("%%lld\\n", (long long)(Q%d));\n' % i for i in range(len(items))))
    out = sut.fresh(".exe")
    # what gcc computes itself is not seen by the sanitizer
    r = sut.run(["gcc", "-x", "c", "-O0", "-Woverflow", "-Wdiv-by-zero", "-fsanitize=undefined", "-o", out, "-"], src)
    if r.returncode:
        raise HarnessError(r.stderr + src)
    if re.search(r"\[-W(overflow|div-by-zero|shift)", r.stderr):
        sut.os.unlink(out)
        return False
    r = sut.run([out])
    sut.os.unlink(out)
    if r.returncode or "runtime error" in r.stderr:
        return False
    p = sut.parse(text)
    kinds = set()
    for i, ((line, must), want) in enumerate(zip(items, r.stdout.split())):
        got = p.defs["values"].get("Q%d" % i, "nothing")
        if got is None and not must:
            continue
        if isinstance(got, (int, bool)) and got == int(want):
            kinds.add("computed" if must else "computed though flat")
            continue
        if must and re.search(r"[uU]", line):       # comparison of signed and unsigned
            continue
        raise Violation("Q%d is %r, expected %s\n%s" % (i, got, want, text))
    return sorted(kinds) or ["none computed"]


# --- several declarators, each with its own initialiser ------------------------------------
OTHER = ["{ { 1, 2 }, { 3 } }", "{ }", "&zq", "sizeof(int)", "(int) sizeof(struct zq *) + 1", "zq(1, 2)", "zq->y", "zq ? 1 : 2", "! 1", "zq", "{ zq, 2 }", "{ [1] = 2 }", "{ .a = 1 }", "*zq", "zq[1]", "1 && 2", "{ sizeof(int), 1 }"]
SPECS = ["int", "const int", "static const long", "unsigned short", "MyT", "double", "char", "extern int"]


@st.composite
def declarators(draw):
    lines, names, n = [], [], 0
    for _ in range(draw(st.integers(1, 4))):
        ds = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from(["bare", "int", "int", "float", "string", "list", "other"]))
            name = draw(st.sampled_from(["v%d", "new_%d", "sizeof%d", "x_%d_"])) % n
            n += 1
            if k == "int":
                x = draw(expr(names, 2, casts="named"))
                names.append(name)
            elif k == "list":
                x = draw(st.lists(expr(names, 1, casts="named"), min_size=1, max_size=3))
            else:
                x = draw({"bare": st.none(), "float": st.sampled_from(DOUBLES), "string": strings_st, "other": st.sampled_from(OTHER)}[k])
            shape = {"list": draw(st.sampled_from(["%s[]", "%s[5]"])), "string": draw(st.sampled_from(["*%s", "%s[]"]))}.get(k) or draw(st.sampled_from(["%s", "%s", "%s", "*%s", "(%s)", "%s[3]", "*%s[2]"]))
            ds.append([name, k, x, shape, draw(st.integers(0, 3))])
        lines.append([draw(st.sampled_from(SPECS)), ds])
    return lines


def run_declarators(lines):
    env, head, want = {}, [], {}
    labels = set()
    for spec, ds in lines:
        out = []
        for name, k, x, shape, form in ds:
            text, val = None, None
            try:
                if k == "int":
                    v = py_eval(x, env)
                    if not isinstance(v, V):
                        raise Out
                    env[name] = V(v.v)
                    text, val = x, v.v
                elif k == "list":
                    val = [py_eval(t, env) for t in x]
                    if not all(isinstance(v, V) for v in val):
                        raise Out
                    val = [v.v for v in val]
                    text = "{" + ", ".join(x) + ["", ", ", ",", ""][form] + "}"
            except (Out, NameError):
                text, val = None, None
            if k == "float":
                text, val = x, float(x.rstrip("fFlL"))
            elif k == "string":
                text, val = x, c_string(x)
            elif k == "other":
                text = x
            want[name] = val
            labels.add(k if text is not None else "bare")
            out.append(shape % name + ("" if text is None else [" = ", "=", " =\n", "= "][form] + text))
        if len(out) > 1:
            labels.add("several declarators")
        head.append(spec + " " + ", ".join(out) + ";")
    text = "typedef long MyT;\n" + "\n".join(head) + "\n"
    p = sut.parse(text)
    for name, val in want.items():
        if name not in p.defs["variables"]:
            raise Violation("variable %s is lost\n%s" % (name, text))
        for got in (p.defs["variables"][name][0], p.defs["values"].get(name, "missing")):
            if got != val or isinstance(got, str) != isinstance(val, str) or isinstance(got, bool):
                raise Violation("variable %s has the value %r, expected %r\n%s" % (name, got, val, text))
    return sorted(labels) if "several declarators" in labels else False


PARTS = [Part("declarators", declarators(), run_declarators, 700, rule="non-trivial: several declarators in a declaration"),
         Part("comparisons", comparisons(), run_comparisons, 500, rule="all: comparisons and other operators without parenthesis"),
         Part("constants", cases(), run, 2000, rule="non-trivial: at least one constant remained after the filter"),
         Part("histories", histories(), run_histories, 1200, rule="non-trivial: a name is defined more than once"),
         Part("system headers", real.cases, real.values, 32, 300, rule="non-trivial: more than 10 values of macros and enumerators of system headers compared with gcc")]
