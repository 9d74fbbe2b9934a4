"""Nested conditional directives around declarations, #define and #undef lines are
parsed and compared with the lines gcc -E keeps: the names declared in each
category and the macros defined at the end."""
import re
from hypothesis import strategies as st
from vlib import sut
from vlib.core import HarnessError, Part, Violation

NUM = ["NA", "NB", "NC", "ND"]           # macros with a numeric value when defined
FLAG = ["FA", "FB", "FC", "_FD_H"]       # macros only tested with defined
FUN = ["QA", "QB", "_qc"]              # function-like macros only tested with defined
FN = ["ADD", "PICK", "ZERO"]             # function-like macros, always defined
UNKNOWN = ["UNK", "True", "None", "max", "defined_x", "__import__", "xNA", "NA_", "ifdef", "not_"]
PRELUDE = ["#define ADD(x, y) ((x) + (y))", "#define PICK(a, b) (b)", "#define ZERO() 0"]


@st.composite
def literal(draw):
    n = draw(st.integers(0, 20))
    return draw(st.sampled_from([str(n), str(n), str(n) + "L", hex(n), "0X%XL" % n, "0%o" % n, "%dl" % n]))


@st.composite
def arith(draw, d=2):
    k = draw(st.integers(0, 13 if d else 4))
    if k <= 2:
        return draw(st.sampled_from(NUM))
    if k == 3:
        return draw(literal())
    if k == 4:
        return draw(st.sampled_from(NUM + UNKNOWN))
    if k == 5:
        return "(%s)" % draw(arith(d - 1))
    if k == 6:
        return "-(%s)" % draw(arith(d - 1))
    if k == 7:
        return "~(%s)" % draw(arith(d - 1))
    if k == 8:
        return "(%s %s %s)" % (draw(arith(d - 1)), draw(st.sampled_from("&|^")), draw(arith(d - 1)))
    if k == 9:
        return "%s %s %d" % (draw(literal()), draw(st.sampled_from("/%")), draw(st.integers(1, 7)))
    if k == 10:
        return "(%s << %d)" % (draw(literal()), draw(st.integers(0, 5)))
    if k == 11:
        return draw(st.sampled_from(["ADD(%s,%s)", "ADD ( %s , (%s) )", "PICK(%s, %s)"])) % (draw(arith(d - 1)), draw(arith(d - 1)))
    if k == 12:
        return "(%s >> %d)" % (draw(literal()), draw(st.integers(0, 3)))
    a, b = draw(arith(d - 1)), draw(arith(d - 1))
    return draw(st.sampled_from(["%s + %s", "%s+%s", "%s - (%s)", "(%s) * (%s)"])) % (a, b)


BIN = ["||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"]
TIGHT = BIN.index("+")


@st.composite
def wild(draw, d=2, defd=True):
    """Operators of every priority without parenthesis."""
    out = ""
    n = draw(st.integers(1, 6))
    shift = div = False
    for i in range(n):
        if shift or div:
            if shift and draw(st.booleans()):
                out += draw(st.sampled_from(["%d + %d", "%d * %d", "%d+ %d", "+%d + %d", "!%d + %d", "%d * %d - 0", "%d - -%d"])) % (draw(st.integers(0, 3)), draw(st.integers(0, 3)))
            else:
                out += str(draw(st.integers(0, 3) if shift else st.integers(1, 7)))
        else:
            out += draw(st.sampled_from([""] * 5 + ["!", "-", "~", "! ", "!!", "- ", "+", "-~", "!-"]))
            k = draw(st.integers(0, 9))
            if k < 3:
                out += draw(literal())
            elif k < 6:
                out += draw(st.sampled_from(NUM + UNKNOWN[:6]))
            elif k < 7 and defd:
                out += draw(st.sampled_from(["defined %s", "defined(%s)"])) % draw(st.sampled_from(FLAG + NUM + FUN))
            elif k < 8 or not d:
                out += draw(st.sampled_from("0123"))
            elif k < 9:
                out += "ADD(%s, %s)" % (draw(wild(d - 1, False)), draw(wild(0, False)))
            else:
                out += "(%s)" % draw(wild(d - 1, defd))
        if i < n - 1:       # the number of a shift stays small
            op = BIN[draw(st.integers(0, TIGHT - 1 if shift else len(BIN) - 1))]
            shift, div = op in ("<<", ">>"), op in "/%" and draw(st.integers(0, 7)) > 0
            out += draw(st.sampled_from([" %s ", " %s ", "%s"])) % op if op not in "+-/" else " %s " % op
    if d and not shift and draw(st.integers(0, 7)) == 0:
        out += draw(st.sampled_from([" ? ", "?"])) + draw(wild(d - 1, defd)) + " : " + draw(wild(d - 1, defd))
    return out


@st.composite
def cond(draw, d=3, recent=()):
    k = draw(st.integers(0, 13 if d else 6))
    if k > 11:
        return draw(wild())
    if k <= 2:
        n = draw(st.sampled_from(recent if recent and draw(st.booleans()) else FLAG + NUM + FLAG + FUN + FUN + ["ADD", "UNK", "NOPE"]))
        return draw(st.sampled_from(["defined %s", "defined(%s)", "defined ( %s )", "!defined(%s)", "! defined %s"])) % n
    if k <= 5:
        op = draw(st.sampled_from(["==", "!=", "<", ">", "<=", ">="]))
        sp = draw(st.sampled_from([" ", ""]))
        return draw(arith()) + sp + op + sp + draw(arith())
    if k == 6:
        return draw(arith())
    if k == 7:
        return "!(%s)" % draw(cond(d - 1, recent))
    if k == 8:
        return "(%s)" % draw(cond(d - 1, recent))
    op = draw(st.sampled_from([" && ", " || ", "&&", "||"]))
    parts = [draw(cond(d - 1, recent)) for _ in range(draw(st.integers(2, 3)))]
    return op.join(("(%s)" % p if re.search(r"\|\||&&", p) else p) for p in parts)


JUNK = ["int junkvar;", "#define JUNKM 3", "this is not ) C {", "# error no", "#include <nothing.h>",
        "#if junk ( garbage", "#undef FA", "#pragma pack(1)", "struct junks { int a;", "#ifdef NA", "#ifndef", "it's"]


class G:
    def __init__(self, draw):
        self.draw, self.n = draw, 0
        self.recent = []            # names just defined or removed, and constants

    def name(self, names):
        """One of the names, often one met not long ago."""
        if self.recent and self.draw(st.booleans()):
            return self.draw(st.sampled_from(self.recent[-3:]))
        return self.draw(st.sampled_from(names))

    def sep(self):
        return self.draw(st.sampled_from(["#", "#", "#", "# ", " #", "\t#\t"]))

    def tail(self):
        return self.draw(st.sampled_from([""] * 6 + [" ", " /* c */", " // NA", "\t"]))

    def text(self):
        self.n += 1
        n = self.n
        return self.draw(st.sampled_from([
            "int v%d;", "int v%d, *w%d;", "typedef int t%d;", "struct s%d { int a; };", "enum e%d { k%d };",
            "void f%d(int);", "static int g%d(void) { return 0; }", "union u%d { int a; char b; };", "extern char v%d[4];"])
        ).replace("%d", str(n))

    def texts(self):
        t = self.text()
        self.recent += NAME.findall(t)[-1:]
        return t

    def items(self, depth):
        d = self.draw
        out = []
        for _ in range(d(st.integers(0 if depth < 3 else 1, 4 if depth > 2 else depth + 1))):
            k = d(st.sampled_from(["text"] * 3 + ["num", "flag", "undef", "fndef", "fndef"] + (["cond"] * (2 + depth) if depth else [])))
            if k == "text":
                out.append(self.texts())
            elif k == "num":
                v = d(st.sampled_from(["0", "1", "2", "7", "0x10", "(3)", "(-1)", "1 + 1", "(3 - 4)", "ADD(1, 2)", "12L", "010", "ADD(ZERO(), 1)"]))
                m = d(st.sampled_from(NUM))
                self.recent.append(m)
                out.append("%sdefine %s %s%s" % (self.sep(), m, v, self.tail()))
            elif k == "flag":
                m = d(st.sampled_from(FLAG))
                self.recent.append(m)
                out.append("%sdefine %s%s" % (self.sep(), m, d(st.sampled_from(["", "", " 1", " abc def", " \"s\""]))))
            elif k == "fndef":
                self.n += 1
                m = d(st.sampled_from(["M%d" % self.n] + FUN))
                self.recent.append(m)
                out.append("%sdefine %s%s%s" % (self.sep(), m, d(st.sampled_from(["(x) (x)", "(x) (x)", "(x)", "()", "() 0", "( x , y ) x", "(x) \"x\""])), self.tail()))
            elif k == "undef":
                out.append("%sundef %s%s" % (self.sep(), self.name(FLAG + NUM + FUN + ["NOPE", "M1", "M2", "M3"]), self.tail()))
            else:
                out += self.cond(depth)
        return out

    def cond(self, depth):
        d = self.draw
        k = d(st.integers(0, 9))
        if k == 0:      # a skipped block of junk
            body = d(st.lists(st.sampled_from(JUNK), max_size=4))
            opens = sum(1 for b in body if re.match(r"#\s*if", b))
            return ["#if 0", *body, *["#endif"] * opens, "#endif"]
        if k == 1:
            head = "%sifdef %s" % (self.sep(), self.name(FLAG + NUM + FUN + ["ADD"]))
        elif k == 2:
            m = d(st.sampled_from(FLAG))
            self.recent.append(m)
            return ["%sifndef %s" % (self.sep(), m), "#define %s" % m, *self.items(depth - 1), "#endif" + self.tail()]
        elif k == 3:
            head = "%sifndef %s" % (self.sep(), self.name(FLAG + NUM + FUN + ["UNK"]))
        else:
            head = self.if_("if")
        out = [head + self.tail(), *self.items(depth - 1)]
        for _ in range(d(st.sampled_from([0, 0, 1, 1, 2, 3]))):
            out += [self.if_("elif") + self.tail(), *self.items(depth - 1)]
        if d(st.booleans()):
            out += [self.sep() + "else" + self.tail(), *self.items(depth - 1)]
        return [*out, self.sep() + "endif" + self.tail()]

    def if_(self, word):
        c = self.draw(cond(recent=tuple(self.recent[-3:])))
        if self.draw(st.integers(0, 9)) == 0 and " " in c:
            c = c.replace(" ", " \\\n ", 1)
        glue = "" if c[0] in "(!" and self.draw(st.booleans()) else " "
        return self.sep() + word + glue + c


@st.composite
def cases(draw):
    g = G(draw)
    a, b = g.items(3), (g.items(3) if draw(st.integers(0, 3)) == 0 else [])
    return {"a": a, "b": b}


NAME = re.compile(r"\b([a-zA-Z]+\d+)\b")


def gcc_keeps(text):
    r = sut.gcc(["-E", "-dD", "-P", "-undef", "-x", "c", "-"], text, ok=False)
    if r.returncode != 0 and "division by zero" not in r.stderr:
        raise HarnessError(r.stderr + text)
    macros, kept = {}, []
    for line in r.stdout.split("\n"):
        m = re.match(r"#define (\w+)(\(?)", line)
        if m:
            macros[m.group(1)] = "fnmacros" if m.group(2) else "macros"
        elif line.startswith("#undef "):
            macros.pop(line.split()[1], None)
        elif not line.startswith("#"):
            kept.append(line)
    return macros, None if r.returncode else " ".join(kept)


def run(case):
    a, b = PRELUDE + case["a"], case["b"]
    texts = ["\n".join(x) + "\n" for x in ([a, b] if b else [a])]
    macros, kept = gcc_keeps("".join(texts))
    if kept is None:
        return False
    names = set(NAME.findall(kept))
    paths = [sut.write(t) for t in texts]
    p = sut.CParser(paths)
    full = "\n".join(texts)
    cats = {"variables": "vw", "types": "t", "functions": "fg", "structs": "s", "unions": "u", "enums": "e"}
    for cat, letters in cats.items():
        exp = {n for n in names if n[0] in letters}
        got = {n for n in p.defs[cat] if cat != "types" or " " not in n}
        if exp != got:
            raise Violation("%s: kept by C but not recorded: %s; recorded but skipped by C: %s\n%s"
                            % (cat, sorted(exp - got), sorted(got - exp), full))
    tags = {n for n in p.defs["types"] if " " in n}
    exp = {w + " " + n for n in names for w, x in (("struct", "s"), ("union", "u"), ("enum", "e")) if n[0] == x}
    if tags != exp:
        raise Violation("tags: expected %s, got %s\n%s" % (sorted(exp), sorted(tags), full))
    ours = re.compile(r"(N[A-D]|F[A-C]|_FD_H|ADD|PICK|ZERO|QA|QB|_qc|M\d+|JUNKM|UNK|NOPE)$")
    for cat in ("macros", "fnmacros"):
        exp = {n for n, k in macros.items() if k == cat and ours.match(n)}
        got = set(p.defs[cat])
        if exp != got:
            raise Violation("%s: expected %s, got %s\n%s" % (cat, sorted(exp), sorted(got), full))
    vals = set(p.defs["values"])
    must = {n for n in names if n[0] in "vwk"} | {n for n, k in macros.items() if k == "macros" and ours.match(n)}
    extra = {n for n in vals - must if not ours.match(n)}
    missing = must - vals
    if extra or missing:
        raise Violation("values: unexpected %s, missing %s\n%s" % (sorted(extra), sorted(missing), full))
    for cat, d in p.defs.items():
        bad = [n for n in d if "junk" in n.lower()]
        if bad:
            raise Violation("skipped text left %s in %s\n%s" % (bad, cat, full))
    for q in paths:
        sut.os.unlink(q)
    nif = sum(bool(re.match(r"\s*#\s*if", x)) for x in a + b)
    if nif == 0:
        return False
    allnames = set(NAME.findall(" ".join(x for x in a + b if "#" not in x)))
    labels = ["files-%d" % len(texts), "ifs-%d" % min(nif, 8)]
    if allnames - names:
        labels.append("something skipped")
    if any("elif" in x for x in a + b):
        labels.append("elif")
    return labels



# --- directives inside of declarations -------------------------------------------------
BODIES = {
    "struct": (["struct s%d {", "int first;"], "};", ["int v%d;", "int v%d, *w%d;", "struct { int v%d; } w%d;", "int v%d : 3;", "unsigned v%d : 1, w%d : 2;", "char v%d[4];", "void (*v%d)(int);", "union {", "struct s%d { long v%d; };", "enum { k%d, l%d } v%d;", "const char *v%d;", "int v%d[KB];"]),
    "union": (["typedef union {", "int first;"], "} t%d;", ["int v%d;", "double v%d, *w%d;", "struct u%d { int v%d; } w%d;", "char v%d[KA];"]),
    "enum": (["enum e%d {", "k%d"], "};", [", k%d", ", k%d = 4", ", k%d = KA", ", k%d, l%d = 7", ", k%d = -2"]),
    "params": (["int f%d(", "int v%d"], ");", [", int v%d", ", char *v%d", ", int (*v%d)(void)", ", unsigned", ", int v%d[3]"]),
    "list": (["int v%d[] = {", "0"], "};", [", 3", ", KA", ", -1", ", 2 * KB"]),
    "declarators": (["extern int v%d"], ";", [", v%d", ", *v%d", ", v%d[KA]", ", w%d(int)"]),
    "words": (["static", "int *"], "v%d;", ["const", "volatile", "*", "* const"]),
    "initial": (["int v%d = 1"], ";", ["+ 2", "* 3", "- KA", "| KB", "<< 1"]),
}


class H(G):
    """Members, enumerators, arguments... among directives."""
    def __init__(self, draw, kind):
        G.__init__(self, draw)
        self.kind = kind

    def text(self):
        self.n += 1
        t = self.draw(st.sampled_from(BODIES[self.kind][2])).replace("%d", str(self.n))
        if t == "union {":
            t = "union { int v%d; char w%d[3]; };" % (self.n, self.n)
        return t


@st.composite
def inside_cases(draw):
    lines, n = ["#define %s %d" % (m, draw(st.integers(1, 5))) for m in draw(st.lists(st.sampled_from(NUM), unique=True, max_size=3))], 0
    for i in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(sorted(BODIES)))
        h = H(draw, kind)
        h.n = n
        first, last, _ = BODIES[kind]
        lines += [x.replace("%d", str(900 + i)) for x in first] + h.items(2) + [last.replace("%d", str(900 + i))]
        if draw(st.booleans()):
            lines.append("int v%d;" % (950 + i))
        n = h.n
    return lines


def run_inside(lines):
    text = "\n".join(PRELUDE + ["#define KA 3", "#define KB 5"] + lines) + "\n"
    r = sut.gcc(["-E", "-P", "-undef", "-x", "c", "-"], text, ok=False)
    if r.returncode:
        if "division by zero" in r.stderr:
            return False
        raise HarnessError(r.stderr + text)
    p, q = sut.parse(text), sut.parse(r.stdout)
    for cat in ("types", "variables", "structs", "unions", "enums", "functions", "values"):
        a, b = ({n: v for n, v in x.defs[cat].items() if cat != "values" or n not in p.defs["macros"]} for x in (p, q))
        # removed macros leave their value
        for n in list(a):
            if cat == "values" and n not in b and re.match(r"(N[A-D]|F[A-C]|_FD_H)$", n):
                del a[n]
        if a != b:
            bad = [n for n in {**a, **b} if a.get(n, ()) != b.get(n, ())]
            raise Violation("%s %s: %r instead of %r\n%s--- what C keeps\n%s" % (cat, bad[0], a.get(bad[0], "nothing"), b.get(bad[0], "nothing"), text, r.stdout))
        if [*a] != [*b] and cat not in ("values", "types"):
            raise Violation("order of %s: %s instead of %s\n%s" % (cat, [*a], [*b], text))
    if not any(re.match(r"\s*#\s*if", x) for x in lines):
        return False
    return sorted({k for k in BODIES for x in lines if x.startswith(BODIES[k][0][0].split("%d")[0])})


PARTS = [Part("inside of declarations", inside_cases(), run_inside, 600, rule="non-trivial: contains a conditional directive"),
         Part("conditionals", cases(), run, 2000, rule="non-trivial: contains a conditional directive")]
