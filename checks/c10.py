"""Headers mixing all kinds of definitions are printed twice: plainly, and with random
blanks, newlines, comments, splices and line endings between their tokens (newlines
only where C allows them).  Both must give the same definitions."""
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import Part, Violation

INSIDE = ["x", "it's", '"', "'", "/*", "//", "int q;", "#define Q 1", "\\", "*", "/", "{", "}", "(", ";", "#if 0", "#endif", "struct zz {", "\n", " ", "é", "#pragma pack(1)", "\\\n", "@", "**", "a*"]


@st.composite
def comment(draw, newline):
    body = "".join(draw(st.lists(st.sampled_from(INSIDE), max_size=5)))
    if draw(st.integers(0, 2)) or not newline:
        body = body.replace("*/", "* /")
        while body.endswith("*") and draw(st.booleans()):
            body = body[:-1]
        body = "/*" + body.replace("*/", "").rstrip("\\") + "*/"
        if body.count("*/") > 1 or body == "/*/":
            body = "/* */"
        return body
    body = body.replace("\n", " ").replace("\\", " ")
    return "//" + body + draw(st.sampled_from(["\n", "\n", "\\\nint zz; still a comment\n"]))


@st.composite
def gap(draw, newline):
    """Separator between two tokens: a list of pieces."""
    k = draw(st.integers(0, 9))
    if k < 4:
        return draw(st.sampled_from(["", " ", "", " "]))
    if k == 4:
        return draw(st.sampled_from(["\t", "  ", " \t "]))
    if k == 5:
        return draw(st.sampled_from(["\\\n", " \\\n", "\\\n ", "\\\n\\\n"]))
    if k == 6 and newline:
        return draw(st.sampled_from(["\n", "\n\n", "\n  \n"]))
    if k == 7:
        a = draw(comment(newline))
        return a
    if k == 8:
        return " " + draw(comment(newline)) + " "
    return ""


# a few separators are drawn and used all along the header, so that cases stay small
@st.composite
def cases(draw):
    groups = draw(mixed.header(1, 6, kinds=mixed.KINDS + ["pack"]))
    return {"groups": groups, "free": draw(st.lists(gap(True), min_size=1, max_size=7)), "line": draw(st.lists(gap(False), min_size=1, max_size=7)),
            "split": draw(st.lists(st.integers(0, 3), min_size=1, max_size=5)) if draw(st.integers(0, 3)) == 0 else [0], "crlf": draw(st.integers(0, 5)) == 0, "end": draw(st.sampled_from(["\n", "\n", "\n\n", "", "\n// last", "\n/* last */", "\n//", " /* */ \n"])),
            "between": draw(st.lists(st.sampled_from(["\n", "\n", "\n\n", "\n // c\n", "\n/* a\n b */\n", " \n\t\n", " // it's\n", "\n/**/\n", "\n/*/ */\n", "\n/***/\n", "\n/* \" */\n", " \\\n\n", "\\\n \n", " \\\n\\\n\n"]), min_size=1, max_size=4))}


def render(case):
    nf = nl = nb = ns = 0
    split = case.get("split", [0])
    out = []
    for g in case["groups"]:
        for it in g:
            ts = it["toks"]
            call = in_call(ts)
            # splices are also possible inside tokens
            parts = []
            for a in ts:
                n = split[ns % len(split)]
                ns += 1
                parts.append(a[:n] + "\\\n" + a[n:] if 0 < n < len(a) and a.isidentifier() else a)
            s = parts[0]
            for i, (a, b) in enumerate(zip(ts, ts[1:])):
                if it["t"] == "dir" or call[i]:     # a macro call stays on one line
                    sep = case["line"][nl % len(case["line"])]
                    nl += 1
                    if a == "#":
                        sep = sep if sep.strip(" \t") == "" else ""     # rarely written otherwise
                else:
                    sep = case["free"][nf % len(case["free"])]
                    nf += 1
                if sep.replace("\\\n", "") == "" and (c.need_space(a, b) or it["t"] == "dir" and a != "#" and must_space(ts, a, b)):
                    sep = " " + sep
                if a.endswith("/") and sep.replace("\\\n", "").startswith("/"):
                    sep = " " + sep
                s += sep + parts[i + 1]
            out.append(s)
            out.append(case["between"][nb % len(case["between"])])
            nb += 1
    out[-1] = case["end"]
    t = "".join(out)
    return t.replace("\n", "\r\n") if case["crlf"] else t


def in_call(ts):
    """Whether the gap after each token is inside a call of a function-like macro."""
    res, depth = [], 0
    for i, a in enumerate(ts):
        if a == "(" and (depth or i and ts[i - 1].startswith("M_")):
            depth += 1
        elif a == ")" and depth:
            depth -= 1
        res.append(depth > 0 or a.startswith("M_") and ts[i + 1:i + 2] == ["("])
    return res


def must_space(ts, a, b):
    """The name of an object-like macro must not be followed by a parenthesis."""
    return a in ("define", "undef", "if", "pragma") or len(ts) > 2 and ts[1] == "define" and a is ts[2] and not a.endswith("(") or a == "defined"


def run(case):
    plain = mixed.plain_text(case["groups"])
    text = render(case)
    p, q = sut.parse(plain), sut.parse(text)
    d = c.diff(mixed.canon(p.defs, plain), mixed.canon(q.defs, plain))
    if d:
        raise Violation("layout changes the definitions: %s\n--- plain\n%s--- laid out\n%s" % (d, plain, text))
    missing = [n for g in case["groups"] for it in g for n in it["names"] if n[1] not in p.defs[n[0]]]
    if missing:
        raise Violation("not recorded: %r\n%s" % (missing, plain))
    labels = [it["k"] for g in case["groups"] for it in g]
    labels = sorted(set(labels))
    seps = "".join(case["free"] + case["line"])
    for n, m in (("comments", "/*"), ("line comments", "//"), ("splices", "\\\n"), ("newlines", "\n")):
        if m in seps:
            labels.append(n)
    if any(case.get("split", [])):
        labels.append("splices")
    if case["crlf"]:
        labels.append("crlf")
    return labels if set(labels) & {"comments", "line comments", "splices", "newlines", "crlf"} else False


# --- text inside strings, and comments as separators -------------------------------------
PIECES = ["/*", "*/", "//", "'", " ", "a", "\\\"", "\\\\", "#", "{", ";", "(", ",", "define X 1", "\\n", "%", "x y", "\t", "\\'", "  ", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "é"]


@st.composite
def strings(draw):
    n = draw(st.integers(1, 4))
    items = []
    for i in range(n):
        s = "".join(draw(st.lists(st.sampled_from(PIECES), max_size=6)))
        items.append([draw(st.sampled_from(["macro", "var", "array", "char", "char macro"])), s,
                      draw(st.sampled_from(["", " // c \"", " /* \" */", "/* ' */", " /* */", " /* int hidden ; \" */", " /* \" int hidden ; */", " /* ' int hidden ; \" */", " // int hidden ; \""]))])
        if "char" in items[-1][0]:
            items[-1][1] = draw(st.sampled_from(['"', '"', "\\'", "/", "*", "\\\\", "\\\"", "a", "\\n"]))
    return items


def run_strings(items):
    text, exp = "", []
    for i, (k, s, com) in enumerate(items):
        val = s.encode("latin-1", "backslashreplace").decode("unicode_escape")
        lit = '"%s"' % s
        if k == "macro":
            text += "#define s%d %s%s\n" % (i, lit, com)
            exp.append(("values", val))
        elif k == "char":
            text += "char s%d = '%s';%s\n" % (i, s, com)
            exp.append(("variables", None))
        elif k == "char macro":
            text += "#define s%d '%s'%s\n" % (i, s, com)
            exp.append(("macros", "'%s'" % s))
        elif k == "var":
            text += "char *s%d = %s;%s\n" % (i, lit, com)
            exp.append(("variables", val))
        else:
            text += "char *s%d[] = {%s,%s \"z\"};%s\n" % (i, lit, com if "//" not in com else "", com)
            exp.append(("variables", [val, "z"]))
        text += "int after%d;\n" % i
    p = sut.parse(text)
    for i, (cat, val) in enumerate(exp):
        got = p.defs[cat].get("s%d" % i)
        got = got[0] if cat == "variables" and got is not None else got
        if got != val and (val is not None or got is None and "s%d" % i not in p.defs[cat]):
            raise Violation("s%d is %r, expected %r\n%s" % (i, got, val, text))
        if "after%d" % i not in p.defs["variables"]:
            raise Violation("after%d is lost\n%s" % (i, text))
    if "hidden" in p.defs["variables"]:
        raise Violation("a comment is read\n" + text)
    return ["strings"] if any(x in s or "char" in k for k, s, _ in items for x in ("/*", "//", "*/", "'", "#")) else False


PARTS = [Part("layout", cases(), run, 1500, rule="non-trivial: comments, splices, newlines or CR LF between tokens"),
         Part("strings", strings(), run_strings, 1000, rule="non-trivial: a literal holding comment or quote marks")]
