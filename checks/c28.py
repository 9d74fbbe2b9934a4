"""Generated headers are parsed with ordered regular-expression replacements, against the text on
which re.sub made them; in many encodings, against the same text in UTF-8; and with the
definitions of a first header given as arguments, against both headers read in a row.  The
parser is built directly, by deferred loading, or by a library; files and arguments must be
left as they were."""
import os, re
from hypothesis import strategies as st
from vlib import c, lib, mixed, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, CParser
from pyclibrary.c_parser import Type

KINDS = mixed.KINDS + ["pack"]
CATS = ["types", "variables", "fnmacros", "macros", "structs", "unions", "enums", "functions", "values"]


def snapshot(p, names=None):
    """Definitions of a parser whatever the names of the files."""
    f = {} if names is None else {names.get(k, k): v for k, v in p.file_defs.items()}
    return {"defs": {k: {n: c.plain_deep(v) for n, v in d.items()} for k, d in p.defs.items()}, "files": {k: {t: {n: c.plain_deep(v) for n, v in d.items()} for t, d in x.items()} for k, x in f.items()}}


def compare(a, b, what):
    if a != b:
        for k in b["defs"]:
            for n in sorted({*a["defs"][k], *b["defs"][k]}):
                if a["defs"][k].get(n) != b["defs"][k].get(n):
                    raise Violation("%s %s: %r instead of %r\n%s" % (k, n, a["defs"][k].get(n, "nothing"), b["defs"][k].get(n, "nothing"), what))
        raise Violation("definitions of the files: %r instead of %r\n%s" % (a["files"], b["files"], what))


def build(how, paths, kw, other=None):
    """The same parser in several ways; other is the default encoding of a parser which is told that of the file."""
    if how == "direct":
        return CParser(list(paths), **kw)
    if how == "one" and len(paths) == 1:
        return CParser(paths[0], **kw)
    if how == "deferred":
        p = CParser(list(paths), process_all=False, **kw)
        p.process_all()
        return p
    if how == "load":
        kw = dict(kw)
        rep, enc = kw.pop("replace", None), kw.pop("encoding", None)
        if enc is not None and other:
            kw["encoding"] = other
        p = CParser(process_all=False, **kw)
        for x in paths:
            p.load_file(x, rep, enc)
        p.process_all()
        return p
    if how == "default encoding":
        kw = dict(kw)
        rep = kw.pop("replace", None)
        p = CParser(process_all=False, **kw)
        for x in paths:
            p.load_file(x, replace=rep)
        p.process_all()
        return p
    if how == "library":
        L = CLibrary(lib.stub(), list(paths), **kw)

        class P:
            defs = {k: L[k] for k in CATS}
            file_defs = {}
        return P
    return CParser(list(paths), **kw)


HOW = ["direct", "direct", "one", "deferred", "load", "default encoding", "library"]


# --- replacements -------------------------------------------------------------------
REPS = [("int", "long"), ("long", "int"), (r"\bint\b", "unsigned int"), (r"\bM_", "N_"), ("N_", "M_"), (r"[aeiou]+", "o"), (r"(\w+)_t\b", r"\1_u"), (r"//.*", ""), (r"(?s)/\*.*?\*/", " "), (r"\d+", "7"), (r"(\d)(\d)", r"\2\1"),
        (r"$", " "), (r"^", "int first_one;\n"), (r"(?m)^#.*$", ""), (r"(?m)^#\s*(define)", r"#\1"), (r";", ";\n"), (r"\n", "\n\n"), (r"struct", "union"), ("union", "struct"), (r"\*", "* const "), (r"\[\s*\d*\s*\]", "[4]"), (r"\(", "( "), ("x", "xx"), ("xx", "x"),
        (r"=[^;,}]*", ""), (r"\{[^{}]*\}", ";"), (r"(?i)FOO", "bar"), (r"\b(const|volatile)\b", ""), ("\\\\\n", ""), (r"[A-Z]", ""), ("a|b", "c"), (r"\Z", "\nint last_one;"), (r"no such text", "bad bad"), (r"(?m)$", " /* end */"), (r"\t", " "), (r"\b", ""), ("#if.*", "#if 1"),
        (r"typedef (\w+) (\w+) ;", r"#define \2 \1"), (".", r"\g<0>"), (r"1", "0"), ("0", "1"), ("long ", "long long "), (r"__stdcall", ""), (r"\bchar\b", r"double"), ("double", "float"), (r"^\w+", "char"), (r"^#\s*define", "#undef"), (r";$", ""), (r"(?s)^.*?;", "int one;"),
        (r"int.*;", "int one_line;"), (r"INT", "char"), (r" \* ", " * * "), ("[^\n]+\n$", ""), ("int # x", "long"), (r"\s", " \n"), ("a.", r"\\g<0>"), (r"\w+\s*$", ""), (r"(?P<n>\w+) ;", r"\g<n>2 ;"), (r"$\n", "\n\n")]


@st.composite
def rep_cases(draw):
    n = draw(st.integers(1, 2))
    return {"headers": [draw(mixed.header(1, 5, KINDS)) for _ in range(n)], "reps": [list(REPS[i]) for i in draw(st.lists(st.integers(0, len(REPS) - 1), min_size=1, max_size=5, unique_by=lambda i: REPS[i][0]))],
            "how": draw(st.sampled_from(HOW)), "crlf": draw(st.integers(0, 4)) == 0, "same": draw(st.booleans())}


def replacing(case):
    texts = [mixed.plain_text(h) for h in case["headers"]]
    if case["same"]:
        texts = [texts[0]] * len(texts)
    d = sut.fresh_dir()
    paths, refs = [], []
    changed = 0
    for i, t in enumerate(texts):
        paths.append(sut.write(t.replace("\n", "\r\n") if case["crlf"] else t, "%s/h%d.h" % (d, i)))
        new = t
        for s, r in case["reps"]:
            prev, new = new, re.sub(s, r, new)
            changed += prev != new
        refs.append(new)
    os.mkdir(d + "/ref")
    ref_paths = [sut.write(t, "%s/ref/h%d.h" % (d, i)) for i, t in enumerate(refs)]
    raw = [open(p, "rb").read() for p in paths]
    rep = {s: r for s, r in case["reps"]}
    before = list(rep.items())
    what = "%r\n%s\n--- replaced\n%s" % (case["reps"], "\n---\n".join(texts), "\n---\n".join(refs))
    try:
        want = outcome(lambda: CParser(ref_paths))
        got = outcome(lambda: build(case["how"], paths, {"replace": rep}))
        if case["how"] == "library" and "files" in want:
            want["files"] = {}
        if "error" in want or "error" in got:
            if want.get("error") != got.get("error"):
                raise Violation("%r instead of %r\n%s" % (got.get("error"), want.get("error"), what))
            return False
        compare(got, want, what)
        if list(rep.items()) != before:
            raise Violation("the replacements given are changed: %r -> %r" % (before, rep))
        if [open(p, "rb").read() for p in paths] != raw or sorted(os.listdir(d)) != sorted(["ref"] + [os.path.basename(p) for p in paths]):
            raise Violation("the headers on disk are changed")
    finally:
        sut.shutil.rmtree(d, True)
    return ["%d effective" % min(changed, 3), case["how"]] if changed else False


def outcome(f):
    try:
        p = f()
    except Exception as e:
        return {"error": type(e).__name__}
    return snapshot(p, {})


# --- encodings ------------------------------------------------------------------------
ENCODINGS = {"utf-8": "é€漢😀", "utf-8-sig": "é€漢😀", "utf-16": "é€漢😀", "utf-16-le": "é漢", "utf-16-be": "é漢", "utf-32": "é漢😀", "latin-1": "éÿ\xa0ß", "cp1252": "é€œ", "iso8859-15": "é€", "koi8-r": "жЯ", "cp437": "éß",
             "shift_jis": "漢字ソ表", "gbk": "漢字", "euc_jp": "漢字", "big5": "漢字功", "ascii": "", "mac_roman": "éß", "cp1251": "жЯ", "utf-7": "é漢", "iso2022_jp": "漢字"}


@st.composite
def enc_cases(draw):
    e = draw(st.sampled_from(sorted(ENCODINGS) + ["utf-8"] * 3))
    word = st.text(st.sampled_from(ENCODINGS[e] + "ab "), max_size=5)
    extras = []
    for i in range(draw(st.integers(1, 5))):
        k, w = draw(st.sampled_from(["/* %s */ int e_%d;", "// %s\nint e_%d;", "#define E_%d \"%s\"", "const char *e_%d = \"%s\";", "int e_%d; // %s", "#if 0\n%s\n#endif\nint e_%d;", "#define F_%d(x) x \"%s\"", "#pragma %s\nint e_%d;", "typedef int e_%d; /*%s*/ e_%d v_%d;",
                                     "#error %s\nint e_%d;", "int e_%d; \"%s\"; int f_%d;"])), draw(word)
        n = k.count("%d")
        extras.append(k.replace("%d", str(i)).replace("%s", w))
    return {"header": draw(mixed.header(0, 4, KINDS)), "extras": extras, "encoding": e, "how": draw(st.sampled_from(HOW)), "crlf": draw(st.booleans()), "perm": draw(st.integers(0, 1)),
            "rep": draw(st.sampled_from([None, None, "x"])), "cache": draw(st.integers(0, 3)) == 0, "other": draw(st.sampled_from([None] + sorted(ENCODINGS)))}


def encodings(case):
    e = case["encoding"]
    parts = [mixed.plain_text(case["header"]), "\n".join(case["extras"]) + "\n"]
    text = "".join(parts[::-1] if case["perm"] else parts)
    try:
        data = text.encode(e)
        if data.decode(e) != text:
            return False
    except UnicodeError:
        return False
    if case["crlf"]:
        data = text.replace("\n", "\r\n").encode(e)
    d = sut.fresh_dir()
    p = d + "/h.h"
    os.mkdir(d + "/ref")
    ref = sut.write(text, d + "/ref/h.h")
    with open(p, "wb") as f:
        f.write(data)
    kw = {"encoding": e}
    if case["rep"]:
        kw["replace"] = {ENCODINGS[e][:1] or "b": "Q"}
    try:
        want = snapshot(CParser([ref], replace=kw.get("replace")), {})
        if case["cache"] and case["how"] != "library":
            CParser([p], cache=d + "/cache", **kw)
            os.utime(p, (1e9, 1e9))
            kw["cache"] = d + "/cache"
            q = CParser([p], **kw)
        else:
            q = build(case["how"], [p], kw, case["other"])
        got = snapshot(q, {})
        if case["how"] == "library":
            want["files"] = got["files"] = {}
        compare(got, want, "%s %s\n%s" % (e, case["how"], text))
        with open(p, "rb") as f:
            if f.read() != data:
                raise Violation("the header on disk is changed")
    finally:
        sut.shutil.rmtree(d, True)
    return [e] if data != text.encode() else ["as UTF-8"]


# --- predefined definitions ---------------------------------------------------------------
SIMPLE = [["macros", "P_NUM", "3", "#define P_NUM 3"], ["macros", "P_API", "", "#define P_API"], ["macros", "P_TYPE", "unsigned long", "#define P_TYPE unsigned long"], ["macros", "P_EXPR", "(P_NUM + 2)", None],
          ["types", "P_uint", "unsigned int", "typedef unsigned int P_uint;"], ["types", "P_str", ["char", "*"], "typedef char *P_str;"], ["types", "P_arr", ["P_uint", [4]], "typedef P_uint P_arr[4];"],
          ["types", "P_cb", ["int", [], "*"], "typedef int (*P_cb)();"], ["values", "P_VAL", 11, "enum P_e1 { P_VAL = 11 };"], ["values", "P_VAL2", -4, "enum P_e2 { P_VAL2 = -4 };"]]
USES = ["P_uint use_%d;", "P_API int use_%d(P_str s, P_uint *p);", "int use_%d[P_NUM];", "int use_%d = P_VAL + 1;", "#if P_NUM > 2\nint use_%d;\n#else\nlong use_%d;\n#endif", "#ifdef P_API\nint use_%d;\n#endif", "#ifndef P_API\nint use_%d;\n#endif", "struct s_%d { P_uint a[P_NUM]; P_str b; P_arr c; };",
        "enum { E_%d = P_VAL, E2_%d };", "typedef P_arr use_%d[2];", "P_TYPE use_%d;", "#define U_%d (P_NUM * 2)", "#if defined(P_TYPE) && P_NUM == 3\nint use_%d;\n#endif", "P_cb use_%d;", "int use_%d[P_VAL2 + 10];", "#ifdef P_NUM\n#undef P_NUM\nint use_%d;\n#endif\n#ifdef P_NUM\nint more_%d;\n#endif", "#define P_NUM2_%d P_NUM\nint use_%d[P_NUM2_%d];", "typedef P_str use_%d; use_%d v_%d;"]


@st.composite
def pre_cases(draw):
    simple = draw(st.lists(st.integers(0, len(SIMPLE) - 1), max_size=6, unique=True))
    return {"first": draw(mixed.header(1, 5, [k for k in KINDS if k != "pack"])), "second": draw(mixed.header(0, 4, KINDS)), "simple": simple, "uses": draw(st.lists(st.integers(0, len(USES) - 1), max_size=6, unique=True)),
            "how": draw(st.sampled_from(["direct", "direct", "one", "deferred", "load", "library"])), "split": draw(st.booleans()), "keep": draw(st.integers(0, 3))}


def predefined(case):
    first = rename(mixed.plain_text(case["first"]), case["first"])
    second = mixed.plain_text(case["second"])
    simple = [SIMPLE[i] for i in case["simple"]]
    if any(s[1] == "P_arr" for s in simple) and not any(s[1] == "P_uint" for s in simple):
        simple = simple + [SIMPLE[4]]
    if any(s[3] is None for s in simple):
        simple = [s for s in simple if s[3] is not None]
    simple = sorted(simple, key=lambda s: s[1] == "P_arr")
    uses = "\n".join(USES[i].replace("%d", str(n)) for n, i in enumerate(sorted(case["uses"], key=lambda i: "#undef" in USES[i]))) + "\n"
    d = sut.fresh_dir()
    try:
        names = {"h1.h": "given", "h0.h": "given", None: "given"}
        h0 = sut.write(first, d + "/h0.h")
        h1 = sut.write("\n".join(s[3] for s in simple) + "\n", d + "/h1.h")
        main = sut.write(uses + second if case["keep"] % 2 else second + "#pragma pack()\n" + uses, d + "/main.h")
        ref = CParser([h0, h1, main])
        given = CParser([h0]).defs
        kw = {k: dict(v) for k, v in given.items()}
        for cat, n, v, _ in simple:
            kw[cat][n] = tuple(tuple(x) if isinstance(x, list) and not x else x for x in v) if isinstance(v, list) else v
        if not case["split"]:
            kw = {k: v for k, v in kw.items() if v}
        before = {k: [(n, c.plain_deep(v)) for n, v in x.items()] for k, x in kw.items()}
        order = sorted(kw) if case["keep"] < 2 else sorted(kw, reverse=True)
        kw = {k: kw[k] for k in order}
        got = build(case["how"], [main], kw)
        a, b = snapshot(got), snapshot(ref)
        # the text of a macro gives no value when given alone
        for cat, n, v, _ in simple:
            if cat == "macros":
                b["defs"]["values"].pop(n, None), a["defs"]["values"].pop(n, None)
        what = "given %r\n%s\n--- first\n%s\n--- main\n%s" % (simple, case["how"], first, open(main).read())
        # the enumerations which define the values in C
        for n in ("P_e1", "P_e2"):
            b["defs"]["enums"].pop(n, None), b["defs"]["types"].pop("enum " + n, None)
        compare(a, b, what)
        if {k: [(n, c.plain_deep(v)) for n, v in x.items()] for k, x in kw.items()} != before:
            raise Violation("the definitions given are changed\n%s" % what)
        # type resolution
        if case["how"] != "library":
            for n in b["defs"]["types"]:
                if outcome_type(got, n) != outcome_type(ref, n):
                    raise Violation("%s is resolved as %r instead of %r\n%s" % (n, outcome_type(got, n), outcome_type(ref, n), what))
    finally:
        sut.shutil.rmtree(d, True)
    return ["uses"] if case["uses"] else ["unused"]


def outcome_type(p, n):
    try:
        return c.plain_deep(p.eval_type([n]))
    except Exception as e:
        return type(e).__name__


def rename(text, groups):
    """The names of the first header do not collide with those of the second one."""
    names = {n.split()[-1] for g in groups for it in g for _, n in it["names"]}
    names |= set(re.findall(r"^#\s*(?:define|undef) (\w+)", text, re.M)) | set(re.findall(r"\b(?:struct|union|enum) (\w+)", text))
    if not names:
        return text
    return re.sub(r'"(?:[^"\\]|\\.)*"|(?<![\w$])(%s)(?![\w$])' % "|".join(map(re.escape, sorted(names, key=len, reverse=True))), lambda m: m[0] if m[1] is None else "one_" + m[1], text)


PARTS = [Part("replacements", rep_cases(), replacing, 600, rule="at least one replacement changes the text"),
         Part("encodings", enc_cases(), encodings, 400, rule="the text exists in the encoding"),
         Part("predefined", pre_cases(), predefined, 400, rule="all: a header is parsed with at least the definitions of another one")]
