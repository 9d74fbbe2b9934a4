"""Headers of all kinds of definitions, in one or several files, are parsed in every way
(at once, later, from a cache, with a header that no longer exists, with imported parsers).
Searching a text must give exactly the lines holding it, with their file and number; the
printed listings, read back and evaluated, must be the recorded definitions, of all files or
of one; and none of this may change anything."""
import contextlib, copy, io, os, re
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import Part, Violation
from pyclibrary import CParser
from pyclibrary.c_parser import Enum, Struct, Type, Union

CATS = ["types", "variables", "fnmacros", "macros", "structs", "unions", "enums", "functions", "values"]
TEXTS = ["int", ";", "", " ", "(", "*", "#define", "\\", "[", ".", "x", "struct ", "\t", "é", "a.b", "$", "^int"]


@st.composite
def cases(draw):
    nf = draw(st.integers(1, 3))
    files = [draw(mixed.header(0 if nf > 1 else 1, 5, kinds=mixed.KINDS + ["pack"])) for _ in range(nf)]
    tail = [draw(st.sampled_from(["", "", "int tab\tbed;", "char *quo = \"a.b (é) \\\\ ' \";", "long lon\\\n g_name;", "/* int in a comment */ int after;", "\n\n\nint blank;\n\n", "#define EMPTY\n#define STR \"x\\ty\"\nconst double big = 1e400;",
                                          "struct wide { int a_rather_long_member_name_0, a_rather_long_member_name_1; double another_long_name_2[3][4]; } wide_variable;", "int noend;"])) for _ in range(nf)]
    return {"files": files, "tail": tail, "how": draw(st.sampled_from(["once", "once", "late", "cache", "gone", "import", "raw"])), "texts": draw(st.lists(st.sampled_from(TEXTS), max_size=3)),
            "pick": draw(st.lists(st.tuples(st.integers(0, 999), st.integers(0, 99), st.integers(1, 9)).map(list), min_size=1, max_size=3)), "eol": draw(st.booleans())}


DEEP = {"deep": [[[["x", 1.5]]], {"a": (1,)}, None]}
NAMES = ["one.h", "two.h", "th ree.h"]


def run(case):
    d = sut.fresh_dir()
    texts = [mixed.plain_text(g) + t + ("\n" if case["eol"] else "") for g, t in zip(case["files"], case["tail"])]
    paths = [sut.write(t, os.path.join(d, n)) for t, n in zip(texts, NAMES)]
    how = case["how"]
    if how == "raw":
        p = CParser(paths, process_all=False)
        lines = {x: t.split("\n") for x, t in zip(paths, texts)}
    else:
        if how == "late":
            p = CParser(paths, process_all=False)
            p.process_all()
        elif how in ("cache", "gone"):
            CParser(paths, cache=d + "/c")
            if how == "gone":
                os.unlink(paths[-1])
            p = CParser(paths, cache=d + "/c")
        elif how == "import":
            p = CParser(paths[1:], copy_from=CParser(paths[:1]))
        else:
            p = CParser(paths, **({"values": DEEP} if len(case["pick"]) > 1 else {}))
        lines = {x: t.split("\n") for x, t in p.files.items() if t is not None}
        for x in p.file_order:
            if x not in lines and not (how == "gone" and x == paths[-1]):
                raise Violation("no text for %r" % x)
    show = "\n".join("--- %s\n%s" % (n, t) for n, t in zip(NAMES, texts))
    before = copy.deepcopy((p.defs, p.file_defs, p.files, p.file_order))
    labels = {how}
    # searching
    pool = [x for ls in lines.values() for x in ls if x.strip()] or ["x"]
    for k, a, n in case["pick"]:
        x = pool[k % len(pool)]
        case_text = x[a % len(x):][:n]
        check_text(p, lines, case_text, show, labels)
    for t in case["texts"]:
        check_text(p, lines, t, show, labels)
    # printing
    for who, defs in [(None, p.defs)] + [(f, dd) for f, dd in p.file_defs.items() if f is not None]:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            p.print_all(*([] if who is None else [who]))
        check_listing(out.getvalue(), defs, "print_all(%s)" % (who or ""), show)
    check_listing(str(p), p.defs, "str", show)
    if (p.defs, p.file_defs, p.files, p.file_order) != before:
        raise Violation("searching or printing changes the parser\n" + show)
    sut.shutil.rmtree(d)
    return sorted(labels)


def check_text(p, lines, t, show, labels):
    want = sorted((f, i, x) for f, ls in lines.items() for i, x in enumerate(ls) if t in x)
    got = sorted(map(tuple, p.find_text(t)))
    if got != want:
        raise Violation("find_text(%r): %r instead of %r\n%s" % (t, got, want, show))
    labels.add("found" if want else "not found")


def check_listing(text, defs, what, show):
    parts = re.split(r"^=+ (%s) =+\n" % "|".join(CATS), text, flags=re.M)
    if parts[0].strip() or sorted(parts[1::2]) != sorted(CATS):
        raise Violation("%s has the sections %r\n%s" % (what, parts[1::2], show))
    for cat, body in zip(parts[1::2], parts[2::2]):
        try:
            v = eval(body.strip(), {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum, "inf": float("inf"), "nan": float("nan")})
        except Exception as e:
            raise Violation("%s, section %s: %r\n%s\n%s" % (what, cat, e, body, show))
        if v != defs[cat] or repr(sorted(map(str, v))) != repr(sorted(map(str, defs[cat]))):
            raise Violation("%s, section %s: %r instead of %r\n%s" % (what, cat, v, defs[cat], show))


PARTS = [Part("reports", cases(), run, 700, rule="all")]
