"""Constructs outside of the supported subset are inserted between the declarations of
headers of all kinds of definitions.  What is recorded for the header must not change,
only names of the inserted text may be added, and the report of unparsed text must hold
the inserted constructs and none of the declarations."""
import re
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import Part, Violation

# (text, whether the marker ZQ@ must be reported as unparsed)
CONSTRUCTS = [
    ("int ZQ@(const char *fmt, ...);", 1), ("void ZQ@(int a, char b, ...) { }", 1), ("__asm__(\"ZQ@\");", 1), ("asm volatile (\"nop\" : \"=r\"(ZQ@) : \"0\"(y));", 1),
    ("_Static_assert(sizeof(int) == 4, \"ZQ@\");", 1), ("static_assert(ZQ@, \"}\");", 1), ("__attribute__((constructor)) ZQ@;", 0), ("int ZQ@(void) __attribute__((noreturn));", 0),
    ("struct ZQ@ { int zq_a; } __attribute__((packed));", 0), ("extern \"C\" {\nint ZQ@;\n}", 0), ("using namespace ZQ@;", 0), ("template <class T> class ZQ@ { };", 0),
    ("class ZQ@ { public: int zq_b; };", 0), ("struct zq_s ZQ@ = { .zq_a = 1, .zq_b = 2 };", 0), ("int ZQ@[2] = { [0] = 1 };", 0), ("typeof(int) ZQ@;", 0), ("_Alignas(8) int ZQ@;", 0),
    ("__declspec(dllexport) int ZQ@(void);", 0), ("int ZQ@(int zq_c) { goto l; l: return zq_c ? 1 : 0; }", 0), ("int ZQ@(void) { return '}'; }", 0), ("int ZQ@(void) { return \"{\"[0]; }", 0),
    ("#include <ZQ@.h>", 0), ("#include \"ZQ@.h\"", 0), ("#error ZQ@ don't", 0), ("#warning ZQ@", 0), ("#line 3 \"ZQ@\"", 0), ("#", 0), ("#ident \"ZQ@\"", 0), ("#pragma ZQ@ (1)", 0),
    ("#pragma once", 0), ("#import <ZQ@>", 0), ("#if 0\nint it's ZQ@\n#endif", 0), (";", 0), (";;", 0), ("ZQ@;", 0), ("@interface ZQ@", 0), ("%% ZQ@ %%;", 1), (") ZQ@ ;", 0), ("} ZQ@ ;", 0),
    ("]]] ZQ@ ;", 0), ("ZQ@ = 3;", 0), ("ZQ@(1, 2);", 1), ("if (ZQ@) { x = 1; }", 0), ("#define ZQ@(x, ...) f(x, __VA_ARGS__)", 0), ("#define ZQ@ do { x(); } while (0)", 0),
    ("#define ZQ@(x) #x", 0), ("#define ZQ@(x) a##x", 0), ("#define ZQ@ \"unterminated", 0), ("#define ZQ@ (1 +", 0), ("#define ZQ@ )", 0), ("#define", 0), ("#undef", 0), ("#undef ZQ@", 0),
    ("enum ZQ@ { zq_e = sizeof(int) };", 0), ("int ZQ@[sizeof(int)];", 0), ("int ZQ@ = sizeof(int);", 0), ("int ZQ@ = f(2)[3]->a;", 0), ("int (ZQ@);", 0), ("ZQ@ zq_x zq_y zq_z zq_w;", 0), ("123 ZQ@;", 0),
    ("\"ZQ@ string\";", 1), ("'c' ZQ@;", 0), ("struct ZQ@ { int zq_f(void) { return 1; } };", 0), ("struct { int zq_a } ZQ@;", 0), ("int ZQ@ zq_g;", 0), ("typedef ZQ@;", 0), ("= ZQ@;", 0), ("... ZQ@;", 0),
    ("friend class ZQ@;", 0), ("namespace ZQ@ { }", 0), ("public: ZQ@;", 0), ("[[nodiscard]] int ZQ@(void);", 0), ("int operator+(ZQ@ a);", 0), ("static const char *ZQ@[] = { \"a\" \"b\", 0 };", 0),
    ("int ZQ@(zq_a, zq_b) int zq_a; char zq_b; { return 0; }", 0), ("EXPORT ZQ@ API;", 0), ("$ZQ@;", 0), ("\\ZQ@;", 0), ("`ZQ@`;", 1), ("int ZQ@<int>;", 0), ("ZQ@ ::x;", 1), ("delete ZQ@;", 0),
    ("int ZQ@ = 5 +;", 0), ("char ZQ@ = 'a';", 0), ("char ZQ@ = '\\'';", 0), ("char ZQ@ = '\"';", 0), ("long long long ZQ@;", 0), ("union ZQ@ { int : 0; };", 0), ("int ZQ@[];", 0), ("void (ZQ@)(int (*)(void *, ...));", 0),
]


@st.composite
def cases(draw):
    groups = draw(mixed.header(1, 6, kinds=mixed.KINDS + ["pack"]))
    ins = [[draw(st.integers(0, len(groups))), draw(st.integers(0, len(CONSTRUCTS) - 1))] for _ in range(draw(st.integers(1, 4)))]
    return {"groups": groups, "ins": ins, "block": draw(st.sampled_from([None] * 4 + [[draw(st.integers(0, len(groups))), draw(st.integers(0, len(groups)))]]))}


def run(case):
    groups = case["groups"]
    base = mixed.plain_text(groups)
    pieces, added, musts = [], "", []
    blk = sorted(case["block"]) if case["block"] else [-1, -1]
    for i in range(len(groups) + 1):
        if i == blk[1] and blk[0] != blk[1]:
            pieces.append("}\n")
        for j, (at, k) in enumerate(case["ins"]):
            if at == i:
                t, must = CONSTRUCTS[k]
                t = t.replace("ZQ@", "ZQ%d" % j)
                pieces.append(t + "\n")
                added += t + "\n"
                if must:
                    musts.append("ZQ%d" % j)
        if i == blk[0] and blk[0] != blk[1]:
            pieces.append("extern \"C\" {\n")
        if i < len(groups):
            pieces.append(mixed.plain_text([groups[i]]))
    text = "".join(pieces)
    p, q = sut.parse(base), sut.parse(text)
    words = set(re.findall(r"\w+", base))
    own = set(re.findall(r"\w+", added)) - words
    want, got = mixed.canon(p.defs, base), mixed.canon(q.defs, base)
    for cat in want:
        for n, v in got[cat].items():
            if n not in want[cat] and n.split()[-1] not in own:
                raise Violation("%s %s appeared because of the inserted text\n--- header\n%s--- with insertions\n%s" % (cat, n, base, text))
        d = c.diff(want[cat], {n: v for n, v in got[cat].items() if n in want[cat]})
        if d:
            raise Violation("the inserted text changes %s: %s\n--- header\n%s--- with insertions\n%s" % (cat, d, base, text))
    path = sut.write(text)
    r = sut.CParser(path, process_all=False)
    report = "\n".join(r.process_all(return_unparsed=True))
    sut.os.unlink(path)
    d = c.diff(mixed.canon(q.defs, text), mixed.canon(r.defs, text))
    if d:
        raise Violation("asking for the unparsed text changes the definitions: %s\n%s" % (d, text))
    before = mixed.canon(q.defs, text)
    again = "\n".join(q.process_all(return_unparsed=True))
    d = c.diff(before, mixed.canon(q.defs, text))
    if d:
        raise Violation("asking for the unparsed text afterwards changes the definitions: %s\n%s" % (d, text))
    if again.split() != report.split():
        raise Violation("the report made afterwards differs\n--- with the parsing\n%s\n--- afterwards\n%s\n--- header\n%s" % (report, again, text))
    left = set(re.findall(r"\w+", report))
    for m in musts:
        if m not in left:
            raise Violation("%s is not in the report of unparsed text\n--- report\n%s\n--- header\n%s" % (m, report, text))
    for g in groups:
        for it in g:
            if it["t"] == "decl" and not it.get("dead"):
                for cat, n in it["names"]:
                    if n.split()[-1] in left and n.split()[-1] not in re.findall(r"\w+", added):
                        raise Violation("%s %s is in the report of unparsed text\n--- report\n%s\n--- header\n%s" % (cat, n, report, text))
    return sorted({"construct %d" % k for _, k in case["ins"]} | ({"reported"} if musts else set()) | ({"block"} if blk[0] != blk[1] else set()))


# --- directives without effect between the tokens ---------------------------------------------
DIRECTIVES = ["#", "# ", "#pragma once", "#pragma GCC diagnostic push", "# 12 \"a.h\"", "# 1 \"/usr/include/x.h\" 1 3 4", "#line 3 \"x\"", "#include <nothing.h>", "#error don't", "#warning x", "#ident \"x\"", "#import x", "#pragma it's (1)",
              "#if 0\nint ; } ( zq\n#endif", "#define ZQ_1 } ;", "#undef ZQ_1", "#pragma pack", "#region a", "#if 1\n#endif", "#ifdef ZQ_2\n#else\n#endif", " # \\\n pragma x", "#define ZQ_3(x) x", "#\\\npragma x"]


@st.composite
def inside_cases(draw):
    return {"groups": draw(mixed.header(1, 5, kinds=mixed.KINDS + ["pack"])), "at": draw(st.lists(st.integers(0, 12), min_size=1, max_size=6)), "dirs": draw(st.lists(st.integers(0, len(DIRECTIVES) - 1), min_size=1, max_size=5))}


def inside(case):
    base = mixed.plain_text(case["groups"])
    out, k, gap, n = [], 0, case["at"][0], 0
    for g in case["groups"]:
        for it in g:
            if it["t"] == "dir":
                out.append(mixed.join_dir(it["toks"]))
                continue
            call = in_call(it["toks"])
            line = ""
            for i, t in enumerate(it["toks"]):
                line += t
                if i + 1 == len(it["toks"]):
                    break
                if gap == 0 and not call[i]:
                    line += "\n" + DIRECTIVES[case["dirs"][k % len(case["dirs"])]] + "\n"
                    k += 1
                    gap = case["at"][k % len(case["at"])]
                    n += 1
                else:
                    gap = max(0, gap - 1)
                    line += " "
            out.append(line)
    text = "\n".join(out) + "\n"
    p, q = sut.parse(base), sut.parse(text)
    want, got = mixed.canon(p.defs, base), mixed.canon(q.defs, base)
    for cat in got:
        got[cat] = {x: v for x, v in got[cat].items() if not x.startswith("ZQ_")}
    d = c.diff(want, got)
    if d:
        raise Violation("directives change the definitions: %s\n--- header\n%s--- with directives\n%s" % (d, base, text))
    return ["%d inside" % min(n, 5)] if n else False


def in_call(ts):
    """Whether the gap after each token is inside a call of a function-like macro."""
    res, depth = [], 0
    for i, a in enumerate(ts):
        if a == "(" and (depth or i and ts[i - 1].startswith("M_")):
            depth += 1
        elif a == ")" and depth:
            depth -= 1
        res.append(depth > 0 or a.startswith("M_") and ts[i + 1:i + 2] == ["("])
    return res


PARTS = [Part("insertions", cases(), run, 900, rule="all: at least one construct is inserted"),
         Part("directives inside", inside_cases(), inside, 600, rule="non-trivial: a directive is inside a declaration")]
