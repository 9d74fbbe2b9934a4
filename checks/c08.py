"""Histories of #pragma pack directives mixed with structure definitions, comments,
skipped branches, macros, continued lines and other directives, over one or two
files.  The packing recorded for each structure is compared with a model of the
pragma stack; a second part compares its effect with the offsets gcc gives.
A push is only generated when the packing in force is the one selected by the
enclosing push (see known_findings.txt for the other case)."""
from hypothesis import strategies as st
from vlib import sut
from vlib.core import Part, Violation

IDS = ["r1", "abc", "x_2", "pusher"]
NOISE = ["", "// #pragma pack(1)", "/* #pragma pack(2)\n   struct c { int a; };\n*/", "#pragma once", "#pragma omp parallel",
         "#pragma packed(1)", "int v%d;", "#define M%d (4)", "#define L%d 1 + \\\n  2", "/* a\n\n b */ int w%d;",
         "#include <none.h>", "void f%d(int a,\n  int b);", "#pragma GCC diagnostic push", "   ", "enum e%d { k%d,\n j%d };",
         "#pragma pack_push(2)", "#if 1\n#endif", "#pragma  ", "#pragma message(\"see pack(1)\")", "#pragma scalar_pack(2)", "#pragma GCC pack(1)", "#pragma pack_(4)", "#pragma unpack (push, 8)", "#pragma region pack (push,1)", "#define pragma pack(1)\n#undef pragma", "#pragma warning(disable: 4103) pack(4)", "char *s%d = \"#pragma pack(1)\";", "#define PK%d \\\n\\\n 3"]
STRUCT = ["struct {t} {{ char c; long long x; }};", "struct {t}\n{{\n  char c;\n  long long x;\n}};",
          "union {t} {{ struct {{ char c; long long x; }} in_; char d; }};", "typedef struct {t} {{ char c; long long x; }} T{t};",
          "typedef struct {{\n char c; /* x\n y */ long long x; }} T{t};", "struct {t} {{ char c; long long x; }} v{t}, *p{t};",
          "struct {t} {{ char c;\n\n\n long long x; }}; int after{t};", "struct {t} {{ char c; long long x; struct {{ int q; }} n; }};",
          "int before{t}; struct {t} {{ char c; long long x; }};", "struct {t} {{ char c; \\\n long long x; }};"]


SKIPPED = ["#pragma pack(1)", "#pragma pack(push, 1)", "#pragma pack(pop)", "struct skipped { int a; };",
           "#pragma pack()", "int skipped_v;", ""]
OPENINGS = [["#if 1"], ["#ifndef NOPE"], ["#ifdef NOPE", "#pragma pack(1)", "#else"], ["#if 0", "#elif 1"]]
CLOSINGS = [["#endif"], ["#else", "#pragma pack(2)", "#endif"], ["#elif 1", "#pragma pack(push, 1)", "#else", "#pragma pack(2)", "#endif"]]


@st.composite
def history(draw, gcc=False, first=0):
    """One file: list of lines (text) and the expected packing of each struct."""
    lines, exp, opened = [], [], []
    cur, stack, n, macro = None, [], first, False
    base = None                 # packing selected by the innermost push
    for _ in range(draw(st.sampled_from([5, 8, 11, 14]))):
        n += 1
        k = draw(st.sampled_from(["struct"] * 5 + ["set"] * 3 + ["push"] * 4 + ["pop"] * 3 + ["noise"] * 4 + ["skip", "skip", "badpop", "mention", "macro", "open", "close"]))
        val = draw(st.sampled_from([1, 2, 4, 8, 16]))
        sp = draw(st.sampled_from(["#pragma pack(%s)", "#pragma pack (%s)", "# pragma  pack( %s )", " #pragma pack(%s) // c", "#pragma pack(%s) /* x */"]))
        if gcc:
            sp = sp.replace("// c", "")
        comma = draw(st.sampled_from([",", ", ", " , "]))
        if k == "set":
            v = draw(st.sampled_from([None, val, val]))
            cur = v
            lines.append(sp % ("" if v is None else v))
        elif k == "macro" and not macro and not gcc:        # gcc does not expand macros there
            macro = True
            lines.append("#define PACKING%d 2" % first)
        elif k == "macro" and not gcc:
            cur = 2
            lines.append("#pragma pack(PACKING%d)" % first)
        elif k == "push" and cur == base:
            ident = draw(st.sampled_from([None, None, *IDS]))
            v = draw(st.sampled_from([None, val, val]))
            stack.append((ident, cur))
            if v is not None:
                cur = v
            base = cur
            lines.append(sp % comma.join(["push", *([ident] if ident else []), *([str(v)] if v else [])]))
        elif k == "pop" and stack:
            ids = [i for i, (d, _) in enumerate(stack) if d]
            if ids and draw(st.booleans()):
                ident = stack[draw(st.sampled_from(ids))][0]
                i = max(j for j, (d, _) in enumerate(stack) if d == ident)
                arg = ["pop", ident]
            else:
                i, arg = len(stack) - 1, ["pop"]
            cur = base = stack[i][1]
            del stack[i:]
            if not gcc and draw(st.integers(0, 4)) == 0:
                cur = val
                arg.append(str(val))
            lines.append(sp % comma.join(arg))
        elif k == "badpop" and not gcc:
            if not stack and draw(st.booleans()):
                lines.append(sp % "pop")
            else:
                lines.append(sp % draw(st.sampled_from(["pop, nosuch", "show"])))
        elif k == "open":               # the rest is in a branch which is taken
            opened.append(draw(st.sampled_from(OPENINGS)))
            lines += opened[-1]
        elif k == "close":
            if opened:
                lines += ["#endif"] if "#else" in opened.pop() else draw(st.sampled_from(CLOSINGS))
        elif k == "skip":
            body = draw(st.lists(st.sampled_from(SKIPPED), max_size=4))
            if draw(st.booleans()):
                body[1:] = [draw(st.sampled_from(["#if 1", "#if 0", "#ifndef NOPE"])), *body[1:],
                            *draw(st.sampled_from([[], ["#else", "#pragma pack(4)"], ["#elif 1", "#pragma pack(2)"]])), "#endif"]
            other = draw(st.sampled_from([[], ["#else"], ["#else", "#pragma pack(2)"], ["#elif 1"]]))
            if other[-1:] == ["#pragma pack(2)"]:
                cur = 2
            lines += [draw(st.sampled_from(["#if 0", "#ifdef NOPE", "#if 1 == 2"])), *body, *other, "#endif"]
        elif k == "mention":
            t = "m%d" % n
            a = draw(st.sampled_from(["struct %s;", "struct %s *q%%s;" % "%s", "void g_%s(struct %s *a);"]))
            lines.append(a.replace("%s", t))
            exp.append(["mention", t])
        elif k == "struct":
            ment = [e for e in exp if e[0] == "mention"]
            form = draw(st.integers(0, len(STRUCT) - 1))
            t = "S%d" % n
            if ment and "union" not in STRUCT[form] and "{t}" in STRUCT[form].split("{{")[0] and draw(st.booleans()):
                t = ment[0][1]
                exp.remove(ment[0])
            lines.append(STRUCT[form].format(t=t))
            exp.append(["struct", t, form, cur])
        else:
            x = draw(st.sampled_from(NOISE))
            if not (gcc and "include" in x):
                lines.append(x.replace("%d", str(n)))
    lines += ["#endif"] * len(opened)
    return {"lines": lines, "exp": [e for e in exp if e[0] == "struct"]}


@st.composite
def files(draw):
    return [draw(history(first=100 * i)) for i in range(draw(st.sampled_from([1, 1, 1, 2])))]


def packing(p, t, form):
    """Recorded packing of the struct of a given form, and of its inner ones."""
    f = STRUCT[form]
    kind = "union" if f.startswith("union") else "struct"
    if "{t}" in f.split("{{")[0]:
        rec = p.defs[kind + "s"][t]
    else:
        rec = p.defs["structs"][p.defs["types"][p.defs["types"]["T" + t][0]][1]]
    inner = [p.defs["structs"][p.defs["types"][m[1][0]][1]] for m in rec["members"] if str(m[1][0]).startswith("struct ")]
    return [rec["pack"]] + [i["pack"] for i in inner]


def run(case):
    paths, texts = [], []
    for i, h in enumerate(case):
        t = "\n".join(h["lines"]) + "\n"
        texts.append(t)
        paths.append(sut.write(t))
    p = sut.CParser(paths)
    full = "// ---- next file\n".join(texts)
    for i, h in enumerate(case):
        for _, t, form, want in h["exp"]:
            got = packing(p, t, form)
            if any(g != want for g in got):
                raise Violation("packing of %s: %r, expected %r\n%s" % (t, got, want, full))
    for d in p.defs.values():
        if any("skipped" in n for n in d):
            raise Violation("skipped struct recorded\n" + full)
    for q in paths:
        sut.os.unlink(q)
    n = sum("pragma" in x and "pack" in x for h in case for x in h["lines"])
    wants = {e[3] for h in case for e in h["exp"]}
    if not n or not wants - {None}:
        return False
    labels = ["files-%d" % len(case), "packings-%d" % len(wants)]
    for w in ("push", "pop", "#if"):
        if any(w in x for h in case for x in h["lines"]):
            labels.append(w)
    return labels


def run_gcc(h):
    text = "\n".join(h["lines"]) + "\n"
    p = sut.parse(text)
    exprs, keys = [], []
    for _, t, form, _w in h["exp"]:
        f = STRUCT[form]
        name = "T" + t if "{t}" not in f.split("{{")[0] else "union " + t if f.startswith("union") else "struct " + t
        exprs.append("offsetof(%s, %s)" % (name, "in_.x" if f.startswith("union") else "x"))
        keys.append((t, form))
    if not exprs:
        return False
    src = "\n".join(x for x in h["lines"] if "include" not in x)
    for (t, form), off in zip(keys, sut.c_values(src, exprs)):
        got = packing(p, t, form)
        if any(min(g or 8, 8) != off for g in got):
            raise Violation("packing of %s: %r, but gcc puts the second member at %d\n%s" % (t, got, off, text))
    return ["gcc"] if any(e[3] for e in h["exp"]) else False


PARTS = [Part("histories", files(), run, 1800, rule="non-trivial: a structure with a packing other than the default"),
         Part("gcc", history(gcc=True), run_gcc, 800, rule="non-trivial: a structure with a packing other than the default")]
