"""Enumerations (named, anonymous, in typedefs, variables and structs) with implicit
values, constant expressions over macros and earlier enumerators, and mentions
before or after the definition; the recorded enumerators are compared with the
values gcc gives them, and every mention must lead to its enumeration."""
import re
from hypothesis import strategies as st
from vlib import sut, c
from vlib.core import Part, Violation, HarnessError
from checks.c05 import expr, py_eval, V, Out

DEFS = ["enum %T %B;", "enum %B;", "typedef enum %T %B %n;", "typedef enum %B %n;", "enum %T %B %v;", "enum %B %v, *%w;",
        "struct %s { enum %T %B m; int k; };", "struct %s { int k; enum %B m; };", "typedef enum %T %B %n, *%p;", "static enum %T %B %v;",
        "extern enum %B %v[3];", "const enum %T %B %v;"]
MENTIONS = ["enum %T *%v;", "void %f(enum %T *a, int b);", "struct %s { enum %T *m; };", "typedef enum %T *%n;", "enum %T;"]
LATE = ["enum %T %v;", "enum %T %f(enum %T a);", "struct %s { int a; enum %T m; };", "typedef enum %T %n;", "enum %T %v[2][3], %w;"]
NAMES = ["Red", "GREEN", "k_a", "x", "FLAG_1U", "E0", "in", "True_", "max", "A1L", "def", "none", "id", "int_a"]


@st.composite
def cases(draw):
    items, macros, known, tags, n = [], [], [], [], 0
    todo = [draw(st.sampled_from(DEFS)) for _ in range(draw(st.integers(1, 4)))]
    for form in todo:
        n += 1
        tag = "Tag%d" % n
        if draw(st.integers(0, 3)) == 0:
            m = "MAC%d" % n
            items.append({"k": "macro", "name": m, "text": draw(expr(macros, 2))})
            macros.append(m)
        if "%T" in form and draw(st.integers(0, 2)) == 0:
            items.append({"k": "mention", "form": draw(st.sampled_from(MENTIONS)), "tag": tag, "id": "b%d" % n})
        members = []
        for i in range(draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7]))):
            name = "%s%s%d_%d" % (draw(st.sampled_from(NAMES)), draw(st.sampled_from(["", "_"])), n, i)
            val = None
            if draw(st.integers(0, 2)) == 0:
                val = draw(expr(macros + known, 2, casts="named"))
            members.append([name, val])
            known.append(name)
        items.append({"k": "def", "form": form, "tag": tag, "id": "d%d" % n, "members": members,
                      "comma": draw(st.booleans()), "ws": draw(st.sampled_from([" ", "\n", "", " /* c */ "]))})
        if draw(st.integers(0, 3)) == 0:        # the name was, or becomes, a macro too
            name = draw(st.sampled_from(members))[0]
            old = draw(st.sampled_from(["", "1", "0x20", "(3)", "foo bar", "\"s\""]))
            if draw(st.booleans()):
                items.insert(draw(st.integers(0, len(items) - 1)), {"k": "text", "text": "#define %s %s\n#undef %s" % (name, old, name)})
            else:
                items.append({"k": "text", "text": "#define %s %s" % (name, name)})
        tags += [tag] * ("%T" in form)
        if tags and draw(st.integers(0, 2)) == 0:
            items.append({"k": "mention", "form": draw(st.sampled_from(LATE + MENTIONS)), "tag": draw(st.sampled_from(tags)), "id": "a%d" % n})
    return {"items": items}


def render(it):
    if it["k"] == "text":
        return it["text"]
    if it["k"] == "macro":
        return "#define %s %s" % (it["name"], it["text"])
    s = it["form"].replace("%T", it["tag"])
    for ch in "nvwpfs":
        s = s.replace("%" + ch, ch + it["id"])
    if it["k"] == "def":
        ws = it["ws"]
        body = ("," + ws).join(m[0] + ("" if m[1] is None else ws + "=" + ws + m[1]) for m in it["members"])
        s = s.replace("%B", "{" + ws + body + ("," if it["comma"] else "") + ws + "}")
    return s


def run(case):
    env, macros, keep = {}, {}, []
    for it in case["items"]:
        it = dict(it)
        if it["k"] == "macro":
            texts = [("m", it["name"], it["text"])]
        elif it["k"] == "def":
            texts = [("e", *m) for m in it["members"]]
        else:
            keep.append(it)
            continue
        prev_v, new, bad = -1, [], False
        for kind, name, t in texts:
            try:
                if t is None:
                    v = V(prev_v + 1)
                else:
                    u = None
                    while u != t:
                        u = t
                        t = re.sub(r"(?<![\w.])[A-Za-z_]\w*", lambda m: macros.get(m.group(0), m.group(0)), t)
                    v = py_eval(t, env)
                    if not isinstance(v, V):
                        raise Out
                v = V(v.v)
            except (Out, NameError):
                if kind == "m":
                    bad = True
                    break
                new.append([name, None])
                try:
                    v = V(prev_v + 1)
                except Out:
                    return False
            except (SyntaxError, TypeError) as e:
                raise HarnessError("model: %r on %r" % (e, it))
            else:
                if kind == "m":
                    macros[name] = t
                    break
                new.append([name, next(x[1] for x in it["members"] if x[0] == name)])
            env[name], prev_v = v, v.v
        if bad:
            continue
        if it["k"] == "def":
            it["members"] = new
        keep.append(it)
    text = "typedef long MyT;\n" + "\n".join(render(i) for i in keep) + "\n"
    defs = [i for i in keep if i["k"] == "def"]
    names = [m[0] for i in defs for m in i["members"]]
    vals = dict(zip(names, sut.c_values(text.replace("typedef long MyT;", "typedef long MyT;\n"), names)))
    p = sut.parse(text)
    # enumerators
    for n in names:
        got = p.defs["values"].get(n, "missing")
        if got != vals[n] or not isinstance(got, int):
            raise Violation("enumerator %s is %r as a constant, expected %r\n%s" % (n, got, vals[n], text))
    bodies = [dict((m[0], vals[m[0]]) for m in i["members"]) for i in defs]
    recorded = {k: dict(v) for k, v in p.defs["enums"].items()}
    for k, v in recorded.items():
        if v not in bodies:
            raise Violation("enum %s is recorded as %r, which no definition gives\n%s" % (k, v, text))

    def follow(spec, it):
        """Body of the enumeration a type name stands for."""
        if not (isinstance(spec, str) and spec.startswith("enum ")):
            raise Violation("%r is not an enumeration\n%s" % (spec, text))
        if spec not in p.defs["types"]:
            raise Violation("%r is not a known type\n%s" % (spec, text))
        return recorded.get(tuple(p.defs["types"][spec])[1])
    tags = {}
    for it, body in zip(defs, bodies):
        if "%T" in it["form"]:
            tags[it["tag"]] = body
    for it, body in [(i, bodies[defs.index(i)] if i["k"] == "def" else tags[i["tag"]]) for i in keep if i["k"] in ("def", "mention")]:
        f, i = it["form"], it["id"]
        specs = []
        if "%T" in f:
            if recorded.get(it["tag"]) != body:
                raise Violation("enum %s is recorded as %r, expected %r\n%s" % (it["tag"], recorded.get(it["tag"]), body, text))
            specs.append("enum " + it["tag"])
        elif not any(v == body for v in recorded.values()):
            raise Violation("anonymous enum with %r not recorded\n%s" % (sorted(body), text))
        if "%n" in f:
            specs.append(p.defs["types"]["n" + i][0])
        if "%p" in f:
            specs.append(p.defs["types"]["p" + i][0])
        for ch in "vw":
            if "%" + ch in f:
                specs.append(p.defs["variables"][ch + i][1][0])
        if "%s" in f:
            ms = p.defs["structs"]["s" + i]["members"]
            specs += [m[1][0] for m in ms if m[0] == "m"]
            if not any(m[0] == "m" for m in ms):
                raise Violation("struct member lost\n" + text)
        if "%f" in f:
            fn = p.defs["functions"]["f" + i]
            specs.append(fn[1][0][1][0])
            if f.startswith("enum"):
                specs.append(fn[0][0])
        for s in specs:
            if follow(s, it) != body:
                raise Violation("%r stands for %r, expected %r\n%s" % (s, follow(s, it), body, text))
    labels = {"anonymous" if "%T" not in i["form"] else "named" for i in defs}
    if any(i["k"] == "mention" and i["id"][0] == "b" for i in keep):
        labels.add("mentioned before")
    if any(i["k"] == "mention" and i["id"][0] == "a" for i in keep):
        labels.add("mentioned after")
    if any(m[1] is not None for i in defs for m in i["members"]):
        labels.add("explicit values")
    if sum("%T" not in i["form"] for i in defs) > 1:
        labels.add("several anonymous")
    return sorted(labels) if len(names) > 1 else False


# --- character constants and values the parser does not evaluate ---------------------------
CHARS = ["'%s'" % x for x in "aZ0 ,;={}()#/*+-\"_?:"] + ["'\\n'", "'\\t'", "'\\0'", "'\\''", "'\\\\'", "'\\x41'", "'\\101'", "'\\r'", "'\\a'", "'\\\"'", "'\\7'",
                                                               "'\\377'", "'\\xff'", "'\\x80'", "'\\?'", "'\\x041'", "'\\e'", "'\\177'"]
UNKNOWN = ["1 ? 2 : 3", "(%s > 0) ? 4 : 5", "!1", "!%s", "1 && 2", "%s || 0", "(%s ? 'a' : 'b')", "sizeof(int)", "(int) sizeof(struct known *)", "2 * sizeof(long) - 1", "offsetof(struct known, b)", "sizeof(char[7])", "-(int)sizeof('a')",
           "__alignof__(int)", "sizeof(int) == 4 ? 3 : 9", "sizeof(int (*)(void))", "newval", "(int) sizeof(sizeof_k)", "sizeof_k + 1", "SIZE(int)",
           "L'a'", "u'b' + 1", "0b11", "sizeof(known_v)[0]", "sizeof known_v[0]", "'ab'", "(int)sizeof(\"a}b\")", "__extension__ (%s)"]


@st.composite
def hard(draw):
    enums, n = [], 0
    for i in range(draw(st.integers(1, 3))):
        ms = []
        for _ in range(draw(st.integers(1, 7))):
            k = draw(st.sampled_from(["implicit", "implicit", "char", "char op", "number", "unknown"]))
            ch = draw(st.sampled_from(CHARS))
            ms.append(["E%d" % n, k, {"implicit": None, "char": ch, "number": str(draw(st.integers(-9, 300))),
                                      "char op": draw(st.sampled_from(["%s + 1", "2 * %s", "%s | 0x100", "(%s)", "1 << 9 | %s", "%s - 'a'", "-%s"])) % ch,
                                      "unknown": draw(st.sampled_from(UNKNOWN))}[k]])
            if k == "unknown" and "%s" in ms[-1][2]:
                ms[-1][2] %= draw(st.sampled_from([m[0] for e in enums for m in e["members"]] or ["7"]))
            n += 1
        enums.append({"members": ms, "form": draw(st.sampled_from(["enum T%d %s;", "enum T%d %s var%d;", "typedef enum T%d %s td%d;", "struct s%d { enum T%d %s m; };"])),
                      "ws": draw(st.sampled_from([" ", "\n", ""]))})
    return enums


def run_hard(enums):
    text, names = "#define newval 21\n#define sizeof_k 34\n#define SIZE(x) (sizeof(x) + 1)\nstruct known { int a; int b; }; extern char known_v[3];\n", []
    for i, e in enumerate(enums):
        body = "{" + ("," + e["ws"]).join(n if v is None else n + e["ws"] + "=" + e["ws"] + v for n, k, v in e["members"]) + "}"
        f = e["form"].replace("%s", "\0").replace("%d", str(i)).replace("\0", body)
        text += f + "\n"
        names += [m[0] for m in e["members"]]
    vals = dict(zip(names, sut.c_values(text, names)))
    p = sut.parse(text)
    labels = set()
    for i, e in enumerate(enums):
        got = p.defs["enums"].get("T%d" % i)
        if got is None or list(got) != [m[0] for m in e["members"]]:
            raise Violation("enum T%d is recorded as %r\n%s" % (i, got, text))
        lost = False
        for n, k, v in e["members"]:
            labels.add(k)
            lost = lost if k == "implicit" else k == "unknown"
            want = [vals[n], None] if lost else [vals[n]]
            if got[n] not in want or isinstance(got[n], (bool, float)):
                raise Violation("enumerator %s is %r, expected %s\n%s" % (n, got[n], " or ".join(map(str, want)), text))
            if n not in p.defs["values"] or p.defs["values"][n] != got[n]:
                raise Violation("enumerator %s is %r as a constant, expected %r\n%s" % (n, p.defs["values"].get(n, "missing"), got[n], text))
    return sorted(labels) if labels & {"char", "char op", "unknown"} else False


PARTS = [Part("enums", cases(), run, 2000, rule="non-trivial: more than one enumerator"),
         Part("characters and unknown values", hard(), run_hard, 700, rule="non-trivial: a character constant, or a value the parser need not know")]
