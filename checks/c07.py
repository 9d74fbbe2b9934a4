"""Headers of structure and union definitions (several declarators, arrays, function
pointers, bit-fields, nested and anonymous aggregates, self references, forward
declarations and mentions before and after) are parsed; the recorded members are
compared recursively with the syntax tree the text was printed from."""
from hypothesis import strategies as st
from vlib import c, gen, structs, sut
from vlib.core import Part, Violation

FORMS = ["tag", "tag", "typedef tag", "typedef", "var", "tag var", "const var"]


@st.composite
def cases(draw):
    env = gen.Env()
    items = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["struct", "struct", "union"]))
        form = draw(st.sampled_from(FORMS))
        tag = env.name(draw) if "tag" in form else None
        full = kind + " " + tag if tag else None
        if tag:
            for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                items.append(mention(draw, env, full, False))
        ms = draw(structs.members(env, 2, None, 2, full))
        names = [env.name(draw) for _ in range(draw(st.integers(1, 2)))] if form != "tag" else []
        items.append(["def", form, kind, tag, ms, names, draw(gen.ws_st)])
        if tag:
            env.tags.append(full)
            for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                items.append(mention(draw, env, full, True))
        if form.startswith("typedef"):
            env.typedefs.append([names[0], "b"])
    # the header may be cut in several files
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        items.insert(draw(st.integers(0, len(items))), ["cut"])
    return items


def mention(draw, env, full, complete):
    k = draw(st.sampled_from(["fwd", "ptr", "fn", "typedef", "member"] + ["var", "arr", "again"] * complete))
    return ["mention", k, full, env.name(draw)]


MENTION = {"fwd": "{t};", "ptr": "{t} *{n};", "fn": "{t} *{n}(const {t} *a, int b);", "typedef": "typedef {t} {n};",
           "member": "struct {n}_holder {{ {t} *m; int k; }};", "var": "{t} {n};", "arr": "extern {t} {n}[2][3];", "again": "{t};"}


def text_of(items):
    out = []
    for it in items:
        if it[0] == "cut":
            out.append("// ---- next file")
            continue
        if it[0] == "mention":
            out.append(MENTION[it[1]].format(t=it[2], n=it[3]))
            continue
        _, form, kind, tag, ms, names, ws = it
        base = ["S", kind, tag, ms, []]
        toks = (["typedef"] if "typedef" in form else ["static"] if form == "tag var" else []) + c.base_tokens(base)
        if form == "const var":
            toks = ["const", *toks]
        for i, n in enumerate(names):
            toks += ([","] if i else []) + (["*"] if i else []) + [n]
        out.append(c.join([*toks, ";"], ws))
    return "\n".join(out) + "\n"


class Checker:
    def __init__(self, p, text):
        self.p, self.text = p, text
        self.anon = {}

    def fail(self, msg):
        raise Violation(msg + "\n" + self.text)

    def aggregate(self, spec, node, path):
        """spec: recorded name 'struct xxx'; node: ["S", ...]."""
        _, kind, tag, ms, _q = node
        if not isinstance(spec, str) or not spec.startswith(kind + " "):
            self.fail("%s: type %r, expected a %s" % (path, spec, kind))
        if spec not in self.p.defs["types"]:
            self.fail("%s: %r is not a known type" % (path, spec))
        if tag is not None and spec != kind + " " + tag:
            self.fail("%s: type %r, expected %s %s" % (path, spec, kind, tag))
        name = tuple(self.p.defs["types"][spec])[1]
        if tag is None:
            other = self.anon.setdefault((kind, name), (node, path))
            if other[0] is not node:
                self.fail("%s and %s share the unnamed %s %s" % (path, other[1], kind, name))
        rec = self.p.defs[kind + "s"].get(name)
        if rec is None:
            self.fail("%s: %s %s is not recorded" % (path, kind, name))
        if type(rec).__name__ != kind.capitalize():
            self.fail("%s: recorded as %s" % (path, type(rec).__name__))
        self.members(rec, ms, path + "/" + (tag or "?"))

    def members(self, rec, ms, path):
        exp = []
        for base, ds in ms:
            if not ds:
                exp.append((None, base, None, base))
            for n, t, bits in ds:
                exp.append((n, c.fill(t, base), bits, base))
        got = rec["members"]
        if [m[0] for m in got] != [e[0] for e in exp]:
            self.fail("%s: members %r, expected %r" % (path, [m[0] for m in got], [e[0] for e in exp]))
        for (n, t, bits, base), m in zip(exp, got):
            where = "%s.%s" % (path, n)
            if m[2] is not None:
                self.fail("%s: default value %r" % (where, m[2]))
            if (m[3] if len(m) > 3 else None) != bits or len(m) > 4:
                self.fail("%s: bit width %r, expected %r" % (where, m[3:], bits))
            want, have = c.norm_ast(t), c.norm(m[1])
            if base[0] in "SE":
                if want[2:] != have[2:]:
                    self.fail("%s: type %r, expected %r" % (where, have, want[2:]))
                if base[0] == "S":
                    self.aggregate(have[1], base, where)
                else:
                    self.enum(have[1], base, where)
            elif want != have:
                self.fail("%s: type %r, expected %r" % (where, have, want))

    def enum(self, spec, node, path):
        want = {m[0]: i for i, m in enumerate(node[2])}
        if not spec.startswith("enum ") or node[1] and spec != "enum " + node[1]:
            self.fail("%s: type %r" % (path, spec))
        got = self.p.defs["enums"].get(spec[5:])
        if got is None or dict(got) != want:
            self.fail("%s: enumerators %r, expected %r" % (path, got, want))


def run(items):
    text = text_of(items)
    parts = text.split("// ---- next file\n")
    if len(parts) == 1:
        p = sut.parse(text)
    else:
        paths = [sut.write(t) for t in parts]
        p = sut.CParser(paths)
        for q in paths:
            sut.os.unlink(q)
    ch = Checker(p, text)
    labels = {"files-%d" % len(parts)}
    for it in items:
        if it[0] == "cut":
            continue
        if it[0] == "mention":
            labels.add("mentioned")
            k, full, n = it[1:]
            got = {"ptr": lambda: p.defs["variables"][n][1][0], "var": lambda: p.defs["variables"][n][1][0],
                   "arr": lambda: p.defs["variables"][n][1][0], "typedef": lambda: p.defs["types"][n][0],
                   "fn": lambda: p.defs["functions"][n][0][0], "member": lambda: p.defs["structs"][n + "_holder"]["members"][0][1][0],
                   "fwd": lambda: full, "again": lambda: full}[k]()
            if got != full:
                ch.fail("%s has type %r, expected %r" % (n, got, full))
            continue
        _, form, kind, tag, ms, names, ws = it
        node = ["S", kind, tag, ms, []]
        if tag:
            spec = kind + " " + tag
        elif "typedef" in form:
            spec = p.defs["types"][names[0]][0]
        else:
            spec = p.defs["variables"][names[0]][1][0]
        ch.aggregate(spec, node, names[0] if names else tag)
        for i, n in enumerate(names):
            got = c.norm(p.defs["types"][n] if "typedef" in form else p.defs["variables"][n][1])
            q = ["const"] if form == "const var" else []
            want = ["T", spec, ["*"] * i, [q] + [[]] * i]
            if got != want:
                ch.fail("%s has type %r, expected %r" % (n, got, want))
        for base, ds in ms:
            labels.add({"S": "nested" if ds else "anonymous", "E": "enum", "b": "plain"}[base[0]])
            if any(d[2] is not None for d in ds):
                labels.add("bit-field")
            if len(ds) > 1:
                labels.add("several declarators")
    return sorted(labels) if labels & {"nested", "anonymous", "enum", "bit-field", "several declarators"} else False


# --- sizes using types, members with an initialiser ----------------------------------------
SIZES = [("3", 3), ("0x10", 16), ("2 * 4 + 1", 9), ("N", 5), ("(N + 1) * 2", 12), ("sizeof(int)", None), ("64 - 2 * sizeof(void *)", None), ("sizeof (struct known)", None),
         ("(unsigned) sizeof(long) * 8", None), ("128 / sizeof(unsigned long int)", None), ("SIZE(int)", None), ("sizeof(int) == 4 ? 1 : 2", None), ("newN", 6), ("sizeof_N", 7),
         ("sizeof(char[3])", None), ("sizeof(((struct known *) 0)->a)", None), ("sizeof(N) + 1", None), ("offsetof(struct known, b)", None), ("1 << 2", 4), ("(int) 8", 8), ("-(-3)", 3)]
VALUES = [("0", 0), ("-3", -3), ("0x10", 16), ("N", 5), ("2.5", 2.5), ("0.0", 0.0), ("\"text;}\"", "text;}"), ("\"\"", ""), ("{1, 2}", [1, 2]), ("{0, }", [0]), ("{ }", None), ("{{1}, {2}}", None),
          ("fn(2)", None), ("sizeof(int)", None), ("&zq", None), ("N * 2 - 10", 0), ("newN", 6)]
BEFORE = "#define N 5\n#define newN 6\nint sizeof_N = 7, fn(int a);\n#define SIZE(x) (sizeof(x) * 2)\nstruct known { int a; int b; };\n"


@st.composite
def sized(draw):
    out, n = [], 0
    for i in range(draw(st.integers(1, 3))):
        ms = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.sampled_from(["plain", "array", "array", "array 2", "bits", "value", "values"]))
            ms.append([k, "m%d" % n, draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.sampled_from(["int", "unsigned char", "struct known *", "double", "const long"]))])
            n += 1
        out.append([draw(st.sampled_from(["struct S%d { %s };", "union S%d { %s };", "typedef struct S%d { %s } td%d;", "struct S%d { %s } var%d, *ptr%d;", "struct S%d { %s } arr%d[sizeof(int)];"])), ms, draw(st.booleans())])
    return out


def run_sized(case):
    text, labels, known = BEFORE, set(), {}
    for i, (form, ms, lines) in enumerate(case):
        body, want = [], []
        for k, n, a, b, t in ms:
            val, tail, arr, bits = None, "", [], ()
            if k.startswith("array"):
                arr = [SIZES[a % len(SIZES)]] + [SIZES[b % len(SIZES)]] * (k == "array 2")
                tail = "".join("[%s]" % x for x, _ in arr)
            elif k == "bits":
                w = SIZES[a % len(SIZES)]
                t, tail, bits = "int", " : %s" % w[0], (w[1],)
            elif k.startswith("value"):
                v = VALUES[a % len(VALUES)]
                tail, val = " = " + v[0], v[1]
                if k == "values":
                    v2 = VALUES[b % len(VALUES)]
                    tail += ", %s_ = %s, %s__" % (n, v2[0], n)
            if t.endswith("*") and k != "plain":
                t = t[:-2]
            want.append((n, t, [x for _, x in arr], val, bits))
            if k == "values":
                if t.endswith("*"):
                    t = "int"
                want += [(n + "_", t, [], v2[1], ()), (n + "__", t, [], None, ())]
            body.append("%s %s%s;" % (t, n, tail))
            labels.add(k.split()[0])
        known[i] = want
        text += form.replace("%d", str(i)) % ("\n" if lines else " ").join(body) + "\n"
    p = sut.parse(text + "int after;\n")
    fail = lambda m: (_ for _ in ()).throw(Violation(m + "\n" + text))       # noqa
    for i, want in known.items():
        rec = p.defs["unions" if case[i][0].startswith("union") else "structs"].get("S%d" % i)
        if rec is None or [m[0] for m in rec["members"]] != [w[0] for w in want]:
            fail("S%d is recorded as %r, expected the members %r" % (i, rec and rec["members"], [w[0] for w in want]))
        for m, (n, t, dims, val, bits) in zip(rec["members"], want):
            got = list(m[1])
            spec = t.replace("const ", "").replace(" *", "")
            star = ["*"] * t.endswith("*")
            if got[0] != spec or [x for x in got[1:] if x == "*"] != star or len(got) != 1 + len(star) + len(dims):
                fail("%s.%s has the type %r" % (i, n, m[1]))
            for x, d in zip(got[1 + len(star):], dims):
                if type(x) is not list or len(x) != 1 or x[0] != d and d is not None:
                    fail("S%d.%s has the type %r" % (i, n, m[1]))
            if m[2] != val or type(m[2]) is not type(val):
                fail("S%d.%s has the initial value %r, expected %r" % (i, n, m[2], val))
            if len(m) > 4 or bits and (len(m) < 4 or m[3] != bits[0] and bits[0] is not None) or not bits and m[3:] not in ((), (None,)):
                fail("S%d.%s has the bit width %r, expected %r" % (i, n, m[3:], bits))
    names = {"sizeof_N", "after"} | {x + str(i) for i, (f, _, _) in enumerate(case) for x in ("var", "ptr", "arr") if x + "%d" in f}
    if set(p.defs["variables"]) != names:
        fail("the variables are %r, expected %r" % (sorted(p.defs["variables"]), sorted(names)))
    return sorted(labels) if labels != {"plain"} else False


PARTS = [Part("structs", cases(), run, 1600, rule="non-trivial: nested or anonymous members, bit-fields, or several declarators on a line"),
         Part("sizes and values", sized(), run_sized, 600, rule="non-trivial: a size or a value is written")]
