"""Headers mixing every kind of definition, as items of tokens (plain JSON data):
    {"t": "decl", "k": kind, "toks": [...], "names": [...]}   free layout
    {"t": "dir", "k": kind, "toks": [...], "names": [...]}    one logical line
names are [category, name] pairs the item defines.  In a directive, the token
"NAME(" of a function-like macro holds the parenthesis that must follow the name.
"""
from . import core
core.setup_paths()
from hypothesis import strategies as st  # noqa: E402
from . import c, gen, structs  # noqa: E402

STRINGS = ['"abc"', '"/* no */"', '"a // b"', '"x\\"y"', '"#define"', '"it\'s"', '"*/"', '"a\\\\"', '"{;}"', '""', '"a" "b"']
NUMS = ["1", "0", "42", "0x1F", "017", "2.5", "1e3", "10UL", "-3", "(7)", "1 + 2", "(3 * 4) - 1", "1 << 4", "~0", "0x10 | 3", "6 / 4"]


def toks(text):
    return text.split()


class Ctx:
    def __init__(self, stems):
        self.env = gen.Env(stems)
        self.macros = []        # numeric object-like macros
        self.fns = []           # function-like macros [name, arity]
        self.code = []          # macros standing for a type
        self.open = 0


def num(draw, cx, depth=1):
    k = draw(st.integers(0, 5))
    if k == 0 and cx.macros:
        return [draw(st.sampled_from(cx.macros))]
    if k == 1 and cx.fns and depth:
        n, a = draw(st.sampled_from(cx.fns))
        out = [n, "("]
        for i in range(a):
            out += ([","] if i else []) + num(draw, cx, 0)
        return out + [")"]
    if k == 2 and depth:
        return ["(", *num(draw, cx, 0), draw(st.sampled_from(["+", "*", "-", "|"])), *num(draw, cx, 0), ")"]
    return toks(draw(st.sampled_from(NUMS)))


@st.composite
def item(draw, cx, kinds):
    env = cx.env
    k = draw(st.sampled_from(kinds))
    D = lambda t, names, kind=k: [{"t": "decl", "k": kind, "toks": t, "names": names}]      # noqa
    P = lambda t, names, kind=k: [{"t": "dir", "k": kind, "toks": t, "names": names}]       # noqa
    if k == "var":
        b, d = draw(gen.declaration(env, "var", depth=3))
        sto = draw(st.sampled_from([[], [], ["static"], ["extern"], ["inline"]]))
        return D([*sto, *c.multi_tokens(b, d), ";"], [["functions" if c.is_function(gen.fill(t, b)) else "variables", n] for n, t in d])
    if k == "fndef":
        t = ["f", gen.build(draw, env, draw(st.sampled_from([[], ["p"]])), "ret", 2), gen.param_list(draw, env, 2)]
        b = draw(gen.base_type(env, void=True))
        n = env.name(draw)
        body = toks(draw(st.sampled_from(["{ }", "{ return 0 ; }", "{ if ( 1 ) { foo ( ) ; } }", "{ const char * s = \"}\" ; }", "{ int y = 3 ; { y = 4 ; } return y ; }"])))
        return D([*c.multi_tokens(b, [[n, t]]), *body], [["functions", n]])
    if k == "typedef":
        b, d = draw(gen.declaration(env, "typedef", depth=3, functions=False))
        env.typedefs += [[n, gen.typedef_kind(env, b, t)] for n, t in d]
        return D(["typedef", *c.multi_tokens(b, d), ";"], [["types", n] for n, _ in d])
    if k == "init":
        n = env.name(draw)
        f = draw(st.integers(0, 3))
        if f == 0:
            t = ["char", "*", n, "=", *toks(draw(st.sampled_from([s for s in STRINGS if " " not in s])))]
        elif f == 1:
            t = ["int", n, "[", "]", "=", "{"]
            for i in range(draw(st.integers(1, 3))):
                t += ([","] if i else []) + num(draw, cx)
            t += ["}"]
        else:
            t = [draw(st.sampled_from(["int", "double", "long"])), n, "=", *num(draw, cx)]
        return D([*t, ";"], [["variables", n]])
    if k == "array":
        n = env.name(draw)
        return D(["int", n, "[", *([draw(st.sampled_from(cx.macros))] if cx.macros else ["3"]), "]", ";"], [["variables", n]])
    if k == "enum":
        tag = env.name(draw) if draw(st.booleans()) else None
        t, names = ["enum", *([tag] if tag else []), "{"], []
        for i in range(draw(st.integers(1, 4))):
            n = env.name(draw)
            names.append(["values", n])
            t += [n] + (["=", *toks(draw(st.sampled_from(["1", "4", "0x10", "1 << 3", "-2"])))] if draw(st.booleans()) else []) + [","]
        t = t[:-1] + ["}"]
        if tag:
            env.enums.append("enum " + tag)
            names += [["enums", tag], ["types", "enum " + tag]]
            return D([*t, ";"], names)
        n = env.name(draw)
        env.typedefs.append([n, "b"])
        return D(["typedef", *t, n, ";"], names + [["types", n]])
    if k == "struct":
        kind = draw(st.sampled_from(["struct", "struct", "union"]))
        tag = env.name(draw) if draw(st.integers(0, 2)) else None
        n0 = len(env.tags), len(env.enums)
        ms = draw(structs.members(env, 1, None, True, kind + " " + tag if tag else None, True, 4, env.stems))
        names = [[x.split()[0] + "s", x.split()[1]] for x in env.tags[n0[0]:]] + [["enums", x.split()[1]] for x in env.enums[n0[1]:]]
        names += [["types", x] for x in env.tags[n0[0]:] + env.enums[n0[1]:]]
        for base, _ in walk(ms):
            if base[0] == "E":
                names += [["values", m[0]] for m in base[2]]
        t = c.base_tokens(["S", kind, tag, ms, []])
        if tag:
            env.tags.append(kind + " " + tag)
            names += [[kind + "s", tag], ["types", kind + " " + tag]]
            return D([*t, ";"], names)
        n = env.name(draw)
        env.typedefs.append([n, "b"])
        return D(["typedef", *t, n, ";"], names + [["types", n]])
    if k == "macro":            # not named as a member or parameter may be
        n = env.name(draw, "M_" + draw(st.sampled_from(env.stems)))
        f = draw(st.integers(0, 4))
        if f == 0:
            v = toks(draw(st.sampled_from([s for s in STRINGS if " " not in s])))
        elif f == 1:
            v = []
        else:
            v = num(draw, cx)
        if f > 1:
            cx.macros.append(n)
        return P(["#", "define", n, *v], [["macros", n], *([["values", n]] if v else [])])
    if k == "fnmacro":
        n = env.name(draw, "M_" + draw(st.sampled_from(env.stems)))
        a = draw(st.integers(0, 2))
        ps = ["par_a", "par_b"][:a]
        body = ["(", *[x for p in ps for x in ["(", p, ")", "+"]], *num(draw, cx, 0), ")"]
        t = ["#", "define", n + "("]
        for i, p in enumerate(ps):
            t += ([","] if i else []) + [p]
        cx.fns.append([n, a])
        return P([*t, ")", *body], [["fnmacros", n]])
    if k == "alias":                    # another name of a function-like macro
        pre = [] if cx.fns else draw(item(cx, ["fnmacro"]))
        n = env.name(draw, "M_" + draw(st.sampled_from(env.stems)))
        f, a = draw(st.sampled_from(cx.fns))
        cx.fns.append([n, a])
        return pre + P(["#", "define", n, f], [["fnmacros", n]])
    if k == "code":          # macros standing for something else than a value
        n = env.name(draw, "M_" + draw(st.sampled_from(env.stems)))
        v = env.name(draw)
        if draw(st.booleans()):
            body = draw(st.sampled_from(["const int", "unsigned", "extern int *", "", "struct { int q_a ; int q_b ; }", "const char *"]))
            if n not in cx.code:
                cx.code.append([n, body])
            return P(["#", "define", n, *toks(body)], [["macros", n]]) + D([*([] if body else ["int"]), n, v, ";"], [["variables", v]])
        return P(["#", "define", n + "(", "par_t", ",", "par_n", ")", "par_t", "*", "par_n", "[", "2", "]"], [["fnmacros", n]]) + D(
            [n, "(", draw(st.sampled_from(["int", "const char", "unsigned long"])), ",", v, ")", ";"], [["variables", v]])
    if k == "usecode" and cx.code:
        n, body = draw(st.sampled_from(cx.code))
        v = env.name(draw)
        return D([*([] if body else ["int"]), n, v, ";"], [["variables", v]])
    if k == "usecode":
        return D(["int", v := env.name(draw), ";"], [["variables", v]])
    if k == "pack":
        v = draw(st.sampled_from([["1"], ["2"], ["4"], []]))
        return P(["#", "pragma", "pack", "(", *v, ")"], [])
    if k == "undef":
        n = env.name(draw, "M_" + draw(st.sampled_from(env.stems)))
        return P(["#", "define", n, "1"], []) + P(["#", "undef", n], [])
    if k == "cond":
        val = draw(st.booleans())
        ops = draw(st.sampled_from([["1", "0"], ["2 > 1", "2 < 1"], ["! defined ( NO_SUCH )", "defined NO_SUCH"], ["1 && ! 0", "0 || 0"]]))
        head = P(["#", "if", *toks(ops[0] if val else ops[1])], [])
        sub = lambda: draw(item(cx, [x for x in kinds if x not in ("cond", "macro", "fnmacro", "pack", "enum", "struct", "typedef", "alias", "code")] or ["var"]))   # noqa
        a, b = sub(), sub()
        for i in b if val else a:
            i["names"], i["dead"] = [], True
        return head + a + P(["#", "else"], []) + b + P(["#", "endif"], [])
    raise ValueError(k)


def walk(ms):
    for base, ds in ms:
        yield base, ds
        if base[0] == "S":
            yield from walk(base[3])


KINDS = ["var"] * 3 + ["typedef"] * 2 + ["fndef", "init", "array", "enum", "struct", "struct", "macro", "macro", "fnmacro", "init", "cond", "undef", "alias", "code", "usecode"]


@st.composite
def header(draw, lo=1, hi=7, kinds=KINDS, stems=gen.SAFE_STEMS):
    """List of groups of items; a group must stay together."""
    cx = Ctx(stems)
    return [draw(item(cx, kinds)) for _ in range(draw(st.integers(lo, hi)))]


def plain_text(groups):
    out = []
    for g in groups:
        for it in g:
            out.append(join_dir(it["toks"]) if it["t"] == "dir" else c.join(it["toks"]))
    return "\n".join(out) + "\n"


def join_dir(ts):
    """A directive with single spaces."""
    s = ts[0] + ts[1]
    for a, b in zip(ts[1:], ts[2:]):
        s += " " + b
    return s


# --- comparison of two parsers ignoring the names given to unnamed aggregates --------------
def canon(defs, text):
    """Definitions as plain data; aggregates whose name is not in the text are
    described by their content where they are used."""
    import re
    known = set(re.findall(r"[A-Za-z_$][\w$]*", text)) if isinstance(text, str) else text

    def spec(s, seen):
        m = re.match(r"(struct|union|enum) (\S+)$", s) if isinstance(s, str) else None
        if not m or m.group(2) in known or s in seen:
            return s
        kind, name = m.groups()
        d = defs[kind + "s"].get(name)
        if d is None:
            return ["undefined", kind]
        if kind == "enum":
            return ["anonymous enum", {a: c.plain(b) for a, b in d.items()}]
        return ["anonymous", kind, d["pack"], members(d, seen | {s})]

    def typ(t, seen=frozenset()):
        n = c.norm(t)
        return ["T", spec(n[1], seen), [decl(x, seen) for x in n[2]], n[3]]

    def decl(x, seen):
        if isinstance(x, list) and x[0] == "()":
            return ["()", [[a[0], ["T", spec(a[1][1], seen), [decl(y, seen) for y in a[1][2]], a[1][3]], a[2]] for a in x[1]]]
        return x

    def members(d, seen):
        return [[m[0], typ(m[1], seen), *m[2:]] for m in d["members"]]

    res = {}
    for k, d in defs.items():
        if k == "types":
            res[k] = {n: typ(v) for n, v in d.items() if n.split()[-1] in known}
        elif k == "functions":
            res[k] = {n: [typ(v), len(v)] for n, v in d.items()}
        elif k == "variables":
            res[k] = {n: [c.plain(v[0]), typ(v[1])] for n, v in d.items()}
        elif k in ("structs", "unions"):
            res[k] = {n: [type(v).__name__, members(v, frozenset([k[:-1] + " " + n])), v["pack"]] for n, v in d.items() if n in known}
        elif k == "enums":
            res[k] = {n: {a: c.plain(b) for a, b in v.items()} for n, v in d.items() if n in known}
        elif k == "fnmacros":
            res[k] = {n: [text_toks(v[0]), list(v[1])] for n, v in d.items()}
        elif k == "macros":
            res[k] = {n: text_toks(v) for n, v in d.items()}
        else:
            res[k] = {n: c.plain(v) for n, v in d.items()}
    return res


def text_toks(s):
    """Tokens of the text of a macro (spaces are not significant)."""
    import re
    return re.findall(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[\w.$]+|<<|>>|\S', s) if isinstance(s, str) else c.plain(s)
