"""Hypothesis strategies building headers (plain JSON data)."""
from . import core
core.setup_paths()
from hypothesis import strategies as st  # noqa: E402

# Words close to keywords, Python names, macros...
STEMS = ["a", "b", "x", "val", "Foo", "_p", "intx", "my_int", "unsigned_a", "longer", "structure",
         "enumerate", "unions", "const1", "staticv", "typedefs", "charm", "voidp", "signedness",
         "size_tt", "shorty", "definedX", "ifdef_x", "in", "is", "lambda", "None", "pass_", "max",
         "len", "FLAG_1U", "e5", "x0L", "u", "L", "f", "A", "N_1", "doubled", "floats", "booly",
         "wchar_tt", "externs", "inlined", "restricted", "volatile_x", "near_x", "farx", "T", "p_", "anon"]
PY_KEYWORDS = {"in", "is", "lambda", "None", "pass", "from", "def", "max", "len"}
SAFE_STEMS = [s for s in STEMS if s not in PY_KEYWORDS]


class Env:
    """Names already used while generating a header."""

    def __init__(self, stems=STEMS):
        self.used = set()
        self.n = 0
        self.stems = stems
        self.typedefs = []      # [name, ast of the resolved type]
        self.tags = []          # spelling "struct tag"
        self.enums = []
        self.consts = []        # [name, value]

    def name(self, draw, stem=None):
        stem = stem or draw(st.sampled_from(self.stems))
        if stem in self.used or stem in PY_KEYWORDS and self.stems is SAFE_STEMS:
            self.n += 1
            while stem + str(self.n) in self.used:
                self.n += 1
            stem = stem + str(self.n)
        self.used.add(stem)
        return stem


INT_SPECS = ["char", "short", "int", "long", "unsigned", "signed", "long long", "unsigned char",
             "signed char", "short int", "unsigned short", "unsigned short int", "unsigned int",
             "signed int", "long int", "unsigned long", "unsigned long int", "long unsigned int",
             "long long int", "unsigned long long", "unsigned long long int", "signed long",
             "signed short", "signed long long"]
C99 = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t"]
FLOAT_SPECS = ["float", "double", "long double"]
OTHER = ["bool", "wchar_t", "ssize_t", "time_t"]
ALL_SPECS = INT_SPECS + C99 + FLOAT_SPECS + OTHER

quals_st = st.sampled_from([[]] * 7 + [["const"], ["volatile"], ["const", "volatile"], ["volatile", "const"]])
ptr_quals = st.sampled_from([[]] * 7 + [["const"], ["volatile"], ["restrict"], ["const", "restrict"]])
ws_st = st.one_of(st.just([]), st.lists(st.integers(0, 6), min_size=1, max_size=7))


@st.composite
def base_type(draw, env, void=False, quals=True, structs=True, enums=True, specs=ALL_SPECS, post=True):
    pool = ["spec"] * 4
    if env.typedefs:
        pool += ["typedef"] * 2
    if structs and env.tags:
        pool.append("tag")
    if enums and env.enums:
        pool.append("enum")
    if void:
        pool.append("void")
    k = draw(st.sampled_from(pool))
    if k == "spec":
        s = draw(st.sampled_from(specs))
    elif k == "typedef":
        s = draw(st.sampled_from(env.typedefs))[0]
    elif k == "tag":
        s = draw(st.sampled_from(env.tags))
    elif k == "enum":
        s = draw(st.sampled_from(env.enums))
    else:
        s = "void"
    pre = draw(quals_st) if quals else []
    pst = draw(quals_st) if quals and post and not pre else []
    return ["b", s, pre, pst]


def kinds_st(draw, depth, ctx):
    """Derivations from the outermost inwards, respecting the C rules: no function
    returning an array or function, no array of functions."""
    kinds, prev = [], None
    for _ in range(draw(st.integers(0, depth))):
        if prev == "f":                 # what a function returns
            opts = ["p"]
        elif prev == "p":
            opts = ["p", "p", "a", "f"]
        else:
            opts = ["p", "p", "a"]
        prev = draw(st.sampled_from(opts))
        kinds.append(prev)
    return kinds


def build(draw, env, kinds, ctx, depth, extra=True):
    """The type with a hole ["B"] for a list of derivations (outermost first)."""
    t = ["B"]
    for i in reversed(range(len(kinds))):
        k = kinds[i]
        if k == "p":
            # parentheses directly around a pointer change nothing
            if extra and i < len(kinds) and draw(st.integers(0, 15)) == 0 and ctx != "param":
                t = ["g", t]
            elif extra and t[0] == "f" and draw(st.integers(0, 9)) == 0 and ctx != "param":
                t = ["cc", t, draw(st.sampled_from(["__stdcall", "__cdecl"]))]
            t = ["p", t, draw(ptr_quals)]
        elif k == "a":
            unsized = i == 0 and ctx in ("param", "var") and draw(st.integers(0, 3)) == 0
            t = ["a", t, None if unsized else draw(st.integers(1, 12))]
            if ctx == "param" and i == 0 and draw(st.integers(0, 3)) == 0:
                t.append(draw(st.sampled_from([["const"], ["restrict"], ["volatile", "const"]] if unsized else
                                              [["static"], ["static"], ["const"], ["static", "const"], ["restrict", "static"]])))
        else:
            t = ["f", t, param_list(draw, env, max(0, depth - 1))]
    return t


def param_list(draw, env, depth):
    n = draw(st.integers(-1, 3))
    if n < 0:
        return None                     # (void)
    ps, local = [], {x[0] for x in env.typedefs}
    for _ in range(n):
        name = None
        if draw(st.integers(0, 2)) > 0:
            name = draw(st.sampled_from(env.stems)) + draw(st.sampled_from(["", "1", "_"]))
            name = None if name in local else name
            local.add(name)
        # long chains of derivations for some, but not for their own parameters
        if depth and draw(st.integers(0, 5)) == 0:
            kinds = draw(st.sampled_from([["p", "f", "p", "f"], ["p", "f", "p", "a"], ["a", "p", "f"], ["p", "a", "p", "f"], ["p", "p", "f"], ["p", "f", "p", "p", "f"]]))
        else:
            kinds = kinds_st(draw, depth, "param")
        b = draw(base_type(env, void=kinds[-1:] in (["p"], ["f"])))
        b = no_array_result(env, b, "f" in kinds)
        ps.append([name, fill(build(draw, env, kinds, "param", depth), b)])
    return ps


@st.composite
def declaration(draw, env, ctx, lo=1, hi=3, depth=4, functions=True, extra=True):
    """(base, [[name, type with hole], ...]) of one declaration."""
    shapes = []
    for _ in range(draw(st.integers(lo, hi))):
        kinds = kinds_st(draw, depth, ctx)
        t = build(draw, env, kinds, ctx, depth, extra)
        if functions and kinds[:1] != ["a"] and kinds[:1] != ["f"] and draw(st.integers(0, 2)) == 0:
            if extra and t == ["B"] and draw(st.integers(0, 7)) == 0:
                t = ["cc", t, draw(st.sampled_from(["__stdcall", "__cdecl"]))]
            t = ["f", t, param_list(draw, env, depth - 2)]
            kinds = ["f", *kinds]
        if extra and draw(st.integers(0, 11)) == 0:
            t = ["g", t]
        shapes.append((kinds, t))
    b = draw(base_type(env, void=all(k[-1:] in (["p"], ["f"]) for k, _ in shapes)))
    b = no_array_result(env, b, any("f" in k for k, _ in shapes))
    return [b, [[env.name(draw), t] for _, t in shapes]]


def typedef_kind(env, b, t):
    """Outermost derivation of a typedef name (looking through the one it uses)."""
    k = inner_kind(t)
    if k == "B":
        k = dict(map(tuple, env.typedefs)).get(b[1], "b")
    return k


def no_array_result(env, b, has_function):
    """Functions cannot return arrays, even typedef'd."""
    if has_function and [b[1], "a"] in env.typedefs:
        return ["b", "int", *b[2:]]
    return b


def fill(t, b):
    from .c import fill as f
    return f(t, b)


def inner_kind(t):
    """Outermost derivation of a type."""
    while t[0] in ("g", "cc"):
        t = t[1]
    return t[0]


BODIES = ["{ }", "{ return 0; }", "{ int y = 3; { y = 4; } return y; }", "{ if (1) { foo(); } }",
          '{ const char *s = "}"; return s[0]; }', "{ struct q { int a; } z; z.a = 1; }"]


@st.composite
def header(draw, env=None, hi=6, depth=4, stems=STEMS, extra=True):
    """List of items:
        ["var", storage|None, base, decls]   variables and prototypes
        ["typedef", base, decls]
        ["fndef", storage|None, base, decl, body index]
        ["tag", kind, tag]                   forward or simple definition
    """
    env = env or Env(stems)
    items = []
    for _ in range(draw(st.integers(1, hi))):
        k = draw(st.sampled_from(["var"] * 4 + ["typedef"] * 3 + ["fndef", "struct", "enum"]))
        if k == "var":
            b, d = draw(declaration(env, "var", depth=depth, extra=extra))
            items.append(["var", draw(st.sampled_from([None, None, "static", "extern", "inline"])), b, d])
        elif k == "typedef":
            b, d = draw(declaration(env, "typedef", depth=depth, extra=extra))
            items.append(["typedef", b, d])
            for n, t in d:
                if inner_kind(t) != "f":
                    env.typedefs.append([n, typedef_kind(env, b, t)])
        elif k == "fndef":
            kinds = [x for x in draw(st.sampled_from([[], ["p"], ["p", "p"], ["p", "f"], ["p", "a"]]))]
            t = ["f", build(draw, env, kinds, "ret", 2, extra), param_list(draw, env, 2)]
            b = draw(base_type(env, void=True))
            items.append(["fndef", draw(st.sampled_from([None, "static", "inline", "extern", "static inline"])), b,
                          [env.name(draw), t], draw(st.integers(0, len(BODIES) - 1))])
        elif k == "struct":
            kind = draw(st.sampled_from(["struct", "union"]))
            tag = env.name(draw)
            items.append(["tag", kind, tag])
            env.tags.append(kind + " " + tag)
        else:
            tag = env.name(draw)
            items.append(["enumtag", tag, env.name(draw)])
            env.enums.append("enum " + tag)
    return items


def item_tokens(it):
    from . import c
    k = it[0]
    if k == "var":
        return ([it[1]] if it[1] else []) + c.multi_tokens(it[2], it[3]) + [";"]
    if k == "typedef":
        return ["typedef"] + c.multi_tokens(it[1], it[2]) + [";"]
    if k == "fndef":
        return ([it[1]] if it[1] else []) + c.multi_tokens(it[2], [it[3]]) + [BODIES[it[4]]]
    if k == "tag":
        return [it[1], it[2], "{", "int", "m0", ";", "}", ";"]
    if k == "enumtag":
        return ["enum", it[1], "{", it[2], "}", ";"]
    raise ValueError(it)


def render(items, ws=()):
    from . import c
    return "\n".join(c.join(item_tokens(i), ws) for i in items) + "\n"


def expected(items):
    """Definitions the items must give: {'variables':..., 'types':..., 'functions':...}"""
    from . import c
    res = {"variables": {}, "types": {}, "functions": {}, "tags": []}
    for it in items:
        if it[0] in ("var", "fndef"):
            for n, t in (it[3] if it[0] == "var" else [it[3]]):
                full = fill(t, it[2])
                cat = "functions" if c.is_function(full) else "variables"
                res[cat][n] = c.norm_ast(full)
        elif it[0] == "typedef":
            for n, t in it[2]:
                res["types"][n] = c.norm_ast(fill(t, it[1]))
        elif it[0] == "tag":
            res["tags"].append(it[1] + " " + it[2])
        elif it[0] == "enumtag":
            res["tags"].append("enum " + it[1])
    return res
