"""C abstract syntax as plain JSON data, its rendering to source text and the
description (normal form) the parser is expected to record for it.

Types
    ["b", spec, pre_quals, post_quals]   base type; spec is the recorded spelling
    ["p", inner, quals]                  pointer
    ["a", inner, dim, words?]            array; dim is an int, or None for []; words are
                                         the ones before it (parameters)
    ["f", ret, params]                   function; params: list of [name|None, type];
                                         None for (void), [] for ()
    ["g", inner]                         redundant parentheses in the declarator
    ["cc", inner, conv]                  calling convention (directly inside a function)
    ["S", kind, tag|None, members, pre_quals]  struct/union defined in place
    ["E", tag|None, members]             enum defined in place
    ["B"]                                hole filled by the base of the declaration
"""


def fill(t, base):
    k = t[0]
    if k == "B":
        return base
    if k in ("p", "a", "g", "cc", "f"):
        return [k, fill(t[1], base), *t[2:]]
    return t


# --- rendering -----------------------------------------------------------------
def quals(q):
    return list(q)


def declarator(t, name):
    """Tokens of the declarator of type t, and the base type they leave."""
    toks = [name] if name is not None else []
    prev = None
    while True:
        k = t[0]
        if k == "p":
            toks = ["*", *quals(t[2]), *toks]
        elif k == "g":
            toks = ["(", *toks, ")"]
            prev = None
            t = t[1]
            continue
        elif k == "cc":
            toks = [t[2], *toks]
            prev = "p"
            t = t[1]
            continue
        elif k == "a":
            if prev == "p":
                toks = ["(", *toks, ")"]
            toks = [*toks, "[", *(t[3] if len(t) > 3 else []), *([] if t[2] is None else [dim_text(t[2])]), "]"]
        elif k == "f":
            if prev == "p":
                toks = ["(", *toks, ")"]
            toks = [*toks, "(", *params(t[2]), ")"]
        else:
            return toks, t
        prev = k
        t = t[1]


def dim_text(d):
    return d if isinstance(d, str) else str(d)


def params(ps):
    if ps is None:
        return ["void"]
    out = []
    for i, (n, t) in enumerate(ps):
        if i:
            out.append(",")
        out += decl_tokens(t, n)
    return out


def base_tokens(b):
    if b[0] == "b":
        return [*quals(b[2]), *b[1].split(), *quals(b[3])]
    if b[0] == "S":
        return [*quals(b[4] if len(b) > 4 else []), b[1], *([b[2]] if b[2] else []), "{",
                *members_tokens(b[3]), "}"]
    if b[0] == "E":
        return ["enum", *([b[1]] if b[1] else []), "{", *enum_tokens(b[2]), "}"]
    raise ValueError(b)


def decl_tokens(t, name):
    d, b = declarator(t, name)
    return base_tokens(b) + d


def multi_tokens(base, decls):
    """decls: list of [name, type with hole]."""
    out = base_tokens(base)
    for i, (n, t) in enumerate(decls):
        if i:
            out.append(",")
        d, b = declarator(t, n)
        assert b == ["B"], b
        out += d
    return out


def width_tokens(bits, n):
    """One of the ways to write a width (the same one each time for a name)."""
    k = sum(map(ord, n or "")) + bits
    return [[str(bits)], [str(bits)], [str(bits)], ["0x%x" % bits], ["0%o" % bits], ["%du" % bits], ["(", str(bits), ")"], [str(bits), "+", "0"],
            ["(", "0X%X" % bits, "-", "1", "+", "1", ")"], [str(bits), "*", "1L"], ["(", "int", ")", str(bits)]][k % 11]


def members_tokens(ms):
    """members: list of [base, [[name|None, type with hole, bits|None], ...]]."""
    out = []
    for base, decls in ms:
        out += base_tokens(base)
        for i, (n, t, bits) in enumerate(decls):
            if i:
                out.append(",")
            d, _ = declarator(t, n)
            out += d
            if bits is not None:
                out += [":", *width_tokens(bits, n)]
        out.append(";")
    return out


def enum_tokens(ms):
    """members: list of [name, expr text|None]; the last item may be "," for a
    trailing comma."""
    out = []
    for i, m in enumerate(ms):
        if m == ",":
            out.append(",")
            continue
        if i:
            out.append(",")
        out.append(m[0])
        if m[1] is not None:
            out += ["=", m[1]]
    return out


def need_space(a, b):
    x, y = a[-1], b[0]
    w = lambda c: c.isalnum() or c == "_" or c == "$"  # noqa
    if w(x) and w(y):
        return True
    # never let two punctuators merge
    return not (w(x) or w(y)) and (x + y in ("++", "--", "->", "<<", ">>", "&&", "||", "==", "//", "/*", "<=", ">=", "+=", "-=", "*/"))


SEPS = ["", " ", "", "  ", "\n", "\t", "\n\n  "]


def join(toks, ws=()):
    """Join tokens; ws is a list of ints choosing the separators, cyclically."""
    out = []
    for i, t in enumerate(toks):
        if i:
            sep = SEPS[ws[i % len(ws)] % len(SEPS)] if ws else " "
            if sep == "" and need_space(toks[i - 1], t):
                sep = " "
            out.append(sep)
        out.append(t)
    return "".join(out)


# --- expected descriptions --------------------------------------------------------
def flat(t):
    """(spec, [decl...], [quals...]) where decl is '*', ['[]', n], ['()', params] or a
    calling convention."""
    k = t[0]
    if k == "b":
        return t[1], [], [[*t[2], *t[3]]]
    if k == "S":
        return t, [], [list(t[4]) if len(t) > 4 else []]
    if k == "E":
        return t, [], [[]]
    if k == "g":
        return flat(t[1])
    if k == "p":
        s, d, q = flat(t[1])
        return s, d + ["*"], q + [list(t[2])]
    if k == "cc":
        s, d, q = flat(t[1])
        return s, d + [t[2]], q + [[]]
    if k == "a":
        dims = []
        while t[0] in "ag":
            if t[0] == "a":
                dims.append(["[]", -1 if t[2] is None else t[2]])
            t = t[1]
        s, d, q = flat(t)
        return s, d + dims, q + [[] for _ in dims]
    if k == "f":
        s, d, q = flat(t[1])
        return s, d + [["()", params_norm(t[2])]], q + [[]]
    raise ValueError(t)


def params_norm(ps):
    if ps is None:
        return [[None, ["T", "void", [], [[]]], None]]
    return [[n, norm_ast(t), None] for n, t in ps]


def norm_ast(t):
    s, d, q = flat(t)
    return ["T", s, d, q]


def is_function(t):
    while t[0] == "g":
        t = t[1]
    return t[0] == "f"


# --- what the code under test recorded, as plain data ------------------------------
def norm(t):
    """Normal form of a recorded type; the function form (return type in its own
    type) is flattened."""
    spec = t[0]
    decls = [norm_decl(d) for d in tuple(t)[1:]]
    tq = [list(q or ()) for q in t.type_quals]
    if not isinstance(spec, str):
        inner = norm(spec)
        return ["T", inner[1], inner[2] + decls, inner[3] + tq[1:]]
    return ["T", spec, decls, tq]


def norm_decl(d):
    if isinstance(d, str):
        return d
    if isinstance(d, list):
        return ["[]", d[0]] if len(d) == 1 else ["[]", *d]
    if isinstance(d, tuple):
        return ["()", [[a[0], norm(a[1]), a[2]] for a in d]]
    return ["?", repr(d)]


def norm_members(comp):
    return [[m[0], norm(m[1]), *[x for x in m[2:]]] for m in comp["members"]]


def norm_defs(defs, skip=()):
    """All definitions as plain data (for comparisons between two parsers)."""
    res = {}
    for k, d in defs.items():
        if k in skip:
            continue
        if k == "types":
            res[k] = {n: norm(v) for n, v in d.items()}
        elif k == "functions":
            res[k] = {n: [norm(v), len(v)] for n, v in d.items()}
        elif k == "variables":
            res[k] = {n: [plain(v[0]), norm(v[1])] for n, v in d.items()}
        elif k in ("structs", "unions"):
            res[k] = {n: [type(v).__name__, norm_members(v), v["pack"]] for n, v in d.items()}
        elif k == "enums":
            res[k] = {n: {a: plain(b) for a, b in v.items()} for n, v in d.items()}
        elif k == "fnmacros":
            res[k] = {n: [v[0], list(v[1])] for n, v in d.items()}
        else:
            res[k] = {n: plain(v) for n, v in d.items()}
    return res


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return ["float", repr(v)]
    return v


def plain_deep(v):
    """Any definition as plain data, with the classes, qualifiers and order of the items."""
    if hasattr(v, "type_quals"):
        return ["type", [plain_deep(x) for x in v], plain_deep(v.type_quals)]
    if isinstance(v, dict):
        return ["dict", type(v).__name__, [[k, plain_deep(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain_deep(x) for x in v]
    if isinstance(v, float):
        return ["float", repr(v)]
    return v if isinstance(v, (int, str, type(None))) else repr(v)


def diff(a, b, path=""):
    """First differences of two plain data structures, as text."""
    if type(a) is not type(b):
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s: unexpected %r = %r" % (path, k, b[k])
            if k not in b:
                return "%s: missing %r (expected %r)" % (path, k, a[k])
            d = diff(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r != %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/%d" % i)
            if d:
                return d
        return None
    return None if a == b else "%s: expected %r, got %r" % (path, a, b)
