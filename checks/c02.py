"""Chains and graphs of typedefs are generated with the type C gives each of them
(computed on the syntax tree); every recorded type, and types derived from them
by further modifiers, are resolved and compared.  Graphs with unknown or
circular names must raise DefinitionError.  Non-trivial cases resolve through
two or more typedefs or must raise."""
from hypothesis import strategies as st
from vlib import c, gen, sut
from vlib.core import Part, Violation
from pyclibrary.errors import DefinitionError


def add_quals(t, q):
    if not q:
        return t
    if t[0] == "g":
        return ["g", add_quals(t[1], q)]
    if t[0] == "a":                     # the qualifiers of an array are the ones of its elements
        return ["a", add_quals(t[1], q), *t[2:]]
    if t[0] == "p":
        return ["p", t[1], [*t[2], *q]]
    assert t[0] == "b", t
    return ["b", t[1], [*t[2], *t[3], *q], []]


def resolve(t, env):
    k = t[0]
    if k == "b":
        if t[1] in env:
            return add_quals(env[t[1]], [*t[2], *t[3]])
        words = [w for w in t[1].split() if w != "signed"]
        return ["b", " ".join(words) or "int", t[2], t[3]]
    return [k, resolve(t[1], env), *t[2:]]


def norm(t):
    r = c.norm_ast(t)
    return ["T", r[1], r[2], [sorted(q) for q in r[3]]]


def sorted_norm(t):
    r = c.norm(t)
    return ["T", r[1], r[2], [sorted(q) for q in r[3]]]


def text_of(case):
    out = []
    for i in case["items"]:
        out.append(c.join((["typedef"] if i[0] == "typedef" else []) + c.multi_tokens(i[1], i[2]) + [";"]))
    return "struct tagS { int m; };\nunion tagU { int m; };\nenum tagE { tagEa };\n" + "\n".join(out) + "\n"


def run(case):
    text = text_of(case)
    p = sut.parse(text)
    before = c.norm_defs(p.defs)
    env, depth, deep = {}, {}, 0
    labels = set()
    for kind, base, decls in case["items"]:
        for name, t in decls:
            full = c.fill(t, base)
            exp = resolve(full, env)
            d = depth.get(base[1], 0)
            deep = max(deep, d)
            if kind == "typedef":
                env[name], depth[name] = exp, d + 1
                rec = p.defs["types"][name]
                queries = [rec, sut.Type(name)]
            else:
                rec = p.defs["variables"][name][1]
                queries = [rec]
            for q in queries:
                for r in (p.eval_type(q), q.eval(p.defs["types"])):
                    if sorted_norm(r) != norm(exp):
                        raise Violation("%r resolves to %r, expected %r\n%s" % (q, r, norm(exp), text))
                    again = p.eval_type(r)
                    if again != r or tuple(again) != tuple(r):
                        raise Violation("resolving %r again gives %r" % (r, again))
                # also as a plain sequence
                got, q = p.eval_type(list(q)), sut.Type(*q)
                if got != q.eval(p.defs["types"]) or tuple(got) != tuple(q.eval(p.defs["types"])):
                    raise Violation("%r as a list resolves to %r\n%s" % (q, got, text))
            if kind == "typedef":
                # the documented legacy form: a plain sequence
                got = p.eval_type([name, *case["mods"]])
                m = exp
                for x in case["mods"]:
                    m = ["p", m, []]
                if sorted_norm(got) != norm(m):
                    raise Violation("[%r, %r] resolves to %r, expected %r\n%s" % (name, case["mods"], got, norm(m), text))
            labels |= {"outer-" + gen.inner_kind(exp)}
    if c.norm_defs(p.defs) != before:
        raise Violation("resolving changed the definitions\n" + text)
    if deep < 2:
        return False
    return sorted(labels | {"chain>=%d" % min(deep, 5)})


@st.composite
def chains(draw):
    env = gen.Env()
    env.tags, env.enums = ["struct tagS", "union tagU"], ["enum tagE"]
    kinds_of, items, recent = {}, [], []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(["typedef"] * 4 + ["var"]))
        if recent and draw(st.integers(0, 5)) > 0:
            base = draw(st.sampled_from(recent[-3:] if draw(st.booleans()) else recent))
            bk = kinds_of[base]
        else:
            base = draw(st.sampled_from(gen.ALL_SPECS + env.tags + env.enums + ["void"]))
            bk = "v" if base == "void" else "b"
        shapes = []
        for _ in range(draw(st.integers(1, 2))):
            ks = gen.kinds_st(draw, 3, kind)
            if kind == "typedef" and not (ks and ks[0] in "af") and draw(st.integers(0, 7)) == 0:
                ks = ["f", *ks]
            if bk in "fv" and ks[-1:] != ["p"] and not (bk == "v" and (ks[-1:] == ["f"] or kind == "typedef" and not ks)):
                ks = [*ks, "p"]
            if bk == "a" and ks[-1:] == ["f"]:
                ks = [*ks, "p"]
            if kind == "var" and not ks and bk == "f":
                ks = ["p"]
            shapes.append(ks)
        q = [] if bk == "f" else draw(gen.quals_st)
        post = draw(gen.quals_st) if bk != "f" and not q else []
        decls = []
        for ks in shapes:
            t = gen.build(draw, env, ks, "typedef", 2, extra=draw(st.booleans()))
            n = env.name(draw)
            decls.append([n, t])
        for n, t in decls:
            if kind == "typedef":
                kinds_of[n] = gen.inner_kind(t) if t != ["B"] and gen.inner_kind(t) != "B" else bk
                recent.append(n)
                env.typedefs.append([n, kinds_of[n]])
        items.append([kind, ["b", base, q, post], decls])
    return {"items": items, "mods": draw(st.sampled_from([[], ["*"], ["*", "*"]]))}


def run_graph(case):
    """edges: [name, base name, pointer?]; a base is another name, a C type or an
    unknown name."""
    lines = ["typedef %s %s%s;" % (b, "*" * n, a) for a, b, n in case["edges"]]
    uses = ["%s %su%d;" % (b, "*" * n, i) for i, (b, n) in enumerate(case["uses"])]
    text = "\n".join(lines + uses) + "\n"
    p = sut.parse(text)
    before = c.norm_defs(p.defs)
    g = {a: (b, n) for a, b, n in case["edges"]}

    def model(b):
        seen, stars = set(), 0
        while b in g:
            if b in seen:
                return None
            seen.add(b)
            b, n = g[b]
            stars += n
        return (b, *"*" * stars) if b in ("int", "char", "struct q") else None
    labels = set()
    for i, (b, n) in enumerate(case["uses"]):
        exp = model(b)
        for q in (p.defs["variables"]["u%d" % i][1], [b, *"*" * n]):
            try:
                got = tuple(p.eval_type(q))
            except DefinitionError:
                got = None
            want = None if exp is None else exp + ("*",) * n
            if got != want:
                raise Violation("%r resolves to %r, expected %r\n%s" % (q, got, want, text))
        labels.add("ok" if exp else "raises")
    if c.norm_defs(p.defs) != before:
        raise Violation("resolving changed the definitions\n" + text)
    return sorted(labels) if "raises" in labels else False


GN = ["A", "B", "C", "D", "E", "F"]


@st.composite
def graphs(draw):
    names = draw(st.permutations(GN))[:draw(st.integers(1, 6))]
    base = st.sampled_from(GN + ["int", "char", "unknown_t", "struct q"])
    edges = [[a, draw(base), draw(st.sampled_from([0, 0, 1]))] for a in names]
    uses = draw(st.lists(st.tuples(base, st.integers(0, 2)).map(list), min_size=1, max_size=4))
    return {"edges": edges, "uses": uses}


PARTS = [Part("chains", chains(), run, 1600, rule="non-trivial: some name needs two or more typedefs"),
         Part("graphs", graphs(), run_graph, 1200, rule="non-trivial: some use must raise DefinitionError")]
