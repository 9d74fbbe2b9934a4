"""Headers of random declarations (nested declarators over fundamental, typedef,
struct, union and enum bases; several declarators; storage classes; function
bodies; random spacing) are parsed and compared with the description computed
from the syntax tree they were printed from."""
from hypothesis import strategies as st
from vlib import c, gen, real, sut
from vlib.core import Part, Violation


def run(case):
    items, ws = case["items"], case["ws"]
    text = gen.render(items, ws)
    p = sut.parse(text)
    exp = gen.expected(items)
    got = {
        "variables": {n: c.norm(v[1]) for n, v in p.defs["variables"].items()},
        "functions": {n: c.norm(v) for n, v in p.defs["functions"].items()},
        "types": {n: c.norm(v) for n, v in p.defs["types"].items() if n.split()[0] not in ("struct", "union", "enum")},
    }
    tags = exp.pop("tags")
    d = c.diff(exp, got)
    if d:
        raise Violation("recorded definitions differ: %s\nheader:\n%s" % (d, text))
    for n, v in p.defs["functions"].items():
        if len(v) != 2 or not isinstance(v[0], sut.Type):
            raise Violation("function %s not in the documented form: %r" % (n, v))
    for n, v in p.defs["variables"].items():
        if v[0] is not None:
            raise Violation("variable %s has value %r" % (n, v[0]))
    for t in tags:
        if t not in p.defs["types"]:
            raise Violation("%s not recorded\n%s" % (t, text))
    labels = set()
    for it in items:
        labels.add(it[0])
        for n, t in (it[3] if it[0] == "var" else it[2] if it[0] == "typedef" else []):
            k = 0
            while t[0] in ("p", "a", "f", "g", "cc"):
                k += t[0] in "paf"
                labels.add("has-" + t[0])
                t = t[1]
            if k >= 2:
                labels.add("depth>=2")
            if k >= 4:
                labels.add("depth>=4")
    return sorted(labels) if labels & {"depth>=2", "fndef", "has-f"} else False


@st.composite
def cases(draw):
    return {"items": draw(gen.header(hi=5)), "ws": draw(gen.ws_st)}


# --- declarators with initialisers ---------------------------------------------------------
INITS = ["0", "- 3", "0x10u", "2.5", '"s;,)"', "'a'", "';'", "'\\''", "{ 1 , 2 }", "{ 1 , 2 , }", "{ \"a;\" , \"}\" , 0 }", "( 1 + 2 ) * 3", '"a" "b"', "{ { 1 , 2 } , { 3 } }", "{ }", "{ 0 }",
         "{ . a = 1 , . b = { 2 } }", "{ [ 1 ] = 2 , 3 }", "& zq", "( int * ) & zq", "sizeof ( int )", "sizeof ( struct zq * ) * 2", "- sizeof zq", "sizeof ( zq [ 3 ] )", "zq ( 1 , 2 )",
         "zq -> y . z", "zq ? 1 : 2", "( struct zq ) { 1 }", "zq [ 2 ]", "* zq", "! 1", "zq", "{ zq , zq2 }", "zq == 1 && zq2", "zq . y [ 3 ] ( )", "( zq ) ( 3 )", "& ( ( struct zq * ) 0 ) -> m",
         "{ { \"{\" , ')' } , { \"]\" , 1 } }", "{ { { 1 } } }", "newzq + 1", "sizeof_zq", "new", "( unsigned char ) 1 + ( long ) 2", "zq ( sizeof ( int ) , { 1 } )", "~ 0 & 0xff", "{ sizeof ( int ) , 2 }",
         "{ . a . b = 1 }", "1 , zq2 = 2", "{ ( char ) 1 , ( struct zq * ) 0 }", "zq ( )", "L\"w\"", "1.5e-3f", "0b1"]


def run_inits(case):
    items, ws, inits = case["items"], case["ws"], case["inits"]
    toks, n, used = [], 0, set()
    extra = {}
    for it in items:
        if it[0] != "var":
            toks.append(gen.item_tokens(it))
            continue
        out = ([it[1]] if it[1] else []) + c.base_tokens(it[2])
        for i, (name, t) in enumerate(it[3]):
            out += ([","] if i else []) + c.declarator(t, name)[0]
            full = c.fill(t, it[2])
            k = inits[n % len(inits)]
            n += 1
            if k is None or c.is_function(full):
                continue
            text = INITS[k]
            if text == "1 , zq2 = 2":           # the comma separates declarators
                text = text.replace("zq2", "zq2_%d" % n)
                extra["zq2_%d" % n] = c.norm_ast(it[2])
            if text.startswith("{") and inits[0] == k and i and n % 2:
                text = "{ " + text + " , { 4 } }"
            used.add(len(it[3]) > 1)
            used.add(text)
            out += ["=", *text.split()]
        toks.append(out + [";"])
    text = "\n".join(c.join(x, ws) for x in toks) + "\n"
    p = sut.parse(text)
    exp = gen.expected(items)
    exp.pop("tags")
    exp["variables"].update(extra)
    got = {
        "variables": {n: c.norm(v[1]) for n, v in p.defs["variables"].items()},
        "functions": {n: c.norm(v) for n, v in p.defs["functions"].items()},
        "types": {n: c.norm(v) for n, v in p.defs["types"].items() if n.split()[0] not in ("struct", "union", "enum")},
    }
    d = c.diff(exp, got)
    if d:
        raise Violation("recorded definitions differ: %s\nheader:\n%s" % (d, text))
    return (["several declarators"] if True in used else ["single"]) + (["braces"] if any(str(x).startswith("{") for x in used) else []) if used else False


@st.composite
def init_cases(draw):
    return {"items": draw(gen.header(hi=4)), "ws": draw(gen.ws_st), "inits": draw(st.lists(st.one_of(st.none(), st.integers(0, len(INITS) - 1), st.integers(0, len(INITS) - 1)), min_size=1, max_size=6))}


PARTS = [Part("headers", cases(), run, 2400, rule="non-trivial: a declarator with two or more derivations, or a function"),
         Part("initialisers", init_cases(), run_inits, 900, rule="non-trivial: at least one initialiser"),
         Part("system headers", real.cases, real.types, 48, 400, rule="non-trivial: more than 20 declarations of system headers given to gcc again in the form recorded")]
