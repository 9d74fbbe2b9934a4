"""Strategies for structure and union definitions (see vlib.c for the syntax tree)."""
from . import core
core.setup_paths()
from hypothesis import strategies as st  # noqa: E402
from . import gen  # noqa: E402

BIT_SPECS = {"int": 32, "unsigned": 32, "unsigned int": 32, "signed int": 32, "unsigned char": 8, "char": 8, "short": 16,
             "unsigned short": 16, "long": 64, "unsigned long long": 64, "uint8_t": 8, "uint32_t": 32, "long unsigned int": 64, "bool": 1, "int16_t": 16}


def member_name(draw, used, stems=gen.STEMS):
    n = draw(st.sampled_from(stems))
    while n in used:
        n += "_"
    used.add(n)
    return n


@st.composite
def members(draw, env, depth=2, used=None, bits=True, self_tag=None, nested=True, hi=5, stems=gen.STEMS, fnptr=True, quals=True, extra=True):
    """Members of a struct; used holds the names visible in it (anonymous members
    share them).  bits is 2 to have unnamed bit-fields of width 0."""
    used = set() if used is None else used
    out = []
    for _ in range(draw(st.integers(1, hi))):
        k = draw(st.sampled_from(["plain"] * 5 + ["bits"] * 2 * bits + ["self"] * bool(self_tag) + (["nested", "anon", "enum"] if nested and depth else [])))
        if k == "bits":
            spec = draw(st.sampled_from(sorted(BIT_SPECS)))
            ds = []
            for _ in range(draw(st.integers(1, 3))):
                name = member_name(draw, used, stems) if draw(st.integers(0, 5)) else None
                w = draw(st.integers(0 if bits == 2 and name is None else 1, BIT_SPECS[spec]))
                ds.append([name, ["B"], w])
            if draw(st.integers(0, 7)) == 0:        # an ordinary member among them
                ds.append([member_name(draw, used, stems), ["B"], None])
            out.append([["b", spec, [], []], ds])
        elif k == "self":
            out.append([["b", self_tag, draw(gen.quals_st) if quals else [], []],
                        [[member_name(draw, used, stems), ["p", ["B"], []], None] for _ in range(draw(st.integers(1, 2)))]])
        elif k in ("nested", "anon"):
            kind = draw(st.sampled_from(["struct", "union"]))
            if k == "anon":
                ms = draw(members(env, depth - 1, used, bits, None, nested, 3, stems, fnptr, quals, extra))
                out.append([["S", kind, None, ms, []], []])
            else:
                tag = env.name(draw) if draw(st.booleans()) else None
                ms = draw(members(env, depth - 1, set(), bits, kind + " " + tag if tag else None, nested, 3, stems, fnptr, quals, extra))
                if tag:
                    env.tags.append(kind + " " + tag)
                shapes = [draw(st.sampled_from([["B"], ["B"], ["p", ["B"], []], ["a", ["B"], 3], ["p", ["p", ["B"], []], []], ["a", ["a", ["B"], 2], 4]]))
                          for _ in range(draw(st.sampled_from([1, 1, 2])))]
                out.append([["S", kind, tag, ms, draw(gen.quals_st) if quals else []],
                            [[member_name(draw, used, stems), t, None] for t in shapes]])
        elif k == "enum":
            tag = env.name(draw) if draw(st.booleans()) else None
            ms = [[env.name(draw), None] for _ in range(draw(st.integers(1, 3)))]
            out.append([["E", tag, ms], [[member_name(draw, used, stems), ["B"], None]]])
            if tag:
                env.enums.append("enum " + tag)
        else:
            shapes = []
            for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
                ks = gen.kinds_st(draw, 3, "member")
                if not fnptr:
                    ks = [x for x in ks if x != "f"]
                shapes.append(ks)
            b = draw(gen.base_type(env, void=all(x[-1:] in (["p"], ["f"]) for x in shapes), quals=quals))
            b = gen.no_array_result(env, b, any("f" in x for x in shapes))
            out.append([b, [[member_name(draw, used, stems), gen.build(draw, env, x, "member", 2, extra), None] for x in shapes]])
    return out
