"""Trees of type descriptions (names, pointers, arrays, functions, conventions, qualifiers at every
level), structures, unions and enumerations, and the objects recorded for generated headers,
go through pickling with every protocol, copies, the evaluation of their representation and
the function form and back; equality is compared with the one of an independent plain
description, for pairs of objects differing in one place or not at all."""
import copy, pickle
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import Part, Violation
from pyclibrary.c_parser import Enum, Struct, Type, Union

SPECS = ["int", "unsigned long int", "struct s", "union _u", "enum e", "my_t", "char", "signed", "struct anon_struct0", "", "Type", "it's", "é", "a\"b"]
QUALS = ["const", "volatile", "restrict", "__const", "__declspec(dllexport)", "__attribute__((x(\"y\")))", "near"]
NAMES = [None, "a", "self", "x1", "type_quals", "members", "é"]
VALUES = [None, None, 0, 3, -1, 2.5, "text", "q\"'", [1, 2], True]
quals = st.lists(st.sampled_from(QUALS), max_size=2)


def types(depth):
    decl = [st.sampled_from(["*", "*", "*", "&", "__stdcall"]), st.lists(st.integers(-1, 5), min_size=1, max_size=1)]
    if depth:
        decl.append(st.lists(st.tuples(st.sampled_from(NAMES), types(depth - 1), st.sampled_from(VALUES)).map(lambda x: {"arg": list(x)}), max_size=3))
    n = st.lists(st.one_of(*decl), max_size=4)

    @st.composite
    def build(draw):
        d = draw(n)
        q = None if draw(st.booleans()) else [draw(quals) for _ in range(len(d) + 1)]
        return {"s": draw(st.sampled_from(SPECS)), "d": d, "q": q}
    return build()


def make(t):
    decls = [x if isinstance(x, str) else list(x) if x and isinstance(x[0], int) else tuple((a["arg"][0], make(a["arg"][1]), copy.deepcopy(a["arg"][2])) for a in x) for x in t["d"]]
    if t["q"] is None:
        return Type(t["s"], *decls)
    return Type(t["s"], *decls, type_quals=tuple(tuple(q) for q in t["q"]))


def model(t):
    """Plain description written by hand; the qualifiers default to none."""
    return ["T", t["s"], [x if isinstance(x, str) or x and isinstance(x[0], int) else ["()", [[a["arg"][0], model(a["arg"][1]), a["arg"][2]] for a in x]] for x in t["d"]],
            [list(q) for q in t["q"]] if t["q"] is not None else [[] for _ in range(len(t["d"]) + 1)]]


def plain(x):
    """The same description read from an object."""
    if isinstance(x, Type):
        return ["T", plain(x[0]) if isinstance(x[0], Type) else x[0], [y if isinstance(y, str) else list(y) if isinstance(y, list) else ["()", [[a[0], plain(a[1]), plain(a[2])] for a in y]] for y in tuple(x)[1:]],
                [None if q is None else list(q) for q in x.type_quals]]
    if isinstance(x, (Struct, Union)):
        return [type(x).__name__, [[plain(y) for y in m] for m in x["members"]], x["pack"], sorted(x)]
    if isinstance(x, Enum):
        return ["Enum", sorted(x.items())]
    if isinstance(x, dict):
        return [type(x).__name__, [[k, plain(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [plain(y) for y in x]]
    return [type(x).__name__, x]


members = st.lists(st.tuples(st.sampled_from(NAMES), types(1), st.sampled_from([None, None, 1, 7, 32])).map(list), max_size=4)
compound = st.one_of(st.fixed_dictionaries({"kind": st.sampled_from(["Struct", "Union"]), "members": members, "pack": st.sampled_from([None, None, 1, 2, 4, 8, 16])}),
                     st.fixed_dictionaries({"kind": st.just("Enum"), "members": st.dictionaries(st.sampled_from(["a", "self", "B", "args", "x_1", "members", "pack"]), st.integers(-2**40, 2**64), max_size=4)}))
KINDS = {"Struct": Struct, "Union": Union}


def make_compound(x):
    if x["kind"] == "Enum":
        e = Enum(**{k: v for k, v in x["members"].items()})
        return e
    return KINDS[x["kind"]](*[(n, make(t), v) for n, t, v in x["members"]], pack=x["pack"])


def model_compound(x):
    if x["kind"] == "Enum":
        return ["Enum", sorted([k, v] for k, v in x["members"].items())]
    return [x["kind"], [[n, model(t), v] for n, t, v in x["members"]], x["pack"]]


SPACE = {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum}


def trips(x):
    """(name, result) of every operation giving back the same value."""
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle protocol %d" % p, pickle.loads(pickle.dumps(x, p))
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    yield "two pickles", pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    yield "deepcopy of pickle", copy.deepcopy(pickle.loads(pickle.dumps(x, 2)))
    yield "eval(repr)", eval(repr(x), dict(SPACE))


def check_trips(x, what):
    before = plain(x)
    for name, y in trips(x):
        if plain(y) != before or type(y) is not type(x):
            raise Violation("%s of %s gives %r" % (name, what, y))
        if not (y == x) or not (x == y) or y != x or x != y:
            raise Violation("%s of %s is not equal to it" % (name, what))
        if repr(y) != repr(x):
            raise Violation("%s of %s is represented as %r" % (name, what, y))
        if plain(x) != before:
            raise Violation("%s changed %s" % (name, what))
        if name != "copy":
            spoil(y)
            if plain(x) != before:
                raise Violation("%s of %s shares its parts" % (name, what))


def spoil(x):
    """Change everything that can be changed in an object."""
    if isinstance(x, Type):
        for y in tuple(x):
            spoil(y)
    elif isinstance(x, (list,)):
        for y in x:
            spoil(y)
        x.append(99)
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x["zz"] = 0
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)


# --- generated objects ---------------------------------------------------------
value_cases = st.fixed_dictionaries({"a": types(2), "b": types(2), "change": st.integers(0, 10**6), "compound": compound})


def places(t, path=()):
    yield path
    for i, d in enumerate(t["d"]):
        if not isinstance(d, str) and d and isinstance(d[0], dict):
            for j, a in enumerate(d):
                yield from places(a["arg"][1], (*path, "d", i, j, "arg", 1))


def changed(t, n):
    """Copy of the description with one change (a neutral one at times)."""
    t = copy.deepcopy(t)
    ps = list(places(t))
    u = t
    for k in ps[n % len(ps)]:
        u = u[k]
    n //= len(ps)
    k, n = n % 8, n // 8
    if k == 0:
        u["s"] = SPECS[n % len(SPECS)]
    elif k == 1 and u["d"]:
        u["d"].pop(n % len(u["d"]))
        if u["q"]:
            u["q"].pop()
    elif k == 2:
        u["d"].insert(n % (len(u["d"]) + 1), ["*", "&", [3], []][n // 7 % 4])
        if u["q"]:
            u["q"].append([])
    elif k == 3:
        if u["q"] is None:
            u["q"] = [[] for _ in range(len(u["d"]) + 1)]
        q = u["q"][n % len(u["q"])]
        if q and n // 5 % 2:
            q.pop()
        else:
            q.append(QUALS[n // 10 % len(QUALS)])
    elif k == 4:
        if u["q"] is None:
            u["q"] = [[] for _ in range(len(u["d"]) + 1)]
        elif not any(u["q"]):
            u["q"] = None
    elif k == 5 and u["d"]:
        i = n % len(u["d"])
        d = u["d"][i]
        if isinstance(d, str):
            u["d"][i] = {"*": "&", "&": "*"}.get(d, "*")
        elif d and isinstance(d[0], int):
            d[0] += 1
        elif d:
            d[0]["arg"][0] = NAMES[n // 3 % len(NAMES)]
    elif k == 6 and u["d"] and not isinstance(u["d"][n % len(u["d"])], str) and u["d"][n % len(u["d"])] and isinstance(u["d"][n % len(u["d"])][0], dict):
        u["d"][n % len(u["d"])][0]["arg"][2] = VALUES[n // 3 % len(VALUES)]
    return t


def values(case):
    labels = set()
    da = case["a"]
    a = make(da)
    ma = model(da)
    for db in (da, case["b"], changed(da, case["change"]), changed(da, case["change"] // 3)):
        b, mb = make(db), model(db)
        want = same(ma, mb)
        got = [a == b, b == a, not (a != b), not (b != a)]
        if got != [want] * 4:
            raise Violation("%r and %r: ==, reversed, not !=, reversed: %r instead of %r" % (a, b, got, want))
        if db is not da:
            labels.add("equal" if want else "different")
        # without their qualifiers, types are the tuples of their elements
        if not any(ma[3]) and (a == tuple(a)) is not True:
            raise Violation("%r is not equal to %r" % (a, tuple(a)))
    before = plain(a)
    # accessors
    if a.type_spec != da["s"] or list(a.declarators) != list(tuple(a)[1:]) or len(a.type_quals) != len(a):
        raise Violation("%r: type_spec %r, declarators %r" % (a, a.type_spec, a.declarators))
    check_trips(a, repr(a))
    # function form
    if da["d"]:
        h = a.add_compatibility_hack()
        if plain(a) != before:
            raise Violation("add_compatibility_hack changed %r" % (a,))
        last = da["d"][-1]
        if not isinstance(last, str) and not (last and isinstance(last[0], int)):
            hb = plain(h)
            want = ["T", ["T", ma[1], ma[2][:-1], ma[3][:-1]], ma[2][-1:], [[], ma[3][-1]]]
            if not same(strip(hb), want):
                raise Violation("function form of %r: %r" % (a, h))
            check_trips(h, repr(h))
            r = h.remove_compatibility_hack()
            if plain(r) != before or r != a:
                raise Violation("%r -> %r -> %r" % (a, h, r))
            if plain(h) != hb:
                raise Violation("remove_compatibility_hack changed %r" % (h,))
            for name, y in trips(h):
                if plain(y.remove_compatibility_hack()) != before:
                    raise Violation("%s of %r -> %r" % (name, h, y.remove_compatibility_hack()))
            r2 = r.add_compatibility_hack()
            if plain(r2) != hb:
                raise Violation("%r -> %r -> %r" % (h, r, r2))
            labels.add("function form")
        elif plain(h) != before:
            raise Violation("function form of %r, which is not a function: %r" % (a, h))
    if plain(a.remove_compatibility_hack()) != before:
        raise Violation("%r -> %r" % (a, a.remove_compatibility_hack()))
    # wrong number of qualifiers
    for n in (len(a) - 1, len(a) + 1):
        if n:
            try:
                Type(*a, type_quals=((),) * n)
            except ValueError:
                pass
            else:
                raise Violation("%d levels of qualifiers are accepted for %r" % (n, a))
    # structures, unions, enumerations
    x = case["compound"]
    o = make_compound(x)
    if not same(strip(plain(o)), model_compound(x)):
        raise Violation("%r made from %r" % (o, x))
    check_trips(o, repr(o))
    if x["kind"] != "Enum":
        if o.members != o["members"] or o.pack != o["pack"] or o.pack != x["pack"]:
            raise Violation("%r: members %r, pack %r" % (o, o.members, o.pack))
        other = copy.deepcopy(x)
        other["pack"] = 3
        diff = [other]
        if x["members"]:
            other = copy.deepcopy(x)
            other["members"].pop()
            diff.append(other)
            other = copy.deepcopy(x)
            other["members"][0][1] = changed(other["members"][0][1], case["change"])
            diff.append(other)
        for y in diff:
            p = make_compound(y)
            if (o == p) != same(model_compound(x), model_compound(y)) or (o != p) == (o == p):
                raise Violation("%r == %r: %r" % (o, p, o == p))
    if make_compound(x) != o:
        raise Violation("%r is not equal to %r" % (make_compound(x), o))
    labels.add(x["kind"])
    return sorted(labels)


def same(a, b):
    """Equality of plain descriptions, as Python compares values (1 == True)."""
    return a == b


def strip(x):
    """plain() with the values as they are."""
    if isinstance(x, list) and x[:1] == ["T"] and len(x) == 4:
        return ["T", strip(x[1]), [["()", [[a[0], strip(a[1]), unplain(a[2])] for a in y[1]]] if isinstance(y, list) and y[:1] == ["()"] else y for y in x[2]], x[3]]
    if isinstance(x, list) and x[:1] in (["Struct"], ["Union"]):
        return [x[0], [[unplain(m[0]), strip(m[1]), unplain(m[2])] for m in x[1]], x[2]]
    if isinstance(x, list) and x[:1] == ["Enum"]:
        return ["Enum", [list(y) for y in x[1]]]
    return x


def unplain(v):
    if isinstance(v, list) and len(v) == 2 and v[0] == "list":
        return [unplain(y) for y in v[1]]
    return v[1] if isinstance(v, list) else v


# --- recorded objects --------------------------------------------------------------
def recorded(case):
    text = mixed.plain_text(case)
    p = sut.parse(text)
    for what, d in (("defs", p.defs), ("file_defs", p.file_defs)):
        before = plain(d)
        for pr in (0, 2, pickle.HIGHEST_PROTOCOL):
            if plain(pickle.loads(pickle.dumps(d, pr))) != before:
                raise Violation("%s change through pickle protocol %d\n%s" % (what, pr, text))
        if plain(copy.deepcopy(d)) != before or plain(d) != before:
            raise Violation("%s change through deepcopy\n%s" % (what, text))
    n = 0
    for k, d in p.defs.items():
        for name, v in d.items():
            if k in ("structs", "unions", "types", "functions", "enums", "variables"):
                check_trips(v, "%s %s: %r" % (k, name, v))
                n += 1
            if k == "functions":
                f = v.remove_compatibility_hack()
                if plain(f.add_compatibility_hack()) != plain(v):
                    raise Violation("function %s: %r -> %r -> %r" % (name, v, f, f.add_compatibility_hack()))
    return ["recorded"] if n else False


PARTS = [Part("values", value_cases, values, 4000, rule="all: at least four comparisons and every round trip"),
         Part("recorded", mixed.header(1, 6), recorded, 400, rule="at least one definition is recorded")]
