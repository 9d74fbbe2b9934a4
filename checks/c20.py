"""Headers of all kinds of definitions are opened over a library defining their functions.
A random sequence of accesses, class constructions, instances, calls, arrays and casts,
valid or not, is run on one library object and, in another order, on a second one sharing
the parser or not.  The definitions must stay equal to what parsing recorded, every
operation must give the same observation in both orders, and every way to reach a
structure must give the class of its tag."""
import ctypes, os
from hypothesis import strategies as st
from vlib import c, lib, mixed, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, CParser, build_array, cast_to

KINDS = ["var"] * 5 + ["typedef"] * 4 + ["struct"] * 5 + ["fndef", "init", "array", "enum", "macro", "pack", "fnmacro"]
CATS = ["values", "functions", "types", "structs", "unions", "enums"]
IDX = st.integers(0, 10**6)
ops_st = st.one_of(
    st.tuples(st.just("attr"), IDX), st.tuples(st.just("call"), st.sampled_from(CATS), IDX), st.tuples(st.just("kind"), st.sampled_from(CATS), IDX),
    st.tuples(st.just("kind"), st.sampled_from(["types", "structs", "unions", "functions"]), IDX), st.tuples(st.just("invoke"), IDX, st.integers(0, 3)),
    st.tuples(st.just("array"), IDX, st.lists(st.integers(1, 3), min_size=1, max_size=3)), st.tuples(st.just("cast"), IDX), st.tuples(st.just("new"), IDX),
    st.tuples(st.just("argtypes"), IDX), st.tuples(st.just("bad"), st.integers(0, 5)), st.tuples(st.just("eval"), IDX), st.tuples(st.just("find"), IDX),
    st.tuples(st.just("struct alias"), IDX))


@st.composite
def cases(draw):
    ops = [list(o) for o in draw(st.lists(ops_st, min_size=3, max_size=30))]
    return {"header": draw(mixed.header(2, 10, KINDS)), "extra": draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique=True)), "ops": ops,
            "perm": draw(st.integers(0, 2**30)), "second": draw(st.integers(0, 2)), "prefix": draw(st.sampled_from([None, None, "a", ["x", "_p"]]))}


EXTRA = ["struct e_fwd; struct e_hold { struct e_fwd *p; int n; };", "struct e_self { struct e_self *next; struct e_self *(*get)(struct e_self *, struct e_self **); };",
         "struct e_a; struct e_b { struct e_a *a; }; struct e_a { struct e_b b[2]; struct e_b *pb; };", "typedef int E_arr[2][3]; typedef E_arr E_arr2[4]; void e_fill(E_arr2 *m, E_arr n);",
         "typedef struct { int n; struct { char c; } in; } e_anon, *e_panon; e_anon *e_make(e_panon p, e_anon v);", "struct e_bad { struct e_missing inside; int n; }; struct e_user { struct e_bad *p; };",
         "union e_u { struct e_in { int z; } s; long l; }; struct e_in *e_get(union e_u *u);", "enum e_en { E_ONE = 1, E_TWO }; enum e_en e_turn(enum e_en a, enum e_en *b);",
         "typedef unknown_t e_alias; int e_use(e_alias *p);"]


def run(case):
    text = mixed.plain_text(case["header"]) + "#pragma pack()\n" + "\n".join(case["extra"]) + "\n"
    path = sut.write(text)
    parser = CParser([path])
    first = snapshot(parser)
    names = [sorted({n for k in CATS for n in parser.defs[k]}), {k: sorted(parser.defs[k]) for k in CATS}]
    src = "".join("long %s(void) { return 0; }\n" % n for n in names[1]["functions"])
    so = sut.shared(src, ["-fno-builtin"])
    so2 = sut.fresh(".so")
    sut.os.rename(so, so2)
    so = sut.shared(src, ["-fno-builtin"])
    kw = {} if case["prefix"] is None else {"prefix": case["prefix"]}
    L = CLibrary(so, parser, **kw)
    if case["second"] == 0:
        p2, L2 = parser, CLibrary(so2, parser, **kw)
    elif case["second"] == 1:
        p2 = CParser([path])
        L2 = CLibrary(so2, p2, **kw)
    else:
        p2 = CParser(copy_from=[parser])
        L2 = CLibrary(so2, p2, **kw)
    for f in (path, so, so2):
        os.unlink(f)
    if L is L2:
        raise Violation("same object for two libraries")
    ops = case["ops"]
    labels = set()
    obs = [observe(L, parser, names, op, text) for op in ops]
    if snapshot(parser) != first:
        # which operation?
        raise Violation("the definitions have changed after %r: %s\n%s" % (ops, diff(first, snapshot(parser)), text))
    order = list(range(len(ops)))
    perm = case["perm"]
    for i in range(len(order) - 1, 0, -1):
        j = perm % (i + 1)
        perm = perm * 1103515245 // 65536 + 12345
        order[i], order[j] = order[j], order[i]
    for i in order:
        o = observe(L2, p2, names, ops[i], text)
        if o != obs[i]:
            raise Violation("%r gives %r after %r, %r after %r\n%s" % (ops[i], obs[i], ops[:i], o, [ops[x] for x in order[:order.index(i)]], text))
        if not (isinstance(o, list) and o[:1] == ["error"]):
            labels.add(ops[i][0])
    if case["second"] == 0 and snapshot(parser) != first:
        raise Violation("the definitions have changed\n%s\n%s" % (diff(first, snapshot(parser)), text))
    if observe_all(L, parser, names, text) != observe_all(L2, p2, names, text):
        raise Violation("different classes after the operations in two orders\n%s" % text)
    if snapshot(parser) != first:
        raise Violation("the definitions have changed\n%s\n%s" % (diff(first, snapshot(parser)), text))
    return sorted(labels)


def snapshot(parser):
    return c.plain_deep({"defs": parser.defs, "files": parser.file_defs})


def diff(a, b, path=""):
    if type(a) is type(b) is list and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/%s" % (x[0] if isinstance(x, list) and x and isinstance(x[0], str) else i))
    return "%s: %r instead of %r" % (path, b, a)


def pick(seq, i):
    return seq[i % len(seq)] if seq else "nothing"


def observe(L, parser, names, op, text):
    try:
        return perform(L, parser, names, op, text)
    except Violation:
        raise
    except Exception as e:
        return ["error", type(e).__name__]


def perform(L, parser, names, op, text):
    k = op[0]
    if k == "attr":
        return describe(getattr(L, pick(names[0], op[1])))
    if k == "call":
        return describe(L(op[1], pick(names[0], op[2])))
    if k == "kind":
        return describe(L(op[1], pick(names[1][op[1]], op[2])))
    if k == "struct alias":
        return describe(L("structs", pick(names[1]["types"], op[1])))
    if k == "invoke":
        f = L("functions", pick(names[1]["functions"], op[1]))
        r = f(*[[], [3], [None], ["text", 5]][op[2]])
        v = r()
        res = v if isinstance(v, int) and not isinstance(v, bool) and f.res_type in (ctypes.c_int, ctypes.c_long) else type(v).__name__
        return ["called", res, [type(a).__name__ for a in r.args], len(r.auto())]
    if k == "argtypes":
        f = L("functions", pick(names[1]["functions"], op[1]))
        return [describe(f.arg_c_type(i)) for i in range(len(f.arg_types))] + [f.pretty_signature() if all(isinstance(x, str) for x in f.sig[0]) else ""]
    if k == "array":
        a = build_array(L, pick(names[1]["types"] + ["int", "char", "double"], op[1]), tuple(op[2]))
        return [describe(type(a)), bytes(a)]
    if k == "cast":
        buf = ctypes.create_string_buffer(64)
        p = cast_to(L, buf, pick(names[1]["types"], op[1]))
        return [describe(type(p)), ctypes.cast(p, ctypes.c_void_p).value == ctypes.addressof(buf)]
    if k == "new":
        n = pick(names[1]["structs"] + names[1]["unions"], op[1])
        cls = L("structs" if n in names[1]["structs"] else "unions", n)
        o = cls()
        for f in cls._fields_:
            getattr(o, f[0])
        return [describe(cls), ctypes.sizeof(o), list(cls._anonymous_), [str(x) for x in getattr(cls, "_defaults_", ())]]
    if k == "bad":
        return describe([lambda: L("values", "no_such"), lambda: getattr(L, "no_such"), lambda: build_array(L, "no_such_t", 2), lambda: cast_to(L, 3, "int"),
                         lambda: L("types", "no_such"), lambda: L("structs", "int")][op[1]]())
    if k == "eval":
        return c.plain_deep(parser.eval_type([pick(names[1]["types"], op[1])]))
    if k == "find":
        return len(parser.find(pick(names[0], op[1])))
    raise ValueError(op)


def describe(x, seen=None):
    seen = {} if seen is None else seen
    if isinstance(x, type):
        if x in seen:
            return ["seen", seen[x]]
        seen[x] = len(seen)
        if issubclass(x, (ctypes.Structure, ctypes.Union)):
            return [x.__mro__[-4].__name__ if len(x.__mro__) > 3 else "", ctypes.sizeof(x), ctypes.alignment(x), getattr(x, "_pack_", None),
                    [[f[0], getattr(x, f[0]).offset, getattr(x, f[0]).size, describe(f[1], seen)] for f in x._fields_]]
        if issubclass(x, ctypes.Array):
            return ["array", x._length_, describe(x._type_, seen)]
        if issubclass(x, ctypes._Pointer):
            return ["pointer", describe(x._type_, seen)]
        if issubclass(x, ctypes._CFuncPtr):
            return ["function", describe(x._restype_, seen), [describe(a, seen) for a in x._argtypes_]]
        return x.__name__
    if hasattr(x, "arg_c_type"):
        return [x.name, describe(x.res_type, seen), [describe(a, seen) for a in x.arg_types]]
    return c.plain_deep(x)


def observe_all(L, parser, names, text):
    res = []
    for k in ("structs", "unions", "types", "functions"):
        for n in names[1][k]:
            try:
                obj = L(k, n)
                res.append([k, n, describe(obj)])
            except Exception as e:
                res.append([k, n, type(e).__name__])
                continue
            if k == "types":
                same_class(L, parser, parser.eval_type([n]), obj, "type " + n, text)
            elif k == "functions":
                ret, args = parser.defs["functions"][n]
                same_class(L, parser, parser.eval_type(ret), obj.res_type, "result of " + n, text)
                args = [a for a in args if tuple(parser.eval_type(a[1])) != ("void",)]
                for i, a in enumerate(args):
                    same_class(L, parser, parser.eval_type(a[1]), obj.arg_c_type(i), "argument %d of %s" % (i, n), text)
            elif isinstance(obj, type):
                for m, f in zip(parser.defs[k][n]["members"], obj._fields_):
                    same_class(L, parser, parser.eval_type(m[1]), f[1], "member %s of %s" % (m[0], n), text)
    return res


def same_class(L, parser, typ, cls, what, text):
    """The class at the end of the modifiers is the one of the tag."""
    for kind in ("struct", "union"):
        if not typ[0].startswith(kind + " "):
            continue
        mods = list(typ[1:])
        for m in reversed(mods):
            if isinstance(m, list):
                for d in m:
                    cls = cls._type_
            elif isinstance(m, tuple):
                cls = cls._restype_
            elif m == "*" and not issubclass(cls, ctypes._CFuncPtr):
                cls = cls._type_
        want = L(kind + "s", typ[0].split(" ", 1)[1])
        if cls is not want:
            raise Violation("%s: %r is not the class of %s\n%s" % (what, cls, typ[0], text))


PARTS = [Part("operations", cases(), run, 600, rule="all: each case compares at least three operations in two orders")]
