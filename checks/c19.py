"""Headers define the same few names, with and without prefixes, in several categories
(macros, enumerators, variables, functions, typedefs and tags).  A random sequence of
accesses (attribute, category and name, category) on a library opened with a list of
prefixes is compared with a reference lookup; every object is recognised by its value,
its size, its members or what it returns, and the same access must give the same object."""
import ctypes, os, shutil
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, CParser

STEMS = ["a", "b", "value", "Name"]
PRE = ["p_", "q_", "p_q_", "a", ""]
NAMES = [p + s for p in ("", "p_", "q_", "p_q_", "a", "p_p_") for s in STEMS]
KINDS = ["values", "functions", "types", "structs", "unions", "enums"]
FN = {n: 5000 + i for i, n in enumerate(NAMES)}
_so = [None, None]


def library():
    if _so[0] != os.getpid():
        _so[:] = [os.getpid(), sut.shared("".join("int %s(void) { return %d; }\n" % x for x in FN.items()))]
    p = sut.fresh(".so")
    shutil.copyfile(_so[1], p)
    return p


@st.composite
def cases(draw):
    # few names, so that the prefixes lead to several definitions
    some = draw(st.lists(st.sampled_from(STEMS), min_size=1, max_size=2, unique=True))
    pool = [p + s for s in some for p in ("", "p_", "q_", "a", "p_q_")] if draw(st.integers(0, 3)) else NAMES
    defs = []
    for n in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=10, unique=True)):
        defs += [[k, n] for k in draw(st.lists(st.sampled_from(["macro", "ordinary", "tag", "tag "]), min_size=1, max_size=3, unique=True))]
    if draw(st.integers(0, 2)) == 0:
        defs += [["empty", n] for n in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))]
    defs = [[k, n, draw(st.integers(0, 5))] for k, n in defs]
    prefix = draw(st.one_of(st.none(), st.sampled_from(PRE[:4]), st.lists(st.sampled_from(PRE), max_size=3)))
    pool = pool + some * 2
    acc = st.one_of(st.tuples(st.just("attr"), st.sampled_from(pool)), st.tuples(st.just("attr"), st.sampled_from(pool)), st.tuples(st.just("call"), st.sampled_from(KINDS), st.sampled_from(pool)),
                    st.tuples(st.just("item"), st.sampled_from(KINDS + ["macros", "variables", "fnmacros"])))
    ops = draw(st.lists(acc.map(list), min_size=4, max_size=25))
    for _ in range(draw(st.integers(0, 6))):
        ops.insert(draw(st.integers(0, len(ops))), ops[draw(st.integers(0, len(ops) - 1))])
    return {"defs": defs, "prefix": prefix, "ops": ops, "parser": draw(st.booleans())}


def build(defs):
    """Header text and model: {kind: {name: recogniser}}."""
    body, macros = [], []
    model = {k: {} for k in KINDS}
    empty = set()                   # macros without value
    alias = {}                      # typedef name -> (kind, tag) or None
    uid = 0
    tags = []
    for what, n, v in sorted(defs, key=lambda d: ["tag", "ordinary", "macro", "empty"].index(d[0].strip())):
        uid += 1
        if what == "empty":
            if n not in model["values"] and not any(n in model[k] for k in KINDS[3:]):
                body.append(["#define %s", "#define %s foo bar", "#define %s unknown_name", "#define %s do { } while (0)"][v % 4] % n)
                empty.add(n)
        elif what == "macro":
            if n in model["values"]:
                continue                  # both are the value of the name
            # values which are false for Python are values too
            text, val = [(str(uid), uid), (str(uid), uid), (str(uid), uid), ("0", 0), ('""', ""), ("0.0", 0.0)][v]
            macros.append("#define %s %s" % (n, text))
            model["values"][n] = ("value", val)
        elif what.strip() == "tag":
            if n in model["struct union enum".split()[v // 2] + "s"]:
                continue
            if v <= 3:
                kind = "struct" if v < 2 else "union"
                body.append("%s %s { char x[%d]; };" % (kind, n, uid))
                model[kind + "s"][n] = ("class", uid)
            else:
                kind = "enum"
                body.append("enum %s { EN_%d_A = %d, EN_%d_B };" % (n, uid, uid, uid))
                model["enums"][n] = ("enum", uid)
                model["values"].update({"EN_%d_A" % uid: ("value", uid), "EN_%d_B" % uid: ("value", uid + 1)})
            tags.append((kind, n, uid))
        elif v == 0:
            body.append("enum { %s = %d };" % (n, uid))
            model["values"][n] = ("value", uid)
        elif v == 1:
            body.append("int %s = %d;" % (n, uid))
            model["values"][n] = ("value", uid)
        elif v <= 3:
            body.append("int %s(void);" % n)
            model["functions"][n] = ("function", FN[n])
        elif v == 4 or not tags:
            body.append("typedef char %s[%d];" % (n, uid))
            model["types"][n] = ("class", uid)
            alias[n] = None
        else:
            kind, tag, u = tags[uid % len(tags)]
            body.append("typedef %s %s %s;" % (kind, tag, n))
            model["types"][n] = ("int", None) if kind == "enum" else ("class", u)
            alias[n] = (kind + "s", tag)
    return "\n".join(body + macros) + "\n", model, alias, empty


def recognise(obj, want, text):
    what, v = want
    if what == "value":
        return obj == v and type(obj) is type(v)
    if what == "function":
        return getattr(obj, "name", None) in FN and obj()() == v
    if what == "class":
        return isinstance(obj, type) and ctypes.sizeof(obj) == v
    if what == "int":
        return obj is ctypes.c_int
    return dict(obj) == {"EN_%d_A" % v: v, "EN_%d_B" % v: v + 1}


def run(case):
    text, model, alias, empty = build(case["defs"])
    prefix = case["prefix"]
    prefixes = [] if prefix is None else prefix if isinstance(prefix, list) else [prefix]
    path, so = sut.write(text), library()
    kw = {} if prefix is None else {"prefix": prefix if isinstance(prefix, str) else list(prefix)}
    parser = CParser([path])
    L = CLibrary(so, parser if case["parser"] else [path], **kw)
    os.unlink(path)
    os.unlink(so)
    labels = set()
    seen = {}

    def expect(ok, msg):
        if not ok:
            raise Violation("%s\nprefix %r\n%s" % (msg, prefix, text))

    def access(op):
        if op[0] == "attr":
            return getattr(L, op[1])
        return L(op[1], op[2])

    for k, op in enumerate(case["ops"]):
        here = "access %d %r" % (k, op)
        if op[0] == "item":
            d = L[op[1]]
            expect(d == parser.defs[op[1]], "%s: not the definitions" % here)
            expect(d is L[op[1]], "%s: new object" % here)
            continue
        name = op[-1]
        names = [name] + [p + name for p in prefixes]
        want, same_as = None, None
        # between a macro without value and the value of a longer name nothing is promised
        if empty & set(names) and (op[0] == "call" and op[1] == "values" or any(n in model["values"] for n in names)):
            try:
                obj = access(op)
            except Exception:
                continue
            expect(obj is None or any(recognise(obj, model[kind][n], text) for kind in KINDS for n in names if n in model[kind]), "%s gives %r" % (here, obj))
            continue
        if op[0] == "attr":
            for kind in KINDS:
                for n in names:
                    if n in model[kind] and want is None:
                        want, same_as = model[kind][n], ("call", kind, n)
        else:
            kind = op[1]
            for n in names:
                if n in model[kind]:
                    want, same_as = model[kind][n], ("call", kind, n)
                elif kind in KINDS[3:] and n in alias:
                    if alias[n] and alias[n][0] == kind:
                        want, same_as = model[kind][alias[n][1]], ("call", kind, alias[n][1])
                    else:
                        want = "undecided"            # a typedef of something else
                if want:
                    break
        try:
            obj = access(op)
        except Exception as e:
            expect(want in (None, "undecided"), "%s raises %r" % (here, e))
            labels.add("unknown")
            continue
        if want == "undecided":
            expect(any(recognise(obj, model[kind][n], text) for n in names if n in model[kind]), "%s gives %r" % (here, obj))
            continue
        expect(want is not None, "%s gives %r" % (here, obj))
        expect(recognise(obj, want, text), "%s gives %r instead of %r" % (here, obj, want))
        expect(seen.setdefault(tuple(op), obj) is obj, "%s: new object" % here)
        expect(seen.setdefault(same_as, obj) is obj, "%s is not the object of %r" % (here, same_as))
        expect(L(*same_as[1:]) is obj, "%s is not the object of %r" % (here, same_as))
        labels.add(op[0])
        if empty & set(names):
            labels.add("beside a macro without value")
        if same_as[2] != name:
            labels.add("prefix")
        if sum(n in model[q] for q in KINDS for n in names) > 1:
            labels.add("several candidates")
    return sorted(labels) if labels & {"attr", "call"} else False


PARTS = [Part("accesses", cases(), run, 1500, rule="non-trivial: at least one access finds a definition")]
