"""Each case runs in new processes where nothing is initialised.  A header of all kinds of
definitions is written with extra types in place of some int and modifiers (with or without
arguments) after some types; initialised with them, by init or auto_init, before or after
refused initialisations, it must give what the plain header gives in a process without
initialisation, and the library must use the given classes.  Caches written under one
initialisation are read under another one."""
import ctypes, os, re
from hypothesis import strategies as st
from vlib import c, lib, mixed, proc, sut
from vlib.core import HarnessError, Part, Violation
import pyclibrary
from pyclibrary import CLibrary, CParser, auto_init, build_array, init
from pyclibrary.c_parser import Type

TYPES = ["XT", "xt_t", "__int64", "__m128", "_Bool", "HRESULT", "complex", "X$1", "byte", "XT2", "integer", "int128", "shorter", "__w64", "_x", "unsigned_t"]
MODS = ["__mod", "__mod2", "MYAPI", "__declspec", "__w64", "near64", "__ptr64", "_M", "constant", "M$", "__based", "__restrict", "intern"]
CLASSES = ["c_short", "c_double", "c_int", "c_ubyte", "c_void_p", "pointer", "struct", "c_ulonglong", "none"]
ARGS = ["", "", "", "( x )", "( )", "( ( 1 , 2 ) )", "( dllexport )", "( 4 ) ( 5 )"]
WORDS = {"int", "char", "double", "float", "long", "short", "unsigned", "signed", "bool", "void"}
KINDS = [k for k in mixed.KINDS if k != "fnmacro"]


def standalone(toks, i):
    return toks[i] == "int" and not ({toks[i - 1] if i else "", toks[i + 1]} & WORDS)


def body_start(toks):
    """First token of the body of a function definition."""
    for i, t in enumerate(toks):
        if t == "{" and toks[i - 1] == ")":
            return i
    return len(toks)


def type_ends(toks):
    end = body_start(toks)
    init = False
    for i, t in enumerate(toks[:end - 1]):
        if toks[i - 2:i] == [":", "("]:             # a cast in the width of a bit-field
            continue
        if t in WORDS and toks[i + 1] not in WORDS or i and t != "{" and toks[i - 1] in ("struct", "union", "enum") and toks[i + 1] != "{":
            yield i
        elif t == "}" and re.match(r"[A-Za-z_]\w*$|\*$", toks[i + 1]):
            yield i


@st.composite
def cases(draw):
    groups = draw(mixed.header(2, 8, KINDS))
    types = draw(st.lists(st.sampled_from(TYPES), min_size=0, max_size=3, unique=True))
    mods = [m for m in draw(st.lists(st.sampled_from(MODS), min_size=0, max_size=3, unique=True)) if m not in types]
    how = draw(st.sampled_from(["init", "init", "init kw", "auto", "auto kw", "auto win32", "auto linux2", "default"]))
    if how == "default":
        types, mods = [], []
    if how == "auto win32":
        types = [t for t in types if t not in ("__int64", "__w64")]
        mods = [m for m in mods if m not in ("__w64", "__declspec", "__based", "__restrict")]
    use_t = types + (["__int64"] if how == "auto win32" else [])
    use_m = mods + (["__declspec", "__fastcall", "__unaligned", "__based", "__restrict", "__sptr", "__uptr", "__w64", "__nullterminated"] if how == "auto win32" else [])
    edits = []
    for g, group in enumerate(groups):
        for j, it in enumerate(group):
            if it["t"] != "decl":
                continue
            for i in range(body_start(it["toks"]) - 1):
                if use_t and standalone(it["toks"], i) and draw(st.integers(0, 1)):
                    edits.append([g, j, i, "type", draw(st.sampled_from(use_t))])
            if use_m:
                for i in type_ends(it["toks"]):
                    if draw(st.integers(0, 2)) == 0:
                        m = [draw(st.sampled_from(use_m)) + " " + draw(st.sampled_from(ARGS)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
                        if it["toks"][i + 1] == "(" and m[-1][-1] != ")":
                            m[-1] += "( )"
                        edits.append([g, j, i, "mod", [re.sub(r"\( 4 \) \( 5 \)", "( 4 )", x) for x in m]])
    return {"header": groups, "types": [[t, draw(st.sampled_from(CLASSES))] for t in types], "mods": mods, "how": how, "edits": edits,
            "std": draw(st.sampled_from([None, None, "time_t", "size_t", "uint64_t", "long", "int8_t"])) if how != "default" else None,
            "again": draw(st.lists(st.tuples(st.sampled_from(["init", "auto", "auto win32", "empty"]), st.integers(0, 1)).map(list), max_size=3)),
            "first": draw(st.sampled_from(["parser", "parser", "empty parser", "library"])), "mutate": draw(st.booleans())}


def texts(case):
    """-> header with the extra types and modifiers, plain header."""
    out = []
    for edited in (True, False):
        lines = []
        for g, group in enumerate(case["header"]):
            for j, it in enumerate(group):
                toks = list(it["toks"])
                if edited:
                    after = {}
                    for eg, ej, i, k, v in case["edits"]:
                        if (eg, ej) == (g, j):
                            if k == "type":
                                toks[i] = v
                            else:
                                after[i] = v
                    toks = [x for i, t in enumerate(toks) for x in [t, *after.get(i, [])]]
                lines.append(mixed.join_dir(toks) if it["t"] == "dir" else c.join(toks))
        out.append("\n".join(lines) + "\n" + TAIL)
    return out


TAIL = "#pragma pack()\nOTHER_T tail_a; struct tail_s { OTHER_T m; int q; }; typedef int tail_t; tail_t __tailmod tail_b; int * tailmod2 ; OTHER_T * tail_f ( OTHER_T a , tail_t b ) ;\n"


def child(f, *args):
    """Result of a function in a new process where nothing is initialised."""
    if CParser._init or CLibrary._init:
        raise HarnessError("already initialised")
    return proc.child(f, *args)


def build_class(k, i):
    if k == "none":
        return None
    if k == "pointer":
        return ctypes.POINTER(ctypes.c_int * (i + 1))
    if k == "struct":
        return type("Given%d" % i, (ctypes.Structure,), {"_fields_": [("x", ctypes.c_int), ("y", ctypes.c_char)]})
    return getattr(ctypes, k)


def again(which):
    """A refused initialisation."""
    t, m = {"OTHER_T": ctypes.c_int, "tail_t": ctypes.c_int}, ["__tailmod", "tailmod2", "OTHER_M"]
    t0, m0 = dict(t), list(m)
    try:
        if which == "empty":
            init()
        elif which == "init":
            init(t, m)
        else:
            auto_init(t, m, "win32" if which == "auto win32" else None)
    except RuntimeError:
        pass
    else:
        raise Violation("a second initialisation (%s) does not raise" % which)
    if t != t0 or m != m0:
        raise Violation("a refused initialisation changed its arguments: %r %r" % (t, m))


def initialise(case):
    types = {t: build_class(k, i) for i, (t, k) in enumerate(case["types"])}
    if case["std"]:
        types[case["std"]] = ctypes.c_uint16
    mods = list(case["mods"])
    t0, m0 = list(types.items()), list(mods)
    how = case["how"]
    if how == "init":
        r = init(types, mods)
    elif how == "init kw":
        r = init(extra_modifiers=mods, extra_types=types)
    elif how == "auto":
        r = auto_init(types, mods)
    elif how == "auto kw":
        r = auto_init(extra_modifiers=mods, extra_types=types)
    elif how != "default":
        r = auto_init(types, mods, how.split()[1])
    if list(types.items()) != t0 or mods != m0:
        raise Violation("the arguments have changed: %r %r -> %r %r" % (t0, m0, types, mods))
    ref = dict(types)
    if case["mutate"]:
        for k in types:
            types[k] = ctypes.c_char
        types["OTHER_T"] = ctypes.c_char
        mods[:] = ["__tailmod"]
    return ref


def given(case, text):
    types = initialise(case)
    if case["how"] != "default":
        for a, late in case["again"]:
            if not late:
                again(a)
    if case["first"] == "empty parser":
        CParser()
    elif case["first"] == "library":
        CLibrary(lib.stub(), [])
    for t in types:
        text += "typedef %s zz_%s; struct zs_%s { %s a; %s *b; %s c[2]; }; %s zf_%s(%s a, %s *b); typedef const %s *zp_%s;\n" % ((t, t.replace(" ", "_"), t.replace(" ", "_")) + (t,) * 4 + (t, t, t, t, t))
    p = sut.parse(text)
    for a, late in case["again"]:
        again(a)
    defs = mixed.canon(p.defs, text)
    defs["known types"] = known(p)
    stub = lib.stub()
    L = CLibrary(stub, p)
    for t, cls in types.items():
        if cls is None:
            continue
        st_ = L("structs", "zs_" + t)
        got = [L("types", "zz_" + t), st_._fields_[0][1], st_._fields_[1][1]._type_, st_._fields_[2][1]._type_, L("types", "zp_" + t)._type_, build_array(L, t, 1)._type_]
        if any(g is not cls for g in got):
            raise Violation("type %s: %r instead of %r" % (t, got, cls))
    for kind in ("types", "structs"):
        try:
            L(kind, "OTHER_T" if kind == "types" else "tail_s")
        except Exception:
            pass
        else:
            raise Violation("the types of a refused initialisation can be used")
    return defs


def plain(text, types):
    p = sut.parse(text)
    defs = mixed.canon(p.defs, text)
    defs["known types"] = known(p)
    return defs


def known(p):
    """What the parser says of the types, of refused initialisations among others."""
    res = {}
    for n in ["OTHER_T", "tail_t", "__tailmod", "tailmod2", "OTHER_M", "int"]:
        try:
            e = c.plain_deep(p.eval_type(Type(n)))
        except Exception as x:
            e = type(x).__name__
        try:
            f = p.is_fund_type(n)
        except Exception as x:
            f = type(x).__name__
        res[n] = [e, f]
    return res


def subst(x, types):
    if isinstance(x, str):
        return "int" if x in types else x
    if isinstance(x, list):
        return [subst(y, types) for y in x]
    if isinstance(x, dict):
        return {k: subst(v, types) for k, v in x.items() if not re.match("(struct )?z[zspf]_", k)}
    return x


def run(case):
    t1, t0 = texts(case)
    a = child(given, case, t1)
    b = child(plain, t0, [])
    names = [t for t, _ in case["types"]] + ["__int64"]
    a, b = subst(a, names), subst(b, [])
    if a != b:
        for k in b:
            for n in sorted({*a[k], *b[k]}):
                if a[k].get(n) != b[k].get(n):
                    raise Violation("%s %s: %r with the extra types and modifiers, %r without\n%s\n---\n%s" % (k, n, a[k].get(n), b[k].get(n), t1, t0))
        raise Violation("different kinds of definitions")
    labels = [case["how"]]
    labels += ["types"] if any(e[3] == "type" for e in case["edits"]) else []
    labels += ["modifiers"] if any(e[3] == "mod" for e in case["edits"]) else []
    labels += ["again"] if case["again"] else []
    return labels if len(labels) > 1 else False


# --- caches under several initialisations ------------------------------------------
INITS = [None, [[], []], [["XT"], []], [["XT", "YT"], []], [["YT", "XT"], []], [[], ["__mod"]], [["XT"], ["__mod"]], [["XT"], ["__mod", "__other"]], [["__mod"], ["XT"]], [["XT", "__mod"], []]]
LINES = ["XT a ;", "int __mod b ;", "XT __mod ( 3 ) * c ;", "unsigned XT d ;", "struct s { XT m ; int __other q : 2 ; } ;", "typedef YT XT2 ; XT2 e ;", "YT f ( XT , int __mod ) ;", "#define N 3\nint g [ N ] ;", "XT YT ;"]
cache_cases = st.fixed_dictionaries({"lines": st.lists(st.sampled_from(LINES), min_size=1, max_size=6, unique=True), "inits": st.lists(st.integers(0, len(INITS) - 1), min_size=2, max_size=4)})


def parse_cached(i, path, cache):
    if INITS[i] is not None:
        init({t: ctypes.c_int for t in INITS[i][0]}, list(INITS[i][1]))
    p = CParser([path], cache=cache) if cache else CParser([path])
    return c.plain_deep({"defs": p.defs, "files": {os.path.basename(k): v for k, v in p.file_defs.items()}})


def cached(case):
    text = "\n".join(case["lines"]) + "\n"
    d = sut.fresh_dir()
    path = sut.write(text, d + "/h.h")
    os.utime(path, (1e9, 1e9))
    try:
        for k, i in enumerate(case["inits"]):
            got = child(parse_cached, i, path, d + "/cache")
            want = child(parse_cached, i, path, None)
            if got != want:
                raise Violation("initialisations %r, the last one with a cache: %r\nwithout: %r\n%s" % ([INITS[x] for x in case["inits"][:k + 1]], got, want, text))
    finally:
        sut.shutil.rmtree(d, True)
    return ["cache"] if len(set(case["inits"])) > 1 else ["same"]


PARTS = [Part("header", cases(), run, 500, rule="extra types, modifiers or refused initialisations are used"),
         Part("cache", cache_cases, cached, 150, 1000, rule="all")]
