"""Headers of all kinds of definitions, parsed with random options, are written to a cache
and loaded again several times (same headers, headers whose content changed behind the
back of the cache, headers removed, validity checks off): each time all definitions, by
category and by file, must be those of the parser, and so must the classes built."""
import ctypes, os
from hypothesis import strategies as st
from vlib import c, mixed, sut, lib as L
from vlib.core import Part, Violation

OPTS = [{}, {}, {"macros": {"PRE_A": "1", "PRE_B": ""}}, {"values": {"preset": 12}}, {"replace": {"int": "long"}}, {"replace": {r"\bchar\b": "short", "short": "int"}},
        {"types": "T"}, {"encoding": "latin-1"}, {"copy": True}, {"copy": True, "macros": {"PRE_A": "3"}}]

# defined again by the next file
SHARED = ["#define SH %d", "#define SHF(x) x + %d", "typedef int sh_t[%d];", "struct sh { char c[%d]; };", "union shu { char c[%d]; };", "enum she { SH_A = %d };", "extern int sh_v[%d];",
          "void sh_f(int a%d);", "#undef SH2\n#define SH2 SH_A%d", "const int sh_c = %d;"]


@st.composite
def cases(draw):
    groups = draw(mixed.header(1, 6, kinds=mixed.KINDS + ["pack", "struct"]))
    return {"groups": groups, "cut": draw(st.integers(0, len(groups))), "shared": draw(st.lists(st.sampled_from(SHARED), max_size=3, unique=True)), "opts": draw(st.sampled_from(OPTS)), "names": draw(st.sampled_from(["hh", "ba", "ab"])),
            "loads": draw(st.lists(st.sampled_from(["same", "changed", "missing", "unchecked", "unchecked missing", "later", "no processing", "unchecked bare", "unchecked missing bare"]), min_size=1, max_size=3))}


def build_opts(o, d):
    kw = {k: v for k, v in o.items() if k not in ("copy", "types")}
    if o.get("types"):
        kw["types"] = {"PreT": sut.Type("int", "*"), "PreQ": sut.Type("char", "*", type_quals=(("const",), ()))}
    if o.get("copy"):
        p = sut.write("typedef unsigned imported_t; struct imported_s { const char *a; int b : 3; }; enum { imp_e = 4 };\n#define imp_m 5\n", os.path.join(d, "imported.h"))
        kw["copy_from"] = sut.CParser(p)
    return kw


def everything(p):
    return {"defs": c.norm_defs(p.defs), "files": {str(f): c.norm_defs(dd) for f, dd in p.file_defs.items()}}


def layouts(p, names):
    """Size and fields of the classes of the structures of a parser."""
    lib = L.CLibrary(stub := L.stub(), p)
    os.unlink(stub)
    res = {}
    for cat, n in names:
        try:
            k = lib(cat, n)
        except Exception as e:        # the same for both parsers
            res[cat + n] = type(e).__name__
            continue
        res[cat + n] = (ctypes.sizeof(k), [(f[0], getattr(k, f[0]).offset, f[2:]) for f in getattr(k, "_fields_", ())])
    return res


def run(case):
    d = sut.fresh_dir()
    g, cut = case["groups"], case["cut"]
    texts = [mixed.plain_text(x) if x else "\n" for x in (g[:cut], g[cut:])]
    texts = [t + "".join(x % (n + 3) + "\n" for x in case.get("shared", ())) for n, t in enumerate(texts)]
    paths = [sut.write(t, os.path.join(d, case.get("names", "hh")[i] + "%d.h" % i)) for i, t in enumerate(texts)]
    for x in paths:
        os.utime(x, (1000, 1000))
    cache = os.path.join(d, "defs.pyclibcache")
    kw = build_opts(case["opts"], d)
    ref = sut.CParser(paths, **kw)
    want = everything(ref)

    def fail(msg):
        raise Violation("%s\noptions %r\n%s" % (msg, case["opts"], "---\n".join(texts)))

    w = sut.CParser(paths, cache=cache, **kw)
    df = c.diff(want, everything(w))
    if df:
        fail("parsing with a cache to write: %s" % df)
    if not os.path.isfile(cache):
        fail("no cache was written")
    os.utime(cache, (2000, 2000))
    names = [n for grp in g for it in grp for n in it["names"] if n[0] in ("structs", "unions")]
    lay = layouts(ref, names) if names else {}
    for how in case["loads"]:
        t = 1000
        for x, text in zip(paths, texts):
            if "missing" in how:
                if os.path.exists(x):
                    os.unlink(x)
                continue
            changed = how in ("changed", "unchecked", "unchecked bare")
            sut.write("int other_content;\n" if changed else text, x)
            t = 3000 if "unchecked" in how else 2000 if how == "later" else 1000
            os.utime(x, (t, t))
        kws = dict(kw) if "bare" not in how else {}     # the cache holds the imported and predefined ones
        if "unchecked" in how:
            kws["check_cache_validity"] = False
        if how == "no processing":
            q = sut.CParser(paths, process_all=False, **kws)
            q.process_all(cache=cache)
        else:
            q = sut.CParser(paths, cache=cache, **kws)
        df = c.diff(want, everything(q))
        if df:
            fail("loading the cache (%s): %s" % (how, df))
        if {f: {k: dict(v) for k, v in dd.items()} for f, dd in q.file_defs.items()} != {f: {k: dict(v) for k, v in dd.items()} for f, dd in ref.file_defs.items()}:
            fail("loading the cache (%s): some objects differ" % how)
        if names and layouts(q, names) != lay:
            fail("classes built from the cache (%s): %r, expected %r" % (how, layouts(q, names), lay))
    sut.shutil.rmtree(d)
    return sorted({it["k"] for x in g for it in x} | set(case["loads"]) | {"option " + k for k in case["opts"]})


PARTS = [Part("cache", cases(), run, 1400, rule="all: one write and at least one load")]
