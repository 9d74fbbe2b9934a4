"""Headers of all kinds of definitions, with some names defined again later, are split
at random between files.  The list of files, the concatenation, and every way of
importing the first files from other parsers must give the same definitions; each
definition must be attributed to the files making it, and searches must report them."""
import copy, re
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import Part, Violation

REDEF = {"variables": ["long {n} ;", "char * {n} ;", "double {n} [ 4 ] ;"], "types": ["typedef short {n} ;", "typedef int * {n} ;"],
         "functions": ["char {n} ( int z ) ;", "void * {n} ( void ) ;"], "macros": ["# define {n} 77", "# define {n} \"s\""],
         "fnmacros": ["# define {n}( q ) ( q * 2 )", "# define {n}( ) 4"]}


@st.composite
def cases(draw):
    groups = draw(mixed.header(2, 8, kinds=mixed.KINDS + ["macro"]))
    extra = draw(st.integers(0, 3))
    for i in range(extra):
        cat = draw(st.sampled_from(sorted(REDEF)))
        n = "R_%d" % i
        at = 0
        for _ in range(draw(st.integers(1, 3))):
            text = draw(st.sampled_from(REDEF[cat])).format(n=n)
            at = draw(st.integers(at, len(groups)))
            it = {"t": "dir" if text[0] == "#" else "decl", "k": "redef", "toks": text.split(), "names": [[cat, n]]}
            groups.insert(at, [it])
            at += 1
        if cat in ("macros", "fnmacros") and draw(st.integers(0, 3)) == 0:
            at = draw(st.integers(at, len(groups)))
            groups.insert(at, [{"t": "dir", "k": "undef", "toks": ["#", "undef", n], "names": [], "undef": n}])
    nf = draw(st.integers(1, 4))
    return {"groups": groups, "cuts": sorted(draw(st.lists(st.integers(0, len(groups)), min_size=nf - 1, max_size=nf - 1))),
            "imported": draw(st.integers(0, nf)), "chain": draw(st.integers(0, 2)), "find": draw(st.integers(0, 200)),
            "links": draw(st.sampled_from([0, 0, 1, 5, 15]))}


FNAMES = ["first.h", "second.h", "third file.h", "four.th"]


def facts(groups):
    """Category/name pairs defined by a list of groups, and the macros they remove."""
    made, gone = set(), []
    for g in groups:
        for it in g:
            if it.get("undef"):
                gone.append(it["undef"])
            made |= {tuple(x) for x in it["names"]}
    return made, gone


def run(case):
    groups, cuts = case["groups"], [0, *case["cuts"], len(case["groups"])]
    parts = [groups[a:b] for a, b in zip(cuts, cuts[1:])]
    d = sut.fresh_dir()
    paths = [sut.write(mixed.plain_text(g) if g else "", sut.os.path.join(d, FNAMES[i])) for i, g in enumerate(parts)]
    for i, q in enumerate(paths):          # the name of a file is the one it is given by
        if case.get("links", 0) >> i & 1:
            sut.os.mkdir(d + "/real%d" % i)
            target = d + "/real%d/%s" % (i, ["common.h", FNAMES[0], "x"][i % 3])
            sut.os.rename(q, target)
            sut.os.symlink(target, q)
    text = mixed.plain_text(groups)
    whole = sut.parse(text)
    want = mixed.canon(whole.defs, text)

    def fail(msg):
        raise Violation(msg + "\n" + "".join("--- %s\n%s" % (sut.os.path.basename(p), open(p).read()) for p in paths))

    def same(p, what):
        df = c.diff(want, mixed.canon(p.defs, text))
        if df:
            fail("%s differs from the concatenation: %s" % (what, df))

    p = sut.CParser(paths)
    same(p, "the list of files")
    # attribution: where each definition was made, the undefined macros being gone
    made = []
    for g in parts:
        m, gone = facts(g)
        made.append(m)
    removed = {x for g in parts for x in facts(g)[1]}
    alive = lambda x: not (x[0] in ("macros", "fnmacros") and x[1] in removed)      # noqa
    check_attribution(p, paths, made, alive, removed, fail)
    # imports
    k = min(case["imported"], len(paths))
    if k:
        if case["chain"] == 0:
            first = sut.CParser(paths[:k])
            src = [first]
            q = sut.CParser(paths[k:], copy_from=first)
        elif case["chain"] == 1:
            src = []
            for x in paths[:k]:
                src.append(sut.CParser([x], copy_from=src[-1] if src else None))
            q_from = [src[-1]]
            q = sut.CParser(paths[k:], copy_from=q_from)
            if q_from != [src[-1]]:
                fail("the list of parsers was changed")
        else:
            first = sut.CParser(paths[:k])
            src = [sut.CParser(copy_from=first), first]
            q = sut.CParser(paths[k:], copy_from=tuple(src[:1]))
        same(q, "importing the first %d files" % k)
        check_attribution(q, paths, made, alive, removed, fail)
        # the imported parsers did not change
        again = sut.CParser(paths[:k])
        df = c.diff(mixed.canon(again.defs, text), mixed.canon(src[-1].defs, text)) or \
            c.diff(fd(again, text), fd(src[-1], text))
        if df:
            fail("an imported parser was changed: %s" % df)
    # searches
    allnames = sorted({n for m in made for _, n in m})
    if allnames:
        n = allnames[case["find"] % len(allnames)]
        got = sorted(set(map(tuple, p.find(n))))
        exp = sorted((f, cat) for f, dd in p.file_defs.items() for cat in dd if n in dd[cat])
        if got != exp:
            fail("find(%r) gives %r, expected %r" % (n, got, exp))
        if not {(sut.os.path.basename(paths[i]), x[0]) for i, m in enumerate(made) for x in m if x[1] == n and alive(x)} <= set(got):
            fail("find(%r) gives %r" % (n, got))
        pre = n[:max(1, len(n) // 2)]
        rx = re.compile(re.escape(pre))
        got = sorted(set(map(tuple, p.find(rx))))
        exp = sorted((f, cat, x) for f, dd in p.file_defs.items() for cat in dd for x in dd[cat] if x.startswith(pre))
        if got != exp:
            fail("find(/%s/) gives %r, expected %r" % (pre, got, exp))
    sut.shutil.rmtree(d)
    nonempty = sum(bool(g) for g in parts)
    if nonempty < 2:
        return False
    return ["files-%d" % nonempty] + (["imported"] if k else []) + (["redefined"] if any(it["k"] == "redef" for g in groups for it in g) else [])


def fd(p, text):
    return {f: {k: sorted(v) for k, v in dd.items()} for f, dd in p.file_defs.items()}


def check_attribution(p, paths, made, alive, removed, fail):
    for i, m in enumerate(made):
        base = sut.os.path.basename(paths[i])
        got = p.file_defs.get(base, {})
        for cat, n in m:
            if alive((cat, n)) and n not in got.get(cat, {}):
                fail("%s %s is not attributed to %s" % (cat, n, base))
        for cat, dd in got.items():
            for n in dd:
                if any((cat, n) in x for x in made) and (cat, n) not in m:
                    fail("%s %s is wrongly attributed to %s" % (cat, n, base))
                if cat in ("macros", "fnmacros") and n in removed and n not in p.defs[cat]:
                    fail("%s still holds the removed macro %s" % (base, n))
    # what is in force comes from the last file defining it
    for cat, dd in p.defs.items():
        for n, v in dd.items():
            owners = [f for f in p.file_defs if n in p.file_defs[f].get(cat, {})]
            if not owners:
                fail("%s %s belongs to no file" % (cat, n))
            lastf = [sut.os.path.basename(paths[i]) for i, m in enumerate(made) if (cat, n) in m]
            if lastf and alive((cat, n)) and p.file_defs[lastf[-1]][cat][n] != v:
                fail("%s %s is %r but %s has %r" % (cat, n, v, lastf[-1], p.file_defs[lastf[-1]][cat][n]))


# --- several unrelated parsers -------------------------------------------------------------
PRE = {"macros": ["1", "x y", "", None], "values": [3, "s"], "types": [["int"], ["char", "*"]]}


@st.composite
def several(draw):
    kinds = [k for k in mixed.KINDS if k not in ("cond", "struct", "enum")]
    res = []
    for i in range(draw(st.integers(2, 3))):
        pre = [[cat, "P%d_%d" % (i, j), draw(st.integers(0, 9))]
               for j, cat in enumerate(draw(st.lists(st.sampled_from(sorted(PRE)), max_size=2)))]
        res.append({"header": draw(mixed.header(1, 4, kinds=kinds)) if not pre or draw(st.booleans()) else None, "pre": pre})
    return {"parsers": res, "own": draw(st.booleans()), "pre": draw(st.booleans())}


def run_several(case):
    texts = [mixed.plain_text(x["header"]) if x["header"] is not None else None for x in case["parsers"]]
    paths = [t if t is None else sut.write(t) for t in texts]
    ps, pres = [], []
    for x, path in zip(case["parsers"], paths):
        kw = {}
        for cat, n, k in x["pre"]:
            v = PRE[cat][k % len(PRE[cat])]
            kw.setdefault(cat, {})[n] = sut.Type(*v) if cat == "types" else v
        pres.append(kw)
        ps.append(sut.CParser(path, **kw))
    before = [copy.deepcopy((x.defs, x.file_defs)) for x in ps]
    own = sut.write("int own_var;\n") if case["own"] else None
    q = sut.CParser(own, copy_from=ps, **({"macros": {"OWN": "5"}} if case["pre"] else {}))
    want = {"macros": {"OWN": "5"} if case["pre"] else {}, "variables": {"own_var": (None, sut.Type("int"))} if own else {}, "values": {"own_var": None} if own else {}}
    for x in ps:
        for cat, dd in x.defs.items():
            want.setdefault(cat, {}).update(dd)
    show = "\n---\n".join(map(str, texts)) + "\n" + repr(pres)
    df = c.diff(c.norm_defs(want), c.norm_defs(q.defs))
    if df:
        raise Violation("importing several parsers: %s\n%s" % (df, show))
    for i, (a, b) in enumerate(zip(before, ps)):
        if a != (b.defs, b.file_defs):
            raise Violation("imported parser %d changed\n%s" % (i, show))
        # every definition stays attributed to the file which made it, or to none
        for f, dd in b.file_defs.items():
            if f is None:
                continue
            for cat, names in dd.items():
                if sorted(names) != sorted(q.file_defs[f][cat]):
                    raise Violation("%s: %s attributed to %s: %r, expected %r\n%s" % (f, cat, f, sorted(q.file_defs[f][cat]), sorted(names), show))
        for cat, dd in pres[i].items():
            for n in dd:
                for who in (b, q):
                    if who.find(n) != [(None, cat)]:
                        raise Violation("find(%r) gives %r, expected no file, %s\n%s" % (n, who.find(n), cat, show))
    if case["pre"] and q.find("OWN") != [(None, "macros")]:
        raise Violation("the predefined macro is attributed to %r\n%s" % (q.find("OWN"), show))
    if own and sorted(q.find("own_var")) != [(sut.os.path.basename(own), "values"), (sut.os.path.basename(own), "variables")]:
        raise Violation("the variable of the file is attributed to %r\n%s" % (q.find("own_var"), show))
    for x in [*paths, own]:
        if x:
            sut.os.unlink(x)
    return ["parsers-%d" % len(ps)] + (["predefined"] if any(pres) else [])


PARTS = [Part("split", cases(), run, 700, rule="non-trivial: definitions in at least two files"),
         Part("several parsers", several(), run_several, 400, rule="all")]
