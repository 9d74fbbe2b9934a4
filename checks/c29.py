"""Histories of parsers over a pool of headers that mention each other's names (conditions on
macros of the other headers, forward declarations of their tags, arrays of their constants,
packings left on, predefined macros): they are created, processed at once, later, again or by
several threads, searched, printed, copied, changed by the caller, dropped, and mixed with
parsers failing on malformed text.  After every step each parser must hold what the same
parser holds when it is the only one ever created, as observed in a process of its own."""
import copy, gc, json, os, pickle, re, sys, threading
from hypothesis import strategies as st
from vlib import c, mixed, sut
from vlib.core import HarnessError, Part, Violation
from vlib.proc import Zygote
from pyclibrary import CLibrary, CParser
from vlib import lib

BAD = ["#endif\nint b1;\n", "#else\n", "#elif 1\nint b2;\n", "#if 1\n#define BAD 1\nint b3;\n", "struct bad { int a; ", "#pragma pack(1)\nstruct b5 { char q; int r; } ((((",
       "int b4 = " + "(" * 300 + "1" + ")" * 300 + ";\n", "enum bad_e { b_a, b_b = ", "typedef struct {", "#define B(x x\n#define B2(x) x\nB2(B2(\nint z;\n", "\"unterminated\nint b6;\n", "/* unterminated\nint b7;\n",
       "int b8 @@ ;\n#define int char\n", "#define " + "x" * 3000 + " 1\n", "\x00\x01\n", "#if (\nint b9;\n#endif\n", "#define SELF SELF\nint SELF;\n"]


@st.composite
def probes(draw, groups):
    """Lines mentioning names of other headers."""
    names = {}
    for g in groups:
        for it in g:
            for cat, n in it["names"]:
                names.setdefault(cat, []).append(n)
    out = []
    allnames = sorted({n.split()[-1] for v in names.values() for n in v})
    if not allnames:
        return out
    for i in range(draw(st.integers(0, 4))):
        n = draw(st.sampled_from(allnames))
        k = draw(st.integers(0, 8))
        out.append(["#ifdef %s\nint pr_%d_on;\n#else\nlong pr_%d_off;\n#endif" % (n, i, i), "struct %s *pr_%d;" % (n, i), "enum %s pr_%d;" % (n, i), "int pr_%d[%s];" % (i, n), "%s pr_%d;" % (n, i),
                    "#undef %s" % n, "#define pr_%d (%s + 1)" % (i, n), "union %s { int pr_%d; };" % (n, i), "struct pr_%d { int a; %s b; };" % (i, n)][k])
    return out


@st.composite
def cases(draw):
    nh = draw(st.integers(2, 3))
    heads = [draw(mixed.header(1, 4, kinds=mixed.KINDS + ["pack"])) for _ in range(nh)]
    texts = []
    for i in range(nh):
        pr = draw(probes([g for j, h in enumerate(heads) if j != i for g in h]))
        t = mixed.plain_text(heads[i])
        cut = draw(st.booleans())
        t = "\n".join(pr) + "\n" + t if cut else t + "\n".join(pr) + "\n"
        t = draw(st.sampled_from(["", "", "#pragma pack(push, 2)\n", "#pragma pack(1)\n"])) + t
        texts.append(t + "#ifdef PRE\nPRE pre_var;\n#endif\nstruct { char a; int b; } anon_%d;\nenum { en_%d };\n" % (i, i))
    specs = []
    for _ in range(draw(st.integers(2, 4))):
        specs.append({"files": draw(st.lists(st.integers(0, nh - 1), min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=3, unique=True)),
                      "pre": draw(st.sampled_from([None, None, "char", "int *"])), "rep": draw(st.sampled_from([None, None, ["pre_var", "rep_var"], ["int", "long"]])),
                      "from": draw(st.sampled_from([None, None, None, 0])) if specs else None})
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["new", "new", "new", "late", "process", "process", "bad", "touch", "read", "read", "lib", "del", "threads"]))
        ops.append([k, draw(st.integers(0, len(specs) - 1)), draw(st.integers(0, 40))])
    return {"texts": texts, "specs": specs, "ops": ops}


def build(case, paths, i, base=None, process=True):
    s = case["specs"][i]
    kw = {}
    if s["pre"]:
        kw["macros"] = {"PRE": s["pre"]}
    if s["rep"]:
        kw["replace"] = {s["rep"][0]: s["rep"][1]}
    if base is not None:
        kw["copy_from"] = base
    files = [paths[j] for j in s["files"]]
    return CParser(files[0] if len(files) == 1 else files if files else None, process_all=process, **kw)


def facts(p, text):
    return json.loads(json.dumps({"defs": c.plain_deep(p.defs), "files": sorted([str(f), k, n] for f, d in p.file_defs.items() for k in d for n in d[k]),
                                  "order": [os.path.basename(f) for f in p.file_order]}))


def alone(case, paths, i, text):
    base = build(case, paths, 0) if case["specs"][i]["from"] is not None else None
    return facts(build(case, paths, i, base), text)


ZYGOTE = []


def run(case):
    if not ZYGOTE:
        if CParser._init:
            raise HarnessError("a parser already exists")
        ZYGOTE.append(Zygote({"alone": alone}))
    d = sut.fresh_dir()
    paths = [sut.write(t, os.path.join(d, "head%d.h" % i)) for i, t in enumerate(case["texts"])]
    text = "\n".join(case["texts"]) + "rep_var long"
    want = [ZYGOTE[0]("alone", case, paths, i, text) for i in range(len(case["specs"]))]
    live = {}           # spec -> [parser, processed]
    labels = set()
    interval = sys.getswitchinterval()
    try:
        for step, (k, i, n) in enumerate(case["ops"]):
            if k in ("new", "late"):
                frm = case["specs"][i]["from"]
                base = None
                if frm is not None:
                    if frm not in live or not live[frm][1]:
                        live[frm] = [build(case, paths, frm), True]
                    base = live[frm][0]
                live[i] = [build(case, paths, i, base, k == "new"), k == "new"]
            elif k == "bad":
                path = sut.write(BAD[n % len(BAD)])
                try:
                    CParser([path] if n % 2 else [path, *paths])
                except Exception:
                    pass
                os.unlink(path)
            elif k == "threads":
                todo, errs = [], []
                for j in range(len(case["specs"])):
                    if case["specs"][j]["from"] is None:
                        live[j] = [build(case, paths, j, None, False), True]
                        todo.append(live[j][0])

                def go(p):
                    try:
                        p.process_all()
                    except BaseException as e:
                        errs.append(e)
                sys.setswitchinterval(1e-5)
                ts = [threading.Thread(target=go, args=(p,)) for p in todo]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                sys.setswitchinterval(interval)
                if errs:
                    raise Violation("parsing in threads: %r\n%s" % (errs, text))
            elif i in live:
                p, done = live[i]
                if k == "process":
                    r = p.process_all(return_unparsed=bool(n % 3 == 0))
                    if len(r) != len(case["specs"][i]["files"]):
                        raise Violation("%d results for the files %r" % (len(r), case["specs"][i]["files"]))
                    live[i][1] = True
                elif k == "read":
                    str(p)
                    p.find("a")
                    p.find(re.compile("."))
                    p.find_text("int")
                    copy.deepcopy(p.defs)
                    pickle.dumps(p.defs)
                    p.eval_expr("1 + en_0")
                    for t in list(p.defs["types"]):
                        try:
                            p.eval_type([t])
                        except Exception:
                            pass
                elif k == "lib" and done:
                    so = lib.stub()
                    L = CLibrary(so, p)
                    for cat in ("types", "structs", "unions", "enums", "values"):
                        for x in list(p.defs[cat]):
                            try:
                                L(cat, x)
                            except Exception:
                                pass
                    os.unlink(so)
                elif k == "touch" and done and not any(s["from"] is not None for s in case["specs"]):
                    for dd in [*p.defs.values(), *(v for f in p.file_defs.values() for v in f.values())]:
                        for x in dd.values():
                            if isinstance(x, dict):
                                x.get("members", []).append("changed")
                                x["changed"] = 1
                            elif isinstance(x, list):
                                x.append("changed")
                        dd["changed"] = sut.Type("char")
                    p.files.clear()
                    p.file_order.clear()
                    p.init_opts.clear()
                    p.pack_list.clear()
                    del live[i]
                elif k == "del":
                    del live[i], p
                    gc.collect()
                else:
                    continue
            else:
                continue
            labels.add(k)
            for j, (p, done) in live.items():
                if done:
                    df = c.diff(want[j], facts(p, text))
                    if df:
                        raise Violation("after step %d (%s %d), parser %d %r differs from what it is alone: %s\n%s" % (step, k, i, j, case["specs"][j], df, "\n---\n".join(case["texts"])))
    finally:
        sys.setswitchinterval(interval)
        sut.shutil.rmtree(d, True)
    return sorted(labels) if len(labels) > 1 else False


PARTS = [Part("histories", cases(), run, 240, rule="non-trivial: at least two kinds of steps")]
