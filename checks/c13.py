"""Histories of parser runs sharing a cache file, between which headers are edited or get
other time stamps, options change, and the cache is truncated or replaced by something
else.  A model decides whether the cache must be used; the definitions must be the cached
ones or those of a parser without cache accordingly."""
import os, pickle
from hypothesis import strategies as st
from vlib import c, sut
from vlib.core import Part, Violation

TEXTS = ["int v{i}_{k};\n#define M{i} {k}\n", "#ifdef FLAG\nint flag{i};\n#endif\nint AAA_{k}; int BBB;\n", "extern PRE_T q{i}_{k};\nstruct s{i} {{ const char *p; int b{k} : 3; }};\n",
         "enum e{i} {{ x{i}_{k}, y{i} = {k} }};\nchar *s{i} = \"caf\u00e9{k}\";\n", "typedef struct {{ int a{k}[M0]; }} t{i};\n"]
REPLACE = [None, {"BBB": "CCC", "AAA": "BBB"}, {"AAA": "CCC"}, {"AAA": "BBB", "BBB": "CCC"}, {"int": "long"}, {"AAA": "DDD"}]
ENC = ["utf-8", "utf-8", "latin-1"]
KW = [{}, {"macros": {"FLAG": ""}}, {"macros": {"FLAG": "", "M0": "7"}}, {"values": {"preset": 1}}, {"values": {"preset": 2}}, {"types": "int"}, {"types": "char"}, {"types": "const"}]
COPY = [None, None, "#define M0 3\n", "#define M0 4\nint imported;\n"]
DAMAGE = ["truncate", "truncate", "empty", "text", "list", "dict", "none", "partial", "keys", "append", "int files", "random", "delete", "other class"]


@st.composite
def cases(draw):
    nf = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["run"] * 4 + ["option"] * 3 + ["edit"] * 3 + ["touch", "damage", "damage", "version", "remove"]))
        if k == "run":
            steps.append(["run", draw(st.sampled_from([True] * 4 + [False]))])
        elif k == "edit":
            steps.append(["edit", draw(st.integers(0, nf - 1)), draw(st.sampled_from(["newer", "newer", "just", "older", "same"]))])
        elif k == "touch":
            steps.append(["touch", draw(st.integers(0, nf - 1)), draw(st.sampled_from(["newer", "just", "older", "same"]))])
        elif k == "option":
            o = draw(st.sampled_from(["replace", "encoding", "kw", "copy", "files", "extra"]))
            steps.append(["option", o, draw(st.integers(0, 20))])
            continue
        elif k == "damage":
            steps.append(["damage", draw(st.sampled_from(DAMAGE)), draw(st.integers(0, 10000))])
        else:
            steps.append([k, draw(st.integers(0, nf - 1))])
        if draw(st.integers(0, 2)):
            steps.append(["run", True])
    return {"forms": [draw(st.integers(0, len(TEXTS) - 1)) for _ in range(nf)], "steps": [["run", True], *steps, ["run", True]],
            "rel": draw(st.sampled_from(["", "", "", "cache", "dot", "both"]))}


class Old(sut.CParser):
    cache_version = -1


def build_kw(o, d, parsers):
    kw = {"replace": REPLACE[o["replace"]], "encoding": ENC[o["encoding"]]}
    if kw["replace"] is not None:
        kw["replace"] = dict(kw["replace"])
    if kw["replace"] is None:
        del kw["replace"]
    k = KW[o["kw"]]
    if "types" in k:
        t = {"int": sut.Type("int"), "char": sut.Type("char"), "const": sut.Type("int", type_quals=(("const",),))}[k["types"]]
        kw["types"] = {"PRE_T": t}
    else:
        kw.update({a: dict(b) for a, b in k.items()})
    if COPY[o["copy"]] is not None:
        if o["copy"] not in parsers:
            parsers[o["copy"]] = sut.CParser(sut.write(COPY[o["copy"]], os.path.join(d, "copied.h")))
        kw["copy_from"] = parsers[o["copy"]]
    return kw


def everything(p):
    return {"defs": c.norm_defs(p.defs), "files": {str(f): c.norm_defs(dd) for f, dd in p.file_defs.items()}}


def run(case):
    d = sut.fresh_dir()
    back = os.getcwd()
    try:
        if case.get("rel"):         # names relative to the current directory
            os.chdir(d)
        return run_in(case, d, case.get("rel", ""))
    finally:
        os.chdir(back)


def run_in(case, d, rel):
    forms = case["forms"]
    n = len(forms)
    cache = {"": os.path.join(d, "the.cache"), "dot": "./the.cache"}.get(rel, "the.cache")
    paths = [os.path.join("" if rel == "both" else d, "h%d.h" % i) for i in range(n)]
    ver = [0] * n
    clock = [1000]
    parsers = {}
    opt = {"replace": 0, "encoding": 0, "kw": 0, "copy": 0, "files": 0}
    orders = [list(range(n)), list(reversed(range(n))), list(range(n))[:-1] or [0], [0]]
    mtime = [1000] * n
    exists = [True] * n

    def put(i):
        t = TEXTS[forms[i]].format(i=i, k=ver[i])
        sut.write(t, paths[i], encoding="utf-8")
        os.utime(paths[i], (mtime[i], mtime[i]))
    for i in range(n):
        put(i)
    state = None            # None or [options, definitions, time, damaged]
    log, labels = [], {"relative"} if rel else set()

    def fail(msg):
        raise Violation("%s\nhistory: %r\nfiles: %s" % (msg, log, [open(p, encoding="utf-8").read() for p in paths if os.path.exists(p)]))

    for step in case["steps"]:
        log.append(step)
        k = step[0]
        if k in ("edit", "touch"):
            i = step[1]
            if k == "edit":
                ver[i] += 1
                exists[i] = True
            elif not exists[i]:
                continue
            clock[0] += 10
            base = state[2] if state else clock[0]
            mtime[i] = {"newer": max(base, clock[0]) + 5, "just": base + 0.01, "older": base - 5, "same": base}[step[2]]
            clock[0] = max(clock[0], mtime[i]) + 5
            put(i)
        elif k == "remove":
            i = step[1]
            if state and exists[i]:
                os.unlink(paths[i])
                exists[i] = False
        elif k == "option":
            o, v = step[1], step[2]
            if o == "extra":
                continue
            size = {"replace": len(REPLACE), "encoding": len(ENC), "kw": len(KW), "copy": len(COPY), "files": len(orders)}[o]
            opt[o] = v % size
        elif k == "version":
            if state and all(exists) and hasattr(sut.CParser, "cache_version"):
                # the cache is written by another version
                kw = build_kw(opt, d, parsers)
                Old([paths[i] for i in orders[opt["files"]]], cache=cache, **kw)
                clock[0] += 10
                os.utime(cache, (clock[0], clock[0]))
                state = [None, None, clock[0], False]
        elif k == "damage":
            if not state or not os.path.isfile(cache):
                continue
            data = open(cache, "rb").read()
            how, r = step[1], step[2]
            if how == "delete":
                os.unlink(cache)
                state = None
                continue
            try:
                good = pickle.loads(data)
            except Exception:
                good = None
            if how == "truncate":
                data = data[:r % max(1, len(data))]
            elif how == "append":
                data = b"junk" + data
            elif how == "random":
                data = bytes((r * 7919 * (j + 1) >> 3) & 255 for j in range(200))
            elif how in ("empty", "text"):
                data = b"" if how == "empty" else b"#include <stdio.h>\n"
            elif how in ("partial", "keys", "int files") and isinstance(good, dict) and isinstance(good.get("file_defs"), dict):
                if how == "keys":
                    gone = sorted(good)[r % len(good)]
                    good.pop(gone)
                elif how == "int files":
                    good["file_defs"] = 3
                else:           # a file or a category is missing at the end
                    f = list(good["file_defs"])
                    if not f:
                        continue
                    good["file_defs"][f[-1]] = None
                data = pickle.dumps(good)
            else:
                obj = {"list": [1, 2], "dict": {}, "none": None, "other class": sut.Type("int")}.get(how, 0)
                data = pickle.dumps(obj)
            with open(cache, "wb") as f:
                f.write(data)
            os.utime(cache, (state[2], state[2]))
            # what only the checks read may be missing without them
            state[3] = "unchecked" if how == "keys" and isinstance(good, dict) and "file_defs" in good else True
        elif k == "run":
            order = orders[opt["files"]]
            files = [paths[i] for i in order]
            kw = build_kw(opt, d, parsers)
            check = step[1]
            key = [ENC[opt["encoding"]], repr(kw.get("replace")), repr(KW[opt["kw"]]), COPY[opt["copy"]], order]
            usable = state is not None and not state[3]
            if usable and check:
                usable = state[0] == key and all(mtime[i] <= state[2] for i in order if exists[i])
            if state is not None and state[3] == "unchecked" and not check:
                continue
            if usable and not check and state[1] is None:
                continue                    # another version without checks: not specified
            if not usable and not all(exists[i] for i in order):
                try:
                    sut.CParser(files, cache=cache, check_cache_validity=check, **kw)
                except OSError:
                    labels.add("missing header")
                    continue
                fail("no error for a missing header without a valid cache")
            q = sut.CParser(files, cache=cache, check_cache_validity=check, **kw)
            got = everything(q)
            if usable:
                labels.add("used")
                want = state[1]
                if not check and state[0] != key:
                    # what this parser imports or predefines is there as well
                    df = None
                    for f, dd in want["files"].items():
                        for cat, names in dd.items():
                            for nm, v in names.items():
                                if got["defs"][cat].get(nm) != v and not any(nm in w["files"][g][cat] for w in (want,) for g in w["files"] if g != f):
                                    df = "%s %s is %r, expected %r" % (cat, nm, got["defs"][cat].get(nm), v)
                else:
                    df = c.diff(want, got)
                if df:
                    fail("the cache must be used: %s" % df)
            else:
                ref = sut.CParser(files, **kw)
                want = everything(ref)
                df = c.diff(want, got)
                if df:
                    fail("the cache must not be used: %s" % df)
                if state:
                    labels.add("damaged" if state[3] else "stale")
                clock[0] += 10
                os.utime(cache, (clock[0], clock[0]))
                state = [key, want, clock[0], False]
    sut.shutil.rmtree(d)
    return sorted(labels) if labels & {"used", "stale", "damaged"} and len(labels - {"relative"}) > 1 or "stale" in labels else False


PARTS = [Part("histories", cases(), run, 900, rule="non-trivial: a cache was refused, or used after some change")]
