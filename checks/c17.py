"""Libraries of generated functions are compiled; every function records the bytes of the
parameters it receives and returns what was placed in its buffer.  Calls through the
library object, with positional and named arguments, must give the callee exactly the
given values and the caller exactly the returned one; calls with a missing, unknown or
wrongly typed argument must raise without reaching the function."""
import ctypes
from hypothesis import strategies as st
from vlib import calls as K, lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, CParser, build_array

NAMES = ["a", "x", "count", "p_out", "self", "args", "name", "type", "value", "func", "n1", "_r"]


def name(kind):
    return kind if isinstance(kind, str) else kind[0]


@st.composite
def kinds(draw, nst, result=False):
    k = draw(st.integers(0, 13))
    sc = draw(K.scalars)
    tgt = ["s", draw(st.integers(0, nst - 1))] if nst and draw(st.booleans()) else sc
    if k <= 4 or k == 5 and not nst:
        return sc
    if k == 5:
        return ["s", draw(st.integers(0, nst - 1))]
    if k in (6, 7):
        if isinstance(tgt, str) and K.base(tgt) in ("char", "wchar_t"):
            tgt = "unsigned char"          # these are strings
        return ["p", tgt]
    if k == 8:
        return [draw(st.sampled_from(["str", "wstr"])), draw(st.integers(0, 2))]
    if k == 9:
        return ["void*", draw(st.integers(0, 1))]
    if result:
        return ["void", draw(st.integers(0, 1))]
    if k == 10:
        return ["arr", draw(K.scalars.filter(lambda s: K.base(s) not in ("char", "wchar_t"))), draw(st.integers(1, 4)), draw(st.integers(0, 1))]
    if k == 11:
        simple = st.sampled_from(["int", "double", "unsigned char", "bool", "long long", "U16b", "float"])
        return ["cb", draw(st.one_of(st.just("void"), simple)), draw(st.lists(simple, max_size=3)), draw(st.integers(0, 1))]
    if k == 12:
        return ["pp", tgt]
    return sc


@st.composite
def cases(draw):
    sts = draw(K.structs())
    funcs = []
    for _ in range(draw(st.integers(1, 4))):
        names = draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True))
        args = [[n if draw(st.integers(0, 9)) else None, draw(kinds(len(sts))), draw(st.integers(0, 5))] for n in names]
        funcs.append([draw(kinds(len(sts), True)), args, draw(st.integers(0, 3))])
    seq = []
    for _ in range(draw(st.integers(1, 8))):
        f = draw(st.integers(0, len(funcs) - 1))
        n = len(funcs[f][1])
        mode = draw(st.sampled_from(["ok"] * 6 + ["missing", "missing", "unknown", "wrong"]))
        seq.append({"f": f, "vals": draw(st.lists(K.NUM, min_size=n, max_size=n)), "pos": draw(st.integers(0, n)), "perm": draw(st.integers(0, 2**20)),
                    "ret": draw(K.NUM), "mode": mode, "which": draw(st.integers(0, max(0, n - 1))), "own": draw(st.booleans())})
    return {"structs": sts, "funcs": funcs, "calls": seq, "lock": draw(st.booleans()), "open": draw(st.integers(0, 2)), "absent": draw(st.booleans()),
            "defaults": draw(st.sampled_from([0, 63, 63, 63, 62]))}


def ctext(kind, n, q):
    """Declaration of a parameter or function (n) of a kind."""
    c = "const " if q == 1 and "const" not in str(kind) else ""
    if isinstance(kind, str):
        return c + kind + " " + n
    k = name(kind)
    if k == "s":
        return "%s%s%d %s" % (c, "struct S" if q != 2 else "St", kind[1], n)
    if k in ("p", "pp"):
        t = kind[1] if isinstance(kind[1], str) else "struct S%d" % kind[1][1]
        if kind == ["p", "int"] and q == 2:
            return "Pint " + n
        if kind == ["p", "double"] and q == 2:
            return "PReal " + n
        return "%s%s *%s%s" % (c, t, "*" if k == "pp" else "", n)
    if k == "str":
        return {0: "char *", 1: "Str ", 2: "CStr "}[kind[1]] + n
    if k == "wstr":
        return {0: "wchar_t *", 1: "WStr ", 2: "const wchar_t *"}[kind[1]] + n
    if k == "void*":
        return ["void *", "Handle "][kind[1]] + n
    if k == "arr":
        return "%s%s %s[%s]" % (c, kind[1], n, "" if kind[3] else kind[2])
    if k == "void":
        return ["void ", "Nothing "][kind[1]] + n
    if kind[3]:
        return "%s %s(%s)" % (kind[1], n, ", ".join(kind[2]) or "void")       # function type: only inside typedefs
    return "%s (*%s)(%s)" % (kind[1], n, ", ".join(kind[2]) or "void")


def header(case):
    text = K.WORLD + K.declare_structs(case["structs"])
    typedefs, protos = "", []
    for i, (ret, args, form) in enumerate(case["funcs"]):
        ps = []
        for j, (n, kind, q) in enumerate(args):
            if name(kind) == "cb" and kind[3]:
                typedefs += "typedef %s (*Cb_%d_%d)(%s);\n" % (kind[1], i, j, ", ".join("%s q%d" % (a, m) for m, a in enumerate(kind[2])) or "void")
                ps.append("Cb_%d_%d {n}" % (i, j))
            else:
                ps.append(ctext(kind, "{n}", q))
        # values by default, which only tell that the parameter is not required
        for j in range(len(ps) - 1, -1, -1):
            if not case.get("defaults", 0) >> j & 1 or not isinstance(args[j][1], str) or K.base(args[j][1]) == "bool":
                break
            ps[j] += "{d}"
        protos.append((ret, args, ps, form))
    return text + typedefs, protos


def proto(i, ret, args, ps, form, named=True):
    arg = ", ".join(p.format(d="" if named else " = %d" % (3 * j), n=(a[0] or "") if not named else a[0] or "u%d" % j) for j, (a, p) in enumerate(zip(args, ps)))
    arg = arg or ["void", "", "Nothing", "void"][form]
    return ctext(ret, "fn%d(%s)" % (i, arg), 0)


def source(case, protos):
    src = ""
    for i, (ret, args, ps, form) in enumerate(protos):
        body = "n_calls++; puti(%d);\n" % i
        for j, (n, kind, q) in enumerate(args):
            v = n or "u%d" % j
            k = name(kind)
            if isinstance(kind, str):
                body += K.put_scalar(kind, v)
            elif k == "s":
                body += K.put_struct(case["structs"][kind[1]], v)
            elif k == "p" or k == "pp":
                x = "(*%s)" % v if k == "p" else "(**%s)" % v
                body += "put(&%s, 8); if (%s) { %s }" % (v, v, K.put_scalar(kind[1], x) if isinstance(kind[1], str) else K.put_struct(case["structs"][kind[1][1]], x))
            elif k == "str":
                body += "if (%s) put(%s, strlen(%s) + 1); else puti(-1);" % (v, v, v)
            elif k == "wstr":
                body += "if (%s) put(%s, 4 * wcslen(%s) + 4); else puti(-1);" % (v, v, v)
            elif k == "void*":
                body += "put(&%s, 8);" % v
            elif k == "arr":
                body += "put(&%s, 8);" % v + " ".join(K.put_scalar(kind[1], "%s[%d]" % (v, m)) for m in range(kind[2]))
            elif k == "cb":
                call = "%s(%s)" % (v, ", ".join("*(%s*)cb_data[%d]" % (a, m) for m, a in enumerate(kind[2])))
                body += "if (%s) { %s }" % (v, call + ";" if kind[1] == "void" else "%s r%d_ = %s; %s" % (kind[1], j, call, K.put_scalar(kind[1], "r%d_" % j)))
            body += "\n"
        k = name(ret)
        if isinstance(ret, str) or k == "s":
            t = ret if isinstance(ret, str) else "struct S%d" % ret[1]
            body += "{ %s r_; memcpy((void*)&r_, ret, sizeof r_); return r_; }" % t
        elif k == "str":
            body += "return ret_null ? 0 : rstr;"
        elif k == "wstr":
            body += "return ret_null ? 0 : rwstr;"
        elif k in ("p", "void*"):
            body += "return ret_null ? 0 : (void*)ret;"
        src += proto(i, ret, args, ps, form) + " {\n" + body + "\n}\n"
    return src


def run(case):
    world, protos = header(case)
    text = world + "".join(proto(i, *p, named=False) + ";\n" for i, p in enumerate(protos))
    if case["absent"]:
        text += "int absent(int a);\n"
    so = sut.shared(lib.PRELUDE + "#define const\n" + world + K.SUPPORT + source(case, protos))
    acc = K.Access(so)
    path = sut.write(text)
    kw = {"lock_calls": case["lock"]}
    if case["open"] == 0:
        L = CLibrary(so, [path], **kw)
    elif case["open"] == 1:
        L = CLibrary(so, CParser([path]), **kw)
    else:
        L = CLibrary(ctypes.CDLL(so), [path], **kw)
    sut.os.unlink(path)
    sut.os.unlink(so)
    labels = set()
    for call in case["calls"]:
        one(case, L, acc, call, text, labels)
    if case["absent"]:
        before = acc.calls.value
        try:
            L.absent
        except KeyError:
            labels.add("absent")
        else:
            raise Violation("a function missing from the library is accessed without error\n" + text)
    return sorted(labels)


def one(case, L, acc, call, text, labels):
    i = call["f"]
    ret, args, _ = case["funcs"][i]
    fn = getattr(L, "fn%d" % i) if call["own"] else L("functions", "fn%d" % i)
    acc.reset()
    values, expect, keep, checks = [], [ctypes.c_int(i)], [], []
    exp = bytes(ctypes.c_int(i))
    for j, ((n, kind, q), v) in enumerate(zip(args, call["vals"])):
        k = name(kind)
        null = v % 8 == 5
        if isinstance(kind, str):
            x = K.value(kind, v)
            exp += K.raw(kind, x)
        elif k == "s":
            ms = case["structs"][kind[1]]
            x = K.fill_struct(L("structs", "S%d" % kind[1])(), ms, v)
            exp += K.struct_raw(ms, v)
        elif k in ("p", "pp"):
            if null:
                x = None
                exp += bytes(8)
            else:
                if isinstance(kind[1], str):
                    o = ctypes_of(L, kind[1])(K.value(kind[1], v))
                    r = K.raw(kind[1], K.value(kind[1], v))
                else:
                    o = K.fill_struct(L("structs", "S%d" % kind[1][1])(), case["structs"][kind[1][1]], v)
                    r = K.struct_raw(case["structs"][kind[1][1]], v)
                if k == "p":
                    x = [lambda: ctypes.pointer(o), lambda: ctypes.byref(o), lambda: (type(o) * 2)(o, o)][v % 3]()
                    keep.append((o, x))
                    addr = ctypes.addressof(x) if isinstance(x, ctypes.Array) else ctypes.addressof(o)
                else:
                    pp = ctypes.cast(ctypes.pointer(o), fn.arg_c_type(j)._type_)
                    x = ctypes.pointer(pp)
                    keep.append((o, pp, x))
                    addr = ctypes.addressof(pp)
                exp += bytes(ctypes.c_void_p(addr)) + r
        elif k == "str":
            x = None if null else bytes(b or 1 for b in v.to_bytes(9, "little"))[:v % 9]
            exp += bytes(ctypes.c_int(-1)) if null else x + b"\0"
        elif k == "wstr":
            x = None if null else "".join(chr(1 + b * 200) for b in v.to_bytes(9, "little"))[:v % 9]
            exp += bytes(ctypes.c_int(-1)) if null else (x + "\0").encode("utf-32-le")
        elif k == "void*":
            if null:
                x, a = None, 0
            elif v % 3 == 0:
                x, a = v % 2**63 + 1, v % 2**63 + 1
            else:
                x = (ctypes.c_int * 2)(1, 2)
                a = ctypes.addressof(x)
                if v % 3 == 1:
                    keep.append(x)
                    x = ctypes.pointer(x)
            exp += bytes(ctypes.c_void_p(a))
        elif k == "arr":
            vals = [K.value(kind[1], K.mix(v, m)) for m in range(kind[2])]
            x = build_array(L, kind[1], kind[2], vals)
            exp += bytes(ctypes.c_void_p(ctypes.addressof(x))) + b"".join(K.raw(kind[1], y) for y in vals)
        else:
            cb_ret = None if kind[1] == "void" else K.value(kind[1], v)
            got = []
            # the values given to the callbacks are shared by the callbacks of a call
            def py(*a, got=got, cb_ret=cb_ret):
                got.append(list(a))
                return cb_ret
            x = fn.arg_c_type(n if call["own"] and n else j)(py)
            want = []
            checks.append((got, want, kind[2]))
            if cb_ret is not None:
                exp += K.raw(kind[1], cb_ret)
        values.append(x)
    for got, want, kinds_ in checks:
        # one value for each position, readable with any of the types of the callbacks
        ctypes.memset(acc.cb_data, 0, ctypes.sizeof(acc.cb_data))
    cbs = [a[1] for a in args if name(a[1]) == "cb"]
    if cbs:
        first = cbs[0][2]
        for m, a in enumerate(first):
            b = bytes(K.ref(a)(K.value(a, K.mix(call["ret"], m))))
            ctypes.memmove(acc.cb_data[m], b, len(b))
    wants = [[K.ref(a).from_buffer_copy(bytes(acc.cb_data[m])).value for m, a in enumerate(cb[2])] for cb in cbs]

    # the result
    r = call["ret"]
    acc.ret_null.value = 1 if r % 8 == 5 else 0
    k = name(ret)
    want = None
    if isinstance(ret, str):
        want = K.value(ret, r)
        b = bytes(K.ref(ret)(want))
        ctypes.memmove(acc.ret, b, len(b))
    elif k == "s":
        ms = case["structs"][ret[1]]
        o = K.fill_struct(K.ref_struct(ms)(), ms, r)
        ctypes.memmove(acc.ret, bytes(o), ctypes.sizeof(o))
    elif k == "str":
        want = bytes(b or 1 for b in r.to_bytes(9, "little"))[:r % 9]
        acc.rstr.value = want
    elif k == "wstr":
        want = "".join(chr(1 + b * 200) for b in r.to_bytes(9, "little"))[:r % 9]
        acc.rwstr.value = want
    elif k == "p":
        if isinstance(ret[1], str):
            b = bytes(K.ref(ret[1])(K.value(ret[1], r)))
        else:
            b = bytes(K.fill_struct(K.ref_struct(case["structs"][ret[1][1]])(), case["structs"][ret[1][1]], r))
        ctypes.memmove(acc.ret, b, len(b))
    if acc.ret_null.value and k in ("str", "wstr", "p", "void*"):
        want = None

    # arguments, positional then named
    npos = call["pos"]
    for j in range(len(args) - 1, -1, -1):
        if args[j][0] is None:
            npos = max(npos, j + 1)          # no name: can only be positional
            break
    pos, kw = values[:npos], [(args[j][0], values[j]) for j in range(npos, len(args))]
    perm = call["perm"]
    named = []
    while kw:
        named.append(kw.pop(perm % len(kw)))
        perm //= 7
    mode = call["mode"]
    if mode == "unknown":
        named.insert(perm % (len(named) + 1), ("nosuch", 1))
    elif mode == "missing":
        cand = [j for j, a in enumerate(args) if (isinstance(a[1], str) or name(a[1]) in ("s", "arr", "cb")) and j >= npos] or \
               ([npos - 1] if npos and npos == len(args) and (isinstance(args[npos - 1][1], str) or name(args[npos - 1][1]) in ("s", "arr", "cb")) else [])
        if not cand:
            return
        j = cand[call["which"] % len(cand)]
        if j >= npos:
            named = [x for x in named if x[0] != args[j][0]]
        else:
            pos = pos[:-1]
    elif mode == "wrong":
        cand = [(j, w) for j, a in enumerate(args) for w in [wrong(a[1])] if w is not None]
        if not cand:
            return
        j, w = cand[call["which"] % len(cand)]
        bad = w[call["perm"] % len(w)]
        if j < npos:
            pos = pos[:j] + [bad] + pos[j + 1:]
        else:
            named = [(m, bad if m == args[j][0] else x) for m, x in named]
    before = acc.calls.value
    desc = "fn%d(*%r, **%r)\n%s" % (i, pos, named, text)
    if mode != "ok":
        try:
            fn(*pos, **dict(named))
        except Exception:
            pass
        else:
            raise Violation("no error for a call with a%s argument: %s" % ({"unknown": "n unknown"}.get(mode, " " + mode), desc))
        if acc.calls.value != before:
            raise Violation("the function was called with a%s argument: %s" % ({"unknown": "n unknown"}.get(mode, " " + mode), desc))
        labels.add(mode)
        return
    res = fn(*pos, **dict(named))
    if acc.calls.value != before + 1:
        raise Violation("called %d times: %s" % (acc.calls.value - before, desc))
    if acc.recorded() != exp:
        raise Violation("the function received %r instead of %r: %s" % (acc.recorded(), exp, desc))
    for (got, _, _), w in zip(checks, wants):
        if len(got) != 1 or not same(got[0], w):
            raise Violation("a callback received %r instead of %r: %s" % (got, w, desc))
        labels.add("callback")
    back = res()
    first, rest = res
    rest = list(rest)
    if k == "s" or k == "p":
        if k == "p" and want is None and acc.ret_null.value:
            ok = not back
        else:
            o = back[0] if k == "p" else back
            tgt = ret[1] if k == "p" else ret
            if isinstance(tgt, str):
                ok = same([o], [K.value(tgt, r)]) and ctypes.addressof(back.contents) == ctypes.addressof(acc.ret)
            else:
                ms = case["structs"][tgt[1]]
                ok = type(o) is L("structs", "S%d" % tgt[1]) and same(K.struct_values(o, ms), K.struct_values(K.fill_struct(K.ref_struct(ms)(), ms, r), ms))
        labels.add("struct result" if k == "s" else "pointer result")
    elif k == "void*":
        ok = back == (None if acc.ret_null.value else ctypes.addressof(acc.ret)) and same([back], [first])
    else:
        ok = same([back], [want]) and same([first], [want])
    if not ok:
        raise Violation("returned %r instead of %r: %s" % (back, want, desc))
    if len(rest) != len(args):
        raise Violation("%d arguments in the result: %s" % (len(rest), desc))
    labels.add("named" if named else "positional")
    for _, kind, _ in args:
        labels.add("arg " + (name(kind) if not isinstance(kind, str) else K.base(kind) if K.base(kind) not in lib.INTS else "int"))


def same(a, b):
    return repr(a) == repr(b)          # types and signs of zeros included


def ctypes_of(L, spec):
    return type(build_array(L, spec, 1))._type_


def wrong(kind):
    k = name(kind)
    if isinstance(kind, str):
        b = K.base(kind)
        if b == "bool":
            return None
        if b in ("char", "wchar_t"):
            return [1.5, (1,)]
        if b in lib.FLOATS:
            return ["x", b"x", (1.0,)]
        return ["x", 1.5, b"x", None]
    if k == "s":
        return [5, "x", None]
    if k in ("p", "pp", "str", "wstr", "arr", "cb"):
        return [1.5, (1, 2)]
    return [1.5]


PARTS = [Part("calls", cases(), run, 700, rule="all: a case makes at least one call of a compiled function")]
