"""Libraries of generated functions over pointers (to values, structures, unions, pointers)
and values are compiled; every function records which pointers are NULL and what they
point at, then writes given bytes through them.  In sequences of calls every pointer is
omitted, NULL or given; the record, the objects given and the call result (by position,
name, unpacking, list of automatic values) must be those of a model, and earlier
results must not change."""
import ctypes
from hypothesis import strategies as st
from vlib import calls as K, lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, build_array, cast_to

NAMES = ["a", "x", "count", "p_out", "self", "args", "name", "type", "value", "func", "n1", "_r", "guessed"]


@st.composite
def kinds(draw, nst):
    k = draw(st.integers(0, 9))
    tgt = ["s", draw(st.integers(0, nst - 1))] if nst and draw(st.integers(0, 2)) == 0 else draw(K.scalars)
    if k <= 4:
        return ["p", tgt]
    if k <= 6:
        return ["pp", tgt if draw(st.integers(0, 3)) else "void"]
    if k == 7:
        return ["void*"]
    if k == 8:
        return ["arr", draw(K.scalars.filter(lambda s: K.base(s) not in ("char", "wchar_t"))), draw(st.integers(1, 4)), draw(st.integers(0, 1))]
    return draw(K.scalars)


@st.composite
def cases(draw):
    sts = draw(K.structs())
    unions = [draw(st.booleans()) for _ in sts]
    funcs = []
    for _ in range(draw(st.integers(1, 3))):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
        funcs.append([[n if draw(st.integers(0, 7)) else None, draw(kinds(len(sts))), draw(st.integers(0, 3))] for n in names])
    seq = []
    for _ in range(draw(st.integers(1, 7))):
        f = draw(st.integers(0, len(funcs) - 1))
        n = len(funcs[f])
        seq.append({"f": f, "state": [draw(st.integers(0, 5)) for _ in range(n)], "vals": draw(st.lists(K.NUM, min_size=n, max_size=n)),
                    "pos": draw(st.integers(0, n)), "ret": draw(st.one_of(st.sampled_from([0, 0, 1, -1]), st.integers(-2**31, 2**31 - 1))), "perm": draw(st.integers(0, 2**16)), "mask": draw(st.one_of(st.just(2**n - 1), st.integers(0, 2**n - 1)))})
    return {"structs": sts, "unions": unions, "funcs": funcs, "calls": seq, "rets": [draw(st.sampled_from(["int", "int", "int", *sorted(RETS)])) for _ in funcs], "lock": draw(st.booleans())}


def declared(case):
    text = K.declare_structs(case["structs"])
    for k, u in enumerate(case["unions"]):
        if u:
            text = text.replace("struct S%d" % k, "union S%d" % k)
    return K.WORLD + "typedef void VoidT;\n" + text + "".join("typedef St%d *PSt%d;\n" % (k, k) for k in range(len(case["structs"])))


def tname(case, tgt):
    if isinstance(tgt, str):
        return tgt
    return "%s S%d" % ("union" if case["unions"][tgt[1]] else "struct", tgt[1])


def ctext(case, kind, n, q):
    c = "const " if q == 1 and "CL" not in kind[1:2] and kind != "CL" else ""
    if isinstance(kind, str):
        return c + kind + " " + n
    k = kind[0]
    if k == "void*":
        return ["void *", "const void *", "Handle ", "void *const "][q] + n
    t = tname(case, kind[1])
    if k == "arr":
        return "%s%s %s[%s]" % (c, t, n, "" if kind[3] else kind[2])
    alias = {"p": {"int": "Pint", "char": "Str", "double": "PReal", "wchar_t": "WStr"}, "pp": {"char": "PStr"}}[k].get(t)
    if q == 2 and alias:
        return alias + " " + n
    if q == 2 and not isinstance(kind[1], str):
        return "PSt%d %s%s" % (kind[1][1], "*" if k == "pp" else "", n)
    return "%s%s *%s%s%s" % (c, t, "*" if k == "pp" else "", "const " if q == 3 else "", n)


def target(case, L, kind):
    """Class of what an argument points at, and the reference class."""
    if kind[0] == "void*":
        return ctypes.c_void_p, ctypes.c_void_p
    if kind[1] == "void":
        return ctypes.c_void_p, ctypes.c_void_p
    if isinstance(kind[1], str):
        return type(build_array(L, kind[1], 1))._type_, K.ref(kind[1])
    k = kind[1][1]
    ms = case["structs"][k]
    r = K.ref_struct(ms)
    if case["unions"][k]:
        r = type("ref", (ctypes.Union,), {"_fields_": r._fields_})
    return L("unions" if case["unions"][k] else "structs", "S%d" % k), r


def content(case, kind, v):
    """Reference object holding the content for a number."""
    tgt = kind[1]
    if isinstance(tgt, str):
        return K.ref(tgt)(K.value(tgt, v))
    ms = case["structs"][tgt[1]]
    r = K.ref_struct(ms)
    if case["unions"][tgt[1]]:
        r = type("ref", (ctypes.Union,), {"_fields_": r._fields_})
        o = r()
        return K.fill_struct(o, ms[:1], v)
    return K.fill_struct(r(), ms, v)


def members(case, kind):
    ms = case["structs"][kind[1][1]]
    return ms[:1] if case["unions"][kind[1][1]] else ms


RETS = {"int": "return ret_int;", "void": "", "double": "return ret_int / 2.0;", "char *": "return ret_int ? \"text\" : 0;", "long long": "return ret_int * 4294967296LL;", "VoidT": ""}


def rets(case, i):
    return case.get("rets", ["int"] * 9)[i]


def source(case):
    src = "int ret_int;\n"
    for i, args in enumerate(case["funcs"]):
        body = "n_calls++; puti(%d);\n" % i
        for j, (n, kind, q) in enumerate(args):
            v = n or "u%d" % j
            if isinstance(kind, str):
                body += K.put_scalar(kind, v) + "\n"
                continue
            k = kind[0]
            t = "void *" if k == "void*" else tname(case, kind[1]) + ("*" if k == "pp" else "")
            n_el = kind[2] if k == "arr" else 1
            body += "puti(%s != 0); if (%s) { put(%s, %d * sizeof(%s));\n" % (v, v, v, n_el, t)
            body += "if (out_mask >> %d & 1) %s }\n" % (j, "*(void**)%s = out_ptr[%d];" % (v, j) if k in ("pp", "void*") else "memcpy((void*)%s, out_data[%d], %d * sizeof(%s));" % (v, j, n_el, t))
        args_c = ", ".join(ctext(case, kind, n or "u%d" % j, q) for j, (n, kind, q) in enumerate(args))
        rt = rets(case, i)
        src += "%s fn%d(%s) {\n%s %s }\n" % (rt, i, args_c, body, RETS[rt])
    return src


def run(case):
    text = declared(case)
    for i, args in enumerate(case["funcs"]):
        text += "%s fn%d(%s);\n" % (rets(case, i), i, ", ".join(ctext(case, kind, n or "", q) for n, kind, q in args))
    so = sut.shared(lib.PRELUDE + "#define const\n" + declared(case) + K.SUPPORT + source(case))
    acc = K.Access(so)
    path = sut.write(text)
    L = CLibrary(so, [path], lock_calls=case["lock"])
    sut.os.unlink(path)
    sut.os.unlink(so)
    labels, history = set(), []
    KEEP.clear()
    for call in case["calls"]:
        one(case, L, acc, call, text, labels, history)
    for check in history:
        check("after the later calls")
    return sorted(labels) if "omitted" in labels or "null" in labels else False


def one(case, L, acc, call, text, labels, history):
    i = call["f"]
    args = case["funcs"][i]
    fn = getattr(L, "fn%d" % i)
    acc.reset()
    exp = bytes(ctypes.c_int(i))
    n = len(args)
    states, given, models = states_of(args, call), [None] * n, [None] * n
    # what is given and what the callee must find
    for j, ((nm, kind, q), s, v) in enumerate(zip(args, call["state"], call["vals"])):
        if isinstance(kind, str):
            x = K.value(kind, v)
            exp += K.raw(kind, x)
            given[j] = ctypes_obj(L, kind, x) if s == 0 and K.base(kind) not in lib.FLOATS else x
            models[j] = x
        else:
            state = states[j]
            cls, ref = target(case, L, kind)
            if state == "omit":
                exp += bytes(ctypes.c_int(1)) + bytes(8 if kind[0] in ("pp", "void*") else ctypes.sizeof(ref))
            elif state == "null":
                exp += bytes(4)
            else:
                given[j], models[j] = make(case, L, fn, j, kind, cls, v)
                exp += bytes(ctypes.c_int(1)) + ctypes.string_at(ctypes.addressof(models[j]), ctypes.sizeof(models[j]))
    acc.out_mask.value = call["mask"]
    outs = []
    for j, (nm, kind, q) in enumerate(args):
        b = b""
        if not isinstance(kind, str):
            w = K.mix(call["vals"][j], 13 + call["perm"])
            ctypes.memset(acc.out_data[j], 0, 512)
            if kind[0] == "void*" or kind[1] == "void":
                acc.out_ptr[j] = w
                o = w or None
            else:
                b = b"".join(bytes(content(case, kind, K.mix(w, m))) for m in range(kind[2] if kind[0] == "arr" else 1))
                ctypes.memmove(acc.out_data[j], b, len(b))
                o = w
                if kind[0] == "pp":
                    buf = ctypes.create_string_buffer(b + bytes(32))
                    KEEP.append(buf)
                    acc.out_ptr[j] = address = ctypes.addressof(buf)
                    b = address
            outs.append((o, b))
        else:
            outs.append((None, b))
    # positional arguments up to the first omitted one, then names
    npos = 0
    while npos < n and states[npos] != "omit":
        npos += 1
    least = max([j + 1 for j in range(n) if args[j][0] is None and states[j] != "omit"], default=0)
    npos = max(min(npos, call["pos"]), least)
    py = [None if s == "null" else g for s, g in zip(states, given)]
    pos = py[:npos]
    kw = [(args[j][0], py[j]) for j in range(npos, n) if states[j] != "omit"]
    perm, named = call["perm"], []
    while kw:
        named.append(kw.pop(perm % len(kw)))
        perm //= 5
    desc = "fn%d(*%r, **%r), written: %s\n%s" % (i, pos, named, bin(call["mask"]), text)
    before = acc.calls.value
    ctypes.c_int.in_dll(acc.dll, "ret_int").value = call.get("ret", 0)
    r = fn(*pos, **dict(named))
    if acc.calls.value != before + 1:
        raise Violation("called %d times: %s" % (acc.calls.value - before, desc))
    if acc.recorded() != exp:
        raise Violation("the function received %r instead of %r: %s" % (acc.recorded(), exp, desc))
    v = call.get("ret", 0)
    rval = {"int": v, "void": None, "double": v / 2, "char *": b"text" if v else None, "long long": v * 2**32, "VoidT": None}[rets(case, i)]
    omitted = [j for j in range(n) if states[j] == "omit"]

    def check(when, first=False):
        head = "%s: %s" % (when, desc)
        if not same(r(), rval) or rval is not None and not same(r.rval, rval):
            raise Violation("result %r instead of %r, %s" % (r(), rval, head))
        a, rest = r
        rest, auto = list(rest), r.auto()
        if not same(a, rval) or len(rest) != n or len(r.args) != n:
            raise Violation("unpacking gives %r and %r, %s" % (a, rest, head))
        if len(auto) != len(omitted):
            raise Violation("%d automatic values instead of %d, %s" % (len(auto), len(omitted), head))
        for j, (nm, kind, q) in enumerate(args):
            views = [r[j], rest[j]] + ([r[nm]] if nm is not None else []) + ([auto[omitted.index(j)]] if j in omitted else [])
            for x in views:
                look(x, j, nm, kind, head, first)
        try:
            r["no such argument"]
        except KeyError:
            pass
        else:
            raise Violation("unknown argument in the result, " + head)

    def look(x, j, nm, kind, head, first):
        w, b = outs[j]
        written = call["mask"] >> j & 1
        what = "argument %d (%s): %r, %s" % (j, states[j], x, head)
        if states[j] == "value":
            ok = same(x, models[j])
        elif states[j] == "null":
            ok = not x
        elif states[j] == "give":
            m = models[j]
            g = given[j]
            if isinstance(g, (ctypes.c_void_p, ctypes.c_char_p, ctypes.c_wchar_p)) or isinstance(g, ctypes.Array) and hasattr(g, "value"):
                ok = x == g.value
            else:
                ok = x is g
            ok = ok and r.args[j] is g
            if written and first:
                if kind[0] in ("pp", "void*"):
                    b = bytes(ctypes.c_void_p(w if kind[0] == "void*" or kind[1] == "void" else b))
                ok = ok and ctypes.string_at(ctypes.addressof(m), len(b)) == b
        elif kind[0] == "void*" or kind[1] == "void":
            ok = same(x, w if written else None)
        elif kind[0] == "p":
            if isinstance(kind[1], str):
                ok = same(x, K.value(kind[1], K.mix(w, 0)) if written else K.value(kind[1], 0))
            else:
                cls, ref = target(case, L, kind)
                ms = members(case, kind)
                o = content(case, kind, K.mix(w, 0)) if written else ref()
                ok = type(x) is cls and same(K.struct_values(x, ms), K.struct_values(o, ms))
        else:
            base = K.base(kind[1]) if isinstance(kind[1], str) else None
            if base in ("char", "wchar_t"):
                zero = b"" if base == "char" else ""
                v = K.value(kind[1], w)
                ok = same(x, None) if not written else same(x, zero if v.strip("\0" if base == "wchar_t" else b"\0") == zero else v)
            elif not written:
                ok = not x
            else:
                ok = ctypes.addressof(x.contents) == b
                if base:
                    ok = ok and same(x[0], K.value(kind[1], w))
                else:
                    cls, ref = target(case, L, kind)
                    ms = members(case, kind)
                    ok = ok and type(x[0]) is cls and same(K.struct_values(x[0], ms), K.struct_values(content(case, kind, w), ms))
        if not ok:
            raise Violation("wrong " + what)

    check("after the call", True)
    history.append(check)
    labels.update({"omit": "omitted", "null": "null", "give": "given", "value": "value"}[s] for s in states)
    if omitted and named and max(j for j in range(n) if states[j] != "omit") > omitted[0]:
        labels.add("omitted before given")
    labels.update("omitted " + args[j][1][0] for j in omitted)


def states_of(args, call):
    res = ["value" if isinstance(a[1], str) else ["omit", "omit", "omit", "null", "give", "give"][s] for a, s in zip(args, call["state"])]
    res = ["give" if s == "omit" and a[1][0] == "arr" else s for a, s in zip(args, res)]
    # an argument without a name can only be given after all those before it
    last = max([j for j, a in enumerate(args) if a[0] is None and res[j] != "omit"], default=0)
    return ["null" if s == "omit" and j < last else s for j, s in enumerate(res)]


def ctypes_obj(L, spec, x):
    return type(build_array(L, spec, 1))._type_(x)


def same(a, b):
    return repr(a) == repr(b)


def make(case, L, fn, j, kind, cls, v):
    """(object given, object pointed at) for an argument."""
    k = kind[0]
    if k == "void*":
        o = ctypes.c_void_p(v)
        KEEP.append(o)
        return [ctypes.pointer, ctypes.byref, lambda x: cast_to(L, ctypes.pointer(x), ctypes.c_void_p)][v % 3](o), o
    if k == "arr":
        a = build_array(L, kind[1], kind[2], [K.value(kind[1], K.mix(v, m)) for m in range(kind[2])])
        return a, a
    if kind[1] == "void":
        o = ctypes.c_void_p(v)
        return [ctypes.pointer, ctypes.byref][v % 2](o), o
    o = cls()
    ref = content(case, kind, v)
    ctypes.memmove(ctypes.addressof(o), bytes(ref), ctypes.sizeof(ref))
    base = K.base(kind[1]) if isinstance(kind[1], str) else None
    if k == "pp":
        pc = {"char": ctypes.c_char_p, "wchar_t": ctypes.c_wchar_p}.get(base) or ctypes.POINTER(cls)
        p = ctypes.cast(ctypes.pointer(o), pc)
        KEEP.append(o)
        return [ctypes.pointer, ctypes.byref][v % 2](p), p
    if v % 3 == 2 or base in ("char", "wchar_t"):
        a = build_array(L, cls, 2 + v % 3)
        ctypes.memmove(a, bytes(ref), ctypes.sizeof(ref))
        return a, cls.from_buffer(a)
    return [ctypes.pointer, ctypes.byref][v % 2](o), o


KEEP = []


PARTS = [Part("calls", cases(), run, 500, rule="non-trivial: at least one pointer is omitted or NULL in a call")]
