"""For generated element types (scalars in every spelling, typedefs, structures, unions, pointers,
arrays, given by name or as classes), shapes and iterables of initial values, the array built is
compared with its expected element type, shape and bytes, passed to compiled C functions which
report the bytes they see and write others, and cast to pointers which must keep the type, the
address and the memory alive."""
import ctypes, gc, itertools, os
from hypothesis import strategies as st
from vlib import calls as K, lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, build_array, cast_to

SPELL = K.SCALARS
POINTERS = {"Pint": ctypes.POINTER(ctypes.c_int), "Handle": ctypes.c_void_p, "PReal": ctypes.POINTER(ctypes.c_double), "PU16": ctypes.POINTER(ctypes.c_ushort),
            "PPint": ctypes.POINTER(ctypes.POINTER(ctypes.c_int)), "PA3": ctypes.POINTER(ctypes.c_int * 3), "PCL": ctypes.POINTER(ctypes.c_long)}
EXTRA = "typedef U16 *PU16; typedef Pint *PPint; typedef const long *PCL; typedef int A3[3]; typedef A3 *PA3; typedef short A23[2][3]; typedef enum Tag En2;\n"
ARRAYS = {"A3": ("int", [3]), "A23": ("short", [2, 3])}


@st.composite
def cases(draw):
    sts = draw(K.structs())
    unions = [draw(st.booleans()) for _ in sts]
    items = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 9))
        if sts and k in (0, 1):
            elem = ["s", draw(st.integers(0, len(sts) - 1)), draw(st.sampled_from(["tag", "typedef", "class"]))]
        elif k == 2:
            elem = ["p", draw(st.sampled_from(sorted(POINTERS)))]
        elif k == 3:
            elem = ["a", draw(st.sampled_from(sorted(ARRAYS)))]
        else:
            elem = ["v", draw(st.sampled_from(SPELL)), draw(st.sampled_from(["name", "name", "name", "class"]))]
        shape = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4)) if draw(st.integers(0, 1)) else [draw(st.integers(0, 40))]
        n = shape[0] if len(shape) == 1 else 0
        vals = draw(st.one_of(st.none(), st.lists(K.NUM, max_size=min(n, 12)), st.just([2] * n), st.lists(st.integers(0, 5), max_size=min(n, 12)))) if n and elem[0] in "vs" else draw(st.sampled_from([None, []]))
        items.append({"elem": elem, "shape": shape, "int": len(shape) == 1 and draw(st.booleans()), "vals": vals, "as": draw(st.sampled_from(["list", "list", "tuple", "iter", "array", "generator", "text", "text"])), "kw": draw(st.booleans()),
                      "seed": draw(st.integers(0, 255)), "cast": draw(st.sampled_from(sorted(POINTERS) + ["class"])), "obj": draw(st.sampled_from(["array", "pointer", "int", "void", "buffer", "offset"]))})
    return {"structs": sts, "unions": unions, "items": items}


def ctype_name(case, e):
    if e[0] == "s":
        return "%s S%d" % ("union" if case["unions"][e[1]] else "struct", e[1])
    return e[1]


def run(case):
    text = K.WORLD + K.declare_structs(case["structs"])
    for k, u in enumerate(case["unions"]):
        if u:
            text = text.replace("struct S%d" % k, "union S%d" % k)
    text += EXTRA
    src = "".join("typedef St%d *PSt%d;\n" % (k, k) for k in range(len(case["structs"])))
    protos, bodies = "", ""
    for i, it in enumerate(case["items"]):
        t = ctype_name(case, it["elem"])
        dims = "".join("[%d]" % d for d in it["shape"][1:])
        for f, sig in (("get", "long get%d(%s a[]%s, long n)"), ("set", "void set%d(%s a[]%s, long n, int s)"), ("any", "long any%d(void *a, long n)")):
            s = (sig % (i, t, dims)) if f != "any" else sig % i
            protos += s + ";\n"
            if f == "set":
                bodies += s + " { unsigned char *p = (unsigned char *)a; for (long i = 0; i < n; i++) p[i] = (unsigned char)(s + 7 * i); }\n"
            else:
                bodies += s + " { memcpy(seen, a, n); return (long)a; }\n"
    text += src + protos
    so = sut.shared(lib.PRELUDE + text + "unsigned char seen[1 << 18];\n" + bodies)
    path = sut.write(text)
    L = CLibrary(so, [path])
    seen = (ctypes.c_ubyte * (1 << 18)).in_dll(ctypes.CDLL(so), "seen")
    os.unlink(so)
    os.unlink(path)
    labels = set()
    alive = []
    for i, it in enumerate(case["items"]):
        labels |= one(case, L, i, it, seen, alive)
    gc.collect()
    junk = [bytearray(b"\xa5" * n) for n in range(0, 4000, 16)]
    for what, ptr, data, keep in alive:
        got = ctypes.string_at(ctypes.cast(ptr, ctypes.c_void_p).value, len(data))
        if got != data:
            raise Violation("%s: the memory has changed\n%s" % (what, case))
    del junk
    return sorted(labels)


def element(case, L, e):
    """-> given to the library, reference scalar or None, class expected or None, dimensions of the element."""
    if e[0] == "s":
        name = ctype_name(case, e)
        cls = L(name.split()[0] + "s", name.split()[1])
        return {"tag": name, "typedef": "St%d" % e[1], "class": cls}[e[2]], cls, []
    if e[0] == "p":
        return e[1], POINTERS[e[1]], []
    if e[0] == "a":
        return e[1], K.ref(ARRAYS[e[1]][0]), ARRAYS[e[1]][1]
    if e[2] == "class":
        return K.ref(e[1]), K.ref(e[1]), []
    return e[1], K.ref(e[1]), []


def text_of(vals):
    """Values as bytes or text where they can be."""
    if all(isinstance(v, bytes) for v in vals):
        return b"".join(vals)
    if all(isinstance(v, str) for v in vals):
        return "".join(vals)
    if all(type(v) is int and 0 <= v < 256 for v in vals):
        return bytes(vals) if sum(vals) % 2 else bytearray(vals)
    return list(vals)


def one(case, L, i, it, seen, alive):
    e = it["elem"]
    typ, cls, inner = element(case, L, e)
    shape = it["shape"]
    what = "build_array(%r, %r, %r)" % (typ, shape, it["vals"])
    size = shape[0] if it["int"] else tuple(shape)
    if e[0] == "s":
        ms = case["structs"][e[1]]
        union = case["unions"][e[1]]
        make = lambda v: K.fill_struct(cls(), ms[:1] if union else ms, v)
    else:
        make = lambda v: K.value(e[1], v)
    vals = None if it["vals"] is None else [make(v) for v in it["vals"]]
    ref = (cls * shape[0])(*vals) if vals else None
    given = vals
    if vals is not None:
        given = {"list": list, "tuple": tuple, "iter": iter if vals else list, "array": lambda x: (cls * len(x))(*x) if x else x, "generator": lambda x: (y for y in x) if x else x, "text": text_of}[it["as"]](vals)
    before = list(vals) if vals is not None else None
    if it["vals"] is None and not it["kw"]:
        arr = build_array(L, typ, size)
    elif it["kw"]:
        arr = build_array(L, typ, size, vals=given)
    else:
        arr = build_array(L, typ, size, given)
    # type and shape
    t = type(arr)
    for d in shape + inner:
        if not (isinstance(t, type) and issubclass(t, ctypes.Array)) or t._length_ != d:
            raise Violation("%s: dimension %r of %r\n%s" % (what, d, type(arr), case))
        t = t._type_
    if e[0] == "s" or e[0] == "p" or e[-1] == "class":
        ok = t is cls
    else:
        ok = ctypes.sizeof(t) == ctypes.sizeof(cls) and ctypes.alignment(t) == ctypes.alignment(cls) and t is cls
    if not ok:
        raise Violation("%s: elements of type %r instead of %r\n%s" % (what, t, cls, case))
    total = ctypes.sizeof(cls)
    for d in shape + inner:
        total *= d
    if ctypes.sizeof(arr) != total:
        raise Violation("%s: %d bytes instead of %d\n%s" % (what, ctypes.sizeof(arr), total, case))
    # content: same bytes as a ctypes array of the same class, and values read back
    want = bytes(ref) if ref is not None else b"\0" * total
    if bytes(arr) != want and cls is not ctypes.c_longdouble:
        raise Violation("%s: holds %r instead of %r\n%s" % (what, bytes(arr), want, case))
    if vals and e[0] == "v":
        exp = [cls(v).value for v in vals] + [cls().value] * (shape[0] - len(vals))
        if same(list(arr), exp) is False:
            raise Violation("%s: holds %r instead of %r\n%s" % (what, list(arr), exp, case))
    if vals is not None and it["as"] == "list" and not all(x is y for x, y in zip(given, before)) or vals is not None and len(vals) != len(before):
        raise Violation("%s: the list given is changed\n%s" % (what, case))
    # another array does not share its memory, and the values are copied
    if e[0] == "s" and vals:
        for v in vals:
            K.fill_struct(v, ms[:1], 1)
        if bytes(arr) != want:
            raise Violation("%s: the array follows the objects given\n%s" % (what, case))
    other = build_array(L, typ, size)
    if total and ctypes.addressof(other) == ctypes.addressof(arr):
        raise Violation("%s: two arrays share their memory\n%s" % (what, case))
    labels = {"dims %d" % len(shape), e[0]}
    if total == 0:
        return labels
    # as the argument of C functions
    data = bytes(arr)
    for f in ("get", "any"):
        ctypes.memset(seen, 0xEE, total)
        r = getattr(L, "%s%d" % (f, i))(arr, total)
        if bytes(seen[:total]) != data or r() != ctypes.addressof(arr):
            raise Violation("%s: C sees %r at %r instead of %r at %r\n%s" % (what, bytes(seen[:total]), r(), data, ctypes.addressof(arr), case))
    getattr(L, "set%d" % i)(arr, total, it["seed"])
    data = bytes((it["seed"] + 7 * x) % 256 for x in range(total))
    if bytes(arr) != data or any(bytes(other)):
        raise Violation("%s: the array does not have what C wrote\n%s" % (what, case))
    labels.add("called")
    # casts
    addr = ctypes.addressof(arr)
    name = it["cast"]
    ptr_cls = ctypes.POINTER(ctypes.c_ubyte) if name == "class" else POINTERS[name]
    ptr_typ = ptr_cls if name == "class" else name
    if case["structs"] and it["seed"] % 3 == 0:
        k = it["seed"] % len(case["structs"])
        ptr_typ = "PSt%d" % k
        ptr_cls = ctypes.POINTER(L("%ss" % ("union" if case["unions"][k] else "struct"), "S%d" % k))
    obj = {"array": lambda: arr, "pointer": lambda: ctypes.pointer(arr), "int": lambda: addr, "void": lambda: ctypes.c_void_p(addr), "buffer": lambda: (ctypes.c_char * total).from_buffer_copy(arr), "offset": lambda: addr + 3}[it["obj"]]()
    target = {"buffer": lambda: ctypes.addressof(obj), "offset": lambda: addr + 3}.get(it["obj"], lambda: addr)()
    p = cast_to(L, obj, ptr_typ)
    if type(p) is not ptr_cls:
        raise Violation("cast_to(%r, %r): %r instead of %r\n%s" % (obj, ptr_typ, type(p), ptr_cls, case))
    if ctypes.cast(p, ctypes.c_void_p).value != target:
        raise Violation("cast_to(%r, %r): points at %r instead of %r\n%s" % (obj, ptr_typ, ctypes.cast(p, ctypes.c_void_p).value, target, case))
    if ptr_cls is not ctypes.c_void_p and ctypes.addressof(p.contents) != target:
        raise Violation("cast_to(%r, %r): contents at %r instead of %r\n%s" % (obj, ptr_typ, ctypes.addressof(p.contents), target, case))
    alive.append(("cast_to(%r)" % ptr_typ, p, data, None if it["obj"] in ("array", "pointer", "buffer") else arr) if it["obj"] != "offset" else ("array", ctypes.pointer(arr), data, arr))
    null = cast_to(L, None, ptr_typ)
    if type(null) is not ptr_cls or ctypes.cast(null, ctypes.c_void_p).value is not None:
        raise Violation("cast_to(None, %r) is not NULL" % ptr_typ)
    labels.add("cast")
    return labels


def same(a, b):
    return len(a) == len(b) and all(x == y or x != x and y != y for x, y in zip(a, b))


PARTS = [Part("arrays", cases(), run, 500, rule="all: each case builds and checks at least one array")]
