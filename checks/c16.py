"""Typedefs of every spelling of the arithmetic types (words in any order, qualifiers),
chained and derived by pointers, arrays and functions; the classes built must have the
size and alignment gcc gives, the derived types the C nesting, and the arithmetic ones
store exactly the range of the C type.  The same spelling names the element type of
arrays built for the library."""
import ctypes
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import Part, Violation
from pyclibrary import build_array

BASES = []      # (words, kind)
for _s in ([], ["signed"], ["unsigned"]):
    for _z in (["short"], ["int"], ["long"], ["long", "long"]):
        for _i in ([], ["int"]):
            if _z != ["int"]:
                BASES.append((_s + _z + _i, "int"))
    BASES.append((_s + ["int"], "int"))
    BASES.append((_s + ["char"], "uchar" if _s == ["unsigned"] else "char"))
BASES += [(["signed"], "int"), (["unsigned"], "int")]
BASES += [([n], "int") for n in ("int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "ssize_t", "time_t")]
BASES += [(["float"], "float"), (["double"], "double"), (["long", "double"], "ldouble"), (["bool"], "bool"), (["wchar_t"], "wchar")]

# declarator, modifiers from the base outwards
FORMS = [("{n}", []), ("{n}", []), ("{n}", []), ("*{n}", ["*"]), ("**{n}", ["*", "*"]), ("{n}[3]", [3]), ("{n}[2][4]", [2, 4]), ("{n}[1][2][3]", [1, 2, 3]), ("*{n}[5]", ["*", 5]),
         ("(*{n})[3]", [3, "*"]), ("(*{n}[2])[3][4]", [3, 4, "*", 2]), ("(*{n})(int)", ["()", "*"]), ("(*{n}[4])(void)", ["()", "*", 4]), ("*const {n}", ["*"]), ("*(*{n})(char, long)", ["*", "()", "*"]),
         ("(**{n})(void)", ["()", "*", "*"])]


@st.composite
def cases(draw):
    res = []
    for i in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, 9))
        q = draw(st.sampled_from(["", "", "const ", "volatile ", "post"]))
        f = draw(st.integers(0, len(FORMS) - 1))
        if k <= 5 or not res:
            words, kind = draw(st.sampled_from(BASES))
            res.append(["base", list(draw(st.permutations(words))), kind, q, f])
        elif k == 6:
            res.append(["enum", draw(st.sampled_from(["", "tag"])), "enum", q, f])
        else:
            res.append(["alias", draw(st.integers(0, len(res) - 1)), "", q, f])
    return res


def group(mods):
    """Runs of array dimensions as [dims] lists."""
    out = []
    for m in mods:
        if isinstance(m, int) and out and isinstance(out[-1], list):
            out[-1].append(m)
        else:
            out.append([m] if isinstance(m, int) else m)
    return out


def run(case):
    lines, full = [], []          # full: (kind, words, modifiers, has function result array)
    for i, (what, arg, kind, q, f) in enumerate(case):
        form, mods = FORMS[f]
        if what == "base":
            spec, k, under = " ".join(arg), kind, []
        elif what == "enum":
            spec, k, under = "enum%s { EA%d, EB%d }" % (" tag%d" % i if arg else "", i, i), "enum", []
        else:
            spec, (k, arg, under) = "T%d" % arg, full[arg]
            if mods[:1] == ["()"] and under and isinstance(under[-1], int):
                form, mods = "{n}", []          # a function cannot return an array
        spec = spec + " const" if q == "post" else q + spec
        if under and isinstance(under[-1], int) and mods and isinstance(mods[0], int):
            # array of arrays: the new dimensions are the outer ones
            j = len(under)
            while j and isinstance(under[j - 1], int):
                j -= 1
            m = len(mods)
            for x in range(len(mods)):
                if not isinstance(mods[x], int):
                    m = x
                    break
            allm = under[:j] + mods[:m] + under[j:] + mods[m:]
        else:
            allm = under + mods
        full.append((k, arg, allm))
        lines.append("typedef %s %s;" % (spec, form.format(n="T%d" % i)))
    text = "\n".join(lines) + "\n"
    exprs = []
    for i, (k, words, mods) in enumerate(full):
        exprs += ["sizeof(T%d)" % i, "_Alignof(T%d)" % i]
    for i, (what, arg, kind, q, f) in enumerate(case):
        exprs.append("((%s)-1 < 0)" % " ".join(arg) if what == "base" and kind == "int" else "0")
    vals = sut.c_values(lib.PRELUDE + text, exprs)
    L = lib.open_header(text)
    labels = set()
    for i, (k, words, mods) in enumerate(full):
        n = "T%d" % i
        cls = L("types", n)
        if cls is not getattr(L, n):
            raise Violation("%s differs by the way it is accessed\n%s" % (n, text))
        if [ctypes.sizeof(cls), ctypes.alignment(cls)] != vals[2 * i:2 * i + 2]:
            raise Violation("%s: size and alignment %r, gcc has %r\n%s" % (n, [ctypes.sizeof(cls), ctypes.alignment(cls)], vals[2 * i:2 * i + 2], text))
        walk(cls, k, mods, n, text, labels)
    for i, (what, arg, kind, q, f) in enumerate(case):
        if what != "base":
            continue
        spec = " ".join(arg)
        arr = build_array(L, spec, 3)
        el = type(arr)._type_
        if ctypes.sizeof(arr) != 3 * ctypes.sizeof(el):
            raise Violation("size of an array of %s" % spec)
        leaf(el, kind, spec, "array of " + spec, text)
        if kind == "int":
            signed = vals[2 * len(full) + i]
            check_range(el, ctypes.sizeof(el), signed, spec, text)
            labels.add("signed" if signed else "unsigned")
        else:
            labels.add(kind)
        size = sut_size(spec)
        if size != ctypes.sizeof(el):
            raise Violation("%s has %d bytes, not %d\n%s" % (spec, ctypes.sizeof(el), size, text))
    return sorted(labels)


SIZES = {}


def sut_size(spec):
    if spec not in SIZES:
        SIZES[spec] = sut.c_values(lib.PRELUDE, ["sizeof(%s)" % spec])[0]
    return SIZES[spec]


def walk(cls, kind, mods, n, text, labels):
    groups = group(mods)
    # from the outermost modifier to the base
    for j in range(len(groups) - 1, -1, -1):
        m = groups[j]
        rest = groups[:j]
        if isinstance(m, list):
            for size in m:
                if not issubclass(cls, ctypes.Array) or cls._length_ != size:
                    raise Violation("%s: %r is not an array of %d\n%s" % (n, cls, size, text))
                cls = cls._type_
            labels.add("array")
        elif m == "*":
            labels.add("pointer")
            if rest and rest[-1] == "()":
                continue                      # pointer to function: one class
            if rest == [] and kind in ("char", "wchar"):
                want = {"char": ctypes.c_char_p, "wchar": ctypes.c_wchar_p}[kind]
                if cls is not want:
                    raise Violation("%s: %r is not %r\n%s" % (n, cls, want, text))
                return
            if not issubclass(cls, ctypes._Pointer):
                raise Violation("%s: %r is not a pointer\n%s" % (n, cls, text))
            cls = cls._type_
        else:
            if not issubclass(cls, ctypes._CFuncPtr):
                raise Violation("%s: %r is not a function pointer\n%s" % (n, cls, text))
            labels.add("function")
            cls = cls._restype_
    leaf(cls, kind, "", n, text)


def leaf(cls, kind, spec, n, text):
    ok = {"int": lambda: isinstance(cls(1).value, int) and cls(1).value == 1 and cls(0).value == 0,
          "char": lambda: cls(b"x").value == b"x" and ctypes.sizeof(cls) == 1,
          "uchar": lambda: cls(255).value == 255 and cls(-1).value == 255 and ctypes.sizeof(cls) == 1,
          "float": lambda: cls(0.1).value == ctypes.c_float(0.1).value and ctypes.sizeof(cls) == 4,
          "double": lambda: cls(0.1).value == 0.1 and ctypes.sizeof(cls) == 8,
          "ldouble": lambda: cls(0.25).value == 0.25 and ctypes.sizeof(cls) == 16,
          "bool": lambda: cls(3).value is True and cls(0).value is False and ctypes.sizeof(cls) == 1,
          "wchar": lambda: cls("\u20ac").value == "\u20ac" and ctypes.sizeof(cls) == 4,
          "enum": lambda: cls(-5).value == -5 and ctypes.sizeof(cls) == 4}[kind]
    try:
        good = ok()
    except TypeError:
        good = False
    if not good:
        raise Violation("%s: %r is no class for %s %s\n%s" % (n, cls, kind, spec, text))


def check_range(cls, size, signed, spec, text):
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << 8 * size) - 1)
    for v in (lo, hi, lo + 1, hi - 1, hi // 3):
        if cls(v).value != v:
            raise Violation("%s holds %d as %d\n%s" % (spec, v, cls(v).value, text))
    if cls(hi + 1).value != lo:
        raise Violation("%s holds %d as %d\n%s" % (spec, hi + 1, cls(hi + 1).value, text))


PARTS = [Part("typedefs", cases(), run, 1400, rule="all: each case builds at least two types")]
