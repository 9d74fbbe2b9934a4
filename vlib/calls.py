"""Functions over every kind of argument, in a library recording what it receives.

A kind is a JSON value: "int" and the like (a scalar specification, see SCALARS), or a list
  ["s", k]        structure k by value            ["p", scalar or ["s", k]]   pointer to one
  ["pp", scalar or ["s", k] or "void"]            pointer to a pointer
  ["str"] ["wstr"]  char * / wchar_t *            ["void*"]                    void *
  ["arr", scalar, n] array argument               ["cb", [ret, args]]         callback
  ["void"] (results only)
Structures are lists of [member, scalar, n] (n: None or the length of an array).
"""
import ctypes
from hypothesis import strategies as st
from . import lib, sut
from .core import Violation

WORLD = """
enum Tag { TA = -3, TB };
typedef enum { RA, RB = 7 } En;
typedef unsigned short U16; typedef U16 U16b; typedef double Real; typedef const long CL; typedef char Ch; typedef bool Flag; typedef wchar_t Wc;
typedef int *Pint; typedef char *Str; typedef const char *CStr; typedef void *Handle; typedef void Nothing; typedef wchar_t *WStr; typedef Real *PReal; typedef Str *PStr;
"""
# spelling -> spelling whose representation it has
ALIASES = {"enum Tag": "int", "En": "int", "U16b": "unsigned short", "Real": "double", "CL": "long", "Ch": "char", "Flag": "bool", "Wc": "wchar_t"}
INTS = sorted(k for k in lib.INTS if k not in ("char", "signed char"))
SCALARS = INTS + ["float", "double", "long double", "bool", "char", "wchar_t"] + sorted(ALIASES)


def base(spec):
    return ALIASES.get(spec, spec)


def ref(spec):
    """Reference class of a scalar."""
    s = base(spec)
    if s in lib.INTS and s != "char":
        return lib.CT_INT[lib.INTS[s]]
    return {"bool": ctypes.c_bool, "char": ctypes.c_char, "wchar_t": ctypes.c_wchar, "void": ctypes.c_void_p, **lib.FLOATS}[s]


def value(spec, v):
    """Python value of a scalar for a number (0 gives 0, 1 and 2 the bounds)."""
    s = base(spec)
    if s in ("float", "double", "long double"):
        return [0.0, -1.5, 1e30 if s != "float" else 2.0 ** 100][v] if v < 3 else (v % 2**20 - 2**19) / 64.0
    if s == "bool":
        return bool(v & 1)
    if s == "char":
        return bytes([v & 255])
    if s == "wchar_t":
        return chr(v % 0xd800)
    lo, hi = lib.int_range(s)
    return [0, lo, hi][v] if v < 3 else lo + v % (hi - lo + 1)


def raw(spec, x):
    """Bytes recorded by the library for a scalar (long doubles as doubles)."""
    return bytes(ctypes.c_double(x) if base(spec) == "long double" else ref(spec)(x))


NUM = st.one_of(st.integers(0, 2), st.integers(3, 2**64 - 1), st.integers(3, 300))
scalars = st.sampled_from(SCALARS)


@st.composite
def structs(draw):
    out = []
    for _ in range(draw(st.integers(0, 2))):
        ms = []
        for i in range(draw(st.integers(1, 5))):
            spec = draw(scalars)
            n = draw(st.integers(1, 3)) if base(spec) not in ("char", "wchar_t") and draw(st.integers(0, 3)) == 0 else None
            ms.append(["value" if draw(st.integers(0, 5)) == 0 and i == 0 else "m%d" % i, spec, n])
        out.append(ms)
    return out


def declare_structs(sts):
    return "".join("struct S%d { %s };\ntypedef struct S%d St%d;\n" % (k, " ".join("%s %s%s;" % (s, n, "" if d is None else "[%d]" % d) for n, s, d in ms), k, k)
                   for k, ms in enumerate(sts))


def ref_struct(ms):
    return type("ref", (ctypes.Structure,), {"_fields_": [(n, ref(s) if d is None else ref(s) * d) for n, s, d in ms]})


def fill_struct(obj, ms, v):
    """Fill an instance (of any class) with the values for a number."""
    for i, (n, s, d) in enumerate(ms):
        if d is None:
            setattr(obj, n, value(s, mix(v, i)))
        else:
            for j in range(d):
                getattr(obj, n)[j] = value(s, mix(v, i + 7 * j + 1))
    return obj


def mix(v, i):
    return v if i == 0 else (v * 2654435761 + i * 40503) % 2**64


def struct_values(obj, ms):
    return [getattr(obj, n) if d is None else list(getattr(obj, n)) for n, s, d in ms]


def struct_raw(ms, v):
    out = b""
    for i, (n, s, d) in enumerate(ms):
        for j in range(1 if d is None else d):
            out += raw(s, value(s, mix(v, i) if d is None else mix(v, i + 7 * j + 1)))
    return out


SUPPORT = """
unsigned char rec[8192]; int rec_pos = 0; int n_calls = 0; unsigned char ret[512]; char rstr[64]; wchar_t rwstr[64]; int ret_null = 0;
unsigned char out_data[16][512]; unsigned out_mask = 0; void *out_ptr[16]; unsigned char cb_data[8][32];
static void put(const void *p, int n) { memcpy(rec + rec_pos, p, n); rec_pos += n; }
static void puti(int i) { put(&i, sizeof i); }
"""


class Access:
    """Globals of the recording library through a plain ctypes handle."""

    def __init__(self, so):
        self.dll = d = ctypes.CDLL(so)
        self.rec = (ctypes.c_ubyte * 8192).in_dll(d, "rec")
        self.pos = ctypes.c_int.in_dll(d, "rec_pos")
        self.calls = ctypes.c_int.in_dll(d, "n_calls")
        self.ret = (ctypes.c_ubyte * 512).in_dll(d, "ret")
        self.rstr = (ctypes.c_char * 64).in_dll(d, "rstr")
        self.rwstr = (ctypes.c_wchar * 64).in_dll(d, "rwstr")
        self.ret_null = ctypes.c_int.in_dll(d, "ret_null")
        self.out_data = ((ctypes.c_ubyte * 512) * 16).in_dll(d, "out_data")
        self.out_mask = ctypes.c_uint.in_dll(d, "out_mask")
        self.out_ptr = (ctypes.c_void_p * 16).in_dll(d, "out_ptr")
        self.cb_data = ((ctypes.c_ubyte * 32) * 8).in_dll(d, "cb_data")

    def reset(self):
        self.pos.value = 0

    def recorded(self):
        return bytes(self.rec[:self.pos.value])


def put_scalar(spec, expr):
    if base(spec) == "long double":
        return "{ double d = %s; put(&d, sizeof d); }" % expr
    return "put(&%s, sizeof %s);" % (expr, expr)


def put_struct(ms, expr):
    return " ".join(put_scalar(s, "%s.%s" % (expr, n)) if d is None else " ".join(put_scalar(s, "%s.%s[%d]" % (expr, n, j)) for j in range(d)) for n, s, d in ms)
