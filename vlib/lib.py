"""Opening libraries with the code under test."""
import ctypes, os, shutil
from . import sut
from pyclibrary import CLibrary

PRELUDE = ("#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <wchar.h>\n#include <sys/types.h>\n"
           "#include <string.h>\n#include <time.h>\n#define restrict\n#define __stdcall\n#define __cdecl\n")
_stub = [None, None]


def stub():
    """Path of a shared library without functions, new for each call so that the
    library objects of two cases are never the same."""
    if _stub[0] != os.getpid():
        _stub[:] = [os.getpid(), sut.shared("int stub_value = 1;")]
    p = sut.fresh(".so")
    shutil.copyfile(_stub[1], p)
    return p


def open_header(text, so=None, **kw):
    """Library object for a header text (over a stub if no library is given)."""
    path, so_path = sut.write(text), so or stub()
    try:
        return CLibrary(so_path, [path], **kw)
    finally:
        os.unlink(path)
        if not so:
            os.unlink(so_path)


def load(so):
    return ctypes.CDLL(so)


# --- reference description of the types, independent of the code under test ------------
INTS = {}
for _w, _n in (("char", 1), ("short", 2), ("int", 4), ("long", 8), ("long long", 8)):
    for _s in ("", "signed ", "unsigned "):
        for _i in ("", " int") if _w not in ("char", "int") else ("",):
            INTS[_s + _w + _i] = (_n, _s != "unsigned ")
INTS.update({"unsigned": (4, False), "signed": (4, True), "long unsigned int": (8, False), "size_t": (8, False), "ssize_t": (8, True), "time_t": (8, True)})
for _n in (8, 16, 32, 64):
    INTS["int%d_t" % _n] = (_n // 8, True)
    INTS["uint%d_t" % _n] = (_n // 8, False)
FLOATS = {"float": ctypes.c_float, "double": ctypes.c_double, "long double": ctypes.c_longdouble}
CT_INT = {(1, True): ctypes.c_int8, (1, False): ctypes.c_uint8, (2, True): ctypes.c_int16, (2, False): ctypes.c_uint16,
          (4, True): ctypes.c_int32, (4, False): ctypes.c_uint32, (8, True): ctypes.c_int64, (8, False): ctypes.c_uint64}


def int_range(spec, bits=None):
    n, signed = INTS[spec]
    w = bits or 8 * n
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
