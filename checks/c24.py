"""Synthetic and real ELF files (any class, byte order, machine, type, program headers with
interpreters and notes holding misleading text, truncated bodies), PE files of every machine,
and other files (text, images, archives, near misses), with misleading names, modes and links.
The bitness must be the one at its place in the header.  Histories of openings with replaced
files check that a library of another bitness is refused before the loader is asked."""
import ctypes, os, shutil, struct, sys
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary
from pyclibrary import utils
from pyclibrary.utils import LibraryPath, add_library_locations, find_library

MISLEAD = ["32-bit", "64-bit", "ELF 32-bit LSB", "ELF 64-bit LSB", "/opt/32-bit/ld.so", "/opt/64-bit/ld.so", "é", "", "x", "for architecture i386", "PE32+ x86-64", ", 64-bit, 32-bit"]
NAMES = ["lib%s.so", "lib32-bit%s.so", "64-bit%s", "ELF 32-bit LSB%s.so", "a b%s.so", "é%s.so", "-b%s", "--version%s", "%s.dll", "32-bit: 64-bit%s", "x%s\n32-bit", "%s"]
EM = [3, 62, 8, 40, 183, 243, 2, 20, 21, 50, 0, 6, 22, 0x9026]
MACHINES = {0: "UNKNOWN", 0x014C: "I386", 0x0162: "R3000", 0x0166: "R4000", 0x0168: "R10000", 0x0169: "WCEMIPSV2", 0x0184: "ALPHA", 0x01A2: "SH3", 0x01A3: "SH3DSP",
            0x01A4: "SH3E", 0x01A6: "SH4", 0x01A8: "SH5", 0x01C0: "ARM", 0x01C2: "THUMB", 0x01C4: "ARMNT", 0x01D3: "AM33", 0x01F0: "POWERPC", 0x01F1: "POWERPCFP",
            0x0200: "IA64", 0x0266: "MIPS16", 0x0284: "ALPHA64", 0x0366: "MIPSFPU", 0x0466: "MIPSFPU16", 0x0520: "TRICORE", 0x0CEF: "CEF", 0x0EBC: "EBC", 0x8664: "AMD64",
            0x9041: "M32R", 0xC0EE: "CEE"}
OTHERS = {0xAA64, 0x5064, 0x5032, 0x5128, 0x6264, 0x6232, 0xA641, 0xA64E, 0x3A64}  # real machines whose bitness may be told one day
OTHER = ["empty", "text", "script", "png", "bmp", "ar", "macho64", "macho32", "fat", "gzip", "near", "near2", "short", "class0", "class3", "random"]

# machines that share digits with a known one: a nibble or a bit changed, bytes swapped
NEAR = st.tuples(st.sampled_from([0x014C, 0x8664, 0x0200, 0x0200, 0x014C, *MACHINES]), st.integers(0, 3), st.integers(0, 17)).map(
    lambda x: x[0] ^ 1 << x[2] if x[2] < 16 else x[0] & ~(15 << 4 * x[1]) | x[2] << 4 * x[1] if x[2] == 16 else x[0] >> 8 | (x[0] & 255) << 8).map(lambda m: m & 0xFFFF)

elf = st.fixed_dictionaries({
    "class": st.sampled_from([1, 2]), "data": st.sampled_from([1, 1, 1, 2]), "abi": st.sampled_from([0, 0, 3, 9, 97]), "type": st.sampled_from([3, 3, 2, 1, 4, 0xFE00]),
    "machine": st.sampled_from(EM), "interp": st.one_of(st.none(), st.sampled_from(MISLEAD)), "comment": st.sampled_from(MISLEAD), "cut": st.sampled_from([None, None, None, "header"]),
    "sections": st.booleans(), "note": st.booleans(), "flags": st.sampled_from([0, 5, 0x70000000])})
pe = st.fixed_dictionaries({"machine": st.one_of(st.sampled_from(sorted(MACHINES)), st.sampled_from([0x014C, 0x8664, 0x0200]), st.integers(0, 0xFFFF), NEAR),
                            "offset": st.sampled_from([64, 128, 0x80, 0xF0, 1000, 5000, 65, 0x10000]), "plus": st.booleans(), "bad": st.sampled_from([None, None, None, None, "mz", "sig", "far", "cut", "ne"])})
content = st.one_of(st.tuples(st.just("elf"), elf), st.tuples(st.just("elf"), elf), st.tuples(st.just("pe"), pe), st.tuples(st.just("other"), st.tuples(st.sampled_from(OTHER), st.sampled_from(MISLEAD), st.integers(0, 2**32 - 1))))
cases = st.fixed_dictionaries({"content": content, "name": st.sampled_from(NAMES), "link": st.sampled_from([None, None, None, "one", "two", "dir"]), "dir": st.sampled_from(["plain", "32-bit", "ELF 64-bit LSB"]),
                               "mode": st.sampled_from([0o644, 0o755, 0o4755, 0o2755, 0o1777, 0o444]), "how": st.sampled_from(["path", "find", "relative"])})


def build(kind, x):
    """-> bytes, expected arch on linux, expected machine."""
    if kind == "elf":
        big = x["class"] == 2
        e = "<" if x["data"] == 1 else ">"
        eh, ph, sh = (64, 56, 64) if big else (52, 32, 40)
        segs = []
        if x["interp"] is not None:
            segs.append((3, x["interp"].encode() + b"\0"))
        if x["note"]:
            segs.append((4, struct.pack(e + "III", 4, 4, 1) + b"GNU\0" + b"\0\0\0\0"))
            if x["type"] == 4:
                segs.append((4, struct.pack(e + "III", 5, 136, 3) + b"CORE\0\0\0\0" + (b"\0" * 40 + x["comment"].encode()[:15]).ljust(136, b"\0")))
        off = eh + ph * len(segs)
        heads = body = b""
        for t, d in segs:
            heads += struct.pack(e + "IIQQQQQQ", t, 4, off, 0, 0, len(d), len(d), 1) if big else struct.pack(e + "IIIIIIII", t, off, 0, 0, len(d), len(d), 4, 1)
            body += d
            off += len(d)
        names = b"\0.comment\0.shstrtab\0" + x["comment"].encode() + b"\0"
        shoff = 0
        if x["sections"]:
            c_off, n_off = off, off + 20
            body += x["comment"].encode().ljust(20, b"\0")[:20] + names
            shoff = n_off + len(names)
            f = e + ("IIQQQQIIQQ" if big else "IIIIIIIIII")
            body += struct.pack(f, *[0] * 10) + struct.pack(f, 1, 1, 0, 0, c_off, 20, 0, 0, 1, 0) + struct.pack(f, 10, 3, 0, 0, n_off, len(names), 0, 0, 1, 0)
        ident = b"\x7fELF" + bytes([x["class"], x["data"], 1, x["abi"]]) + b"\0" * 8
        head = struct.pack(e + ("HHIQQQIHHHHHH" if big else "HHIIIIIHHHHHH"), x["type"], x["machine"], 1, 0, eh if segs else 0, shoff, x["flags"], eh, ph, len(segs), sh, 3 if shoff else 0, 2 if shoff else 0)
        data = ident + head + heads + body
        return (data[:eh] if x["cut"] else data), ((64,) if big else (32,)), None
    if kind == "pe":
        data = bytearray(x["offset"] + 300)
        data[0:2] = b"MZ"
        data[60:64] = struct.pack("<i", x["offset"])
        o = x["offset"]
        data[o:o + 4] = b"PE\0\0"
        data[o + 4:o + 6] = struct.pack("<H", x["machine"])
        data[o + 20:o + 26] = struct.pack("<HHH", 240, 0x2022, 0x20B if x["plus"] else 0x10B)
        if x["bad"] == "mz":
            data[0:2] = b"ZM"
        elif x["bad"] == "sig":
            data[o:o + 4] = b"LE\0\0"
        elif x["bad"] == "ne":
            data[o:o + 4] = b"NE\5\1"
        elif x["bad"] == "far":
            data[60:64] = struct.pack("<i", len(data) + 1000)
        elif x["bad"] == "cut":
            del data[50:]
        return bytes(data), (), None if x["bad"] else x["machine"]
    k, text, n = x
    t = text.encode()
    data = {"empty": b"", "text": b"ELF 64-bit LSB shared object " + t + b"\n", "script": b"#!/bin/sh " + t + b"\necho 64-bit\n", "png": b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x40\0\0\0\x40\x10\6\0\0\0" + t,
            "bmp": b"BM" + struct.pack("<IHHIIiiHHIIiiII", 200, 0, 0, 54, 40, 32, 64, 1, 32, 0, 0, 0, 0, 0, 0) + b"\0" * 40, "ar": b"!<arch>\n" + t.ljust(60)[:60], "gzip": b"\x1f\x8b\x08\x08\0\0\0\0\0\3" + t + b"\0", "near": b"\x7fELG\2\1\1" + b"\0" * 60,
            "macho64": b"\xcf\xfa\xed\xfe" + struct.pack("<IIIIIII", 0x1000007, 3, 6, 0, 0, 0, 0), "macho32": b"\xce\xfa\xed\xfe" + struct.pack("<IIIIII", 7, 3, 6, 0, 0, 0),
            "fat": struct.pack(">IIIIIIIIIIII", 0xCAFEBABE, 2, 7, 3, 4096, 100, 12, 0x1000007, 3, 8192, 100, 12), "near2": b"ELF\x7f\2\1\1" + b"\0" * 60, "short": b"\x7fELF", "class0": b"\x7fELF\0\1\1" + b"\0" * 60,
            "class3": b"\x7fELF\3\1\1" + b"\0" * 60, "random": struct.pack("<I", n) * 30}[k]
    if data[:4] == b"\x7fELF" and data[4:5] in (b"\1", b"\2"):
        raise AssertionError
    return data, (() if k not in ("macho64", "macho32", "fat") else None), None


_seq = [0]


def run(case):
    kind, x = case["content"]
    data, arch, machine = build(kind, x)
    base = sut.fresh_dir()
    cwd = os.getcwd()
    _seq[0] += 1
    try:
        d = os.path.join(base, case["dir"])
        os.mkdir(d)
        name = case["name"] % ("q%d_%d" % (os.getpid(), _seq[0]))
        path = os.path.join(d, name)
        with open(path, "wb") as f:
            f.write(data)
        os.chmod(path, case["mode"])
        if case["link"] == "dir":
            os.symlink(case["dir"], base + "/64-bit link")
            d = base + "/64-bit link"
        elif case["link"]:
            d = base + "/links 32-bit"
            os.mkdir(d)
            os.symlink(path, d + "/" + name)
            if case["link"] == "two":
                os.symlink(name, d + "/64-bit " + name)
                name = "64-bit " + name
        path = os.path.join(d, name)
        if case["how"] == "find":
            p = find_library(name, [d])
        elif case["how"] == "relative":
            os.chdir(d)
            p = LibraryPath(name)
        else:
            p = LibraryPath(path)
        what = "%s %s, %r" % (kind, x, case)
        if arch is not None:
            got = [tuple(p.arch), p.bitness, p.is_32bit, p.is_64bit]
            want = [arch, ", ".join(map(str, arch)) or "n/a", 32 in arch if arch else "n/a", 64 in arch if arch else "n/a"]
            if got != want:
                raise Violation("arch, bitness, is_32bit, is_64bit: %r instead of %r\n%s" % (got, want, what))
            if [tuple(p.arch), p.bitness, p.is_32bit, p.is_64bit] != want:
                raise Violation("not the same answer twice\n%s" % what)
        # on Windows
        f = getattr(utils, "get_shared_library_arch", None)
        name_of = None
        if f is not None:
            try:
                name_of = f(path)
            except Exception:
                name_of = "none"
            want = "none" if machine is None else MACHINES.get(machine, "UNKNOWN")
            if name_of != want and (machine is None or machine in MACHINES or name_of in MACHINES.values()):  # names may be added
                raise Violation("machine %r instead of %r\n%s" % (name_of, want, what))
        platform = sys.platform
        try:
            sys.platform = "win32"
            p = LibraryPath(path)
            got = [tuple(p.arch), p.bitness]
        finally:
            sys.platform = platform
        want = {0x014C: [(32,), "32"], 0x8664: [(64,), "64"], 0x0200: [(64,), "64"]}.get(machine, [(), "n/a"])
        if got != want and (machine is None or machine in MACHINES or machine not in OTHERS):
            raise Violation("on Windows: %r instead of %r\n%s" % (got, want, what))
        with open(path, "rb") as f:
            if f.read() != data:
                raise Violation("the file is modified")
        return [kind, "%s %s" % (kind, "none" if arch == () else arch)] + (["PE machine"] if machine is not None else []) + (["link"] if case["link"] else [])
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, True)


# --- opening ---------------------------------------------------------------------
open_st = st.tuples(st.sampled_from(["own", "own", "other", "other", "pe", "text", "missing", "directory"]), elf, st.sampled_from(["abs", "link", "name", "rel"]))
open_cases = st.fixed_dictionaries({"steps": st.lists(open_st, min_size=1, max_size=5).map(lambda x: [list(y) for y in x])})
_lib = [None, None]
_loads = []


class Spy:
    """Record what is given to the loader while the block runs."""
    def __enter__(self):
        self.orig = orig = ctypes.CDLL.__init__
        _loads.clear()

        def init(self, name, *a, **kw):
            _loads.append(name)
            return orig(self, name, *a, **kw)
        ctypes.CDLL.__init__ = init

    def __exit__(self, *a):
        ctypes.CDLL.__init__ = self.orig


def opening(case):
    if _lib[0] != os.getpid():
        _lib[:] = [os.getpid(), sut.shared("int answer(void) { return 42; }")]
    base = sut.fresh_dir()
    cwd = os.getcwd()
    labels = set()
    try:
        d = os.path.join(base, "d")
        os.mkdir(d)
        add_library_locations([d])
        os.chdir(base)
        path = None
        for i, (k, x, how) in enumerate(case["steps"]):
            if path is None:
                # once loaded, the system's loader no longer looks at the file
                _seq[0] += 1
                name = "libo%d_%d.so" % (os.getpid(), _seq[0])
                path = os.path.join(d, name)
                if os.path.lexists(base + "/link"):
                    os.unlink(base + "/link")
                os.symlink("d/" + name, base + "/link")
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.unlink(path)
            if k == "own":
                shutil.copyfile(_lib[1], path)
            elif k == "directory":
                os.mkdir(path)
            elif k != "missing":
                x = dict(x)
                x["class"] = 1 if sys.maxsize > 2**32 else 2
                data = build("elf", x)[0] if k == "other" else build("pe", {"machine": 0x8664, "offset": 128, "plus": True, "bad": None})[0] if k == "pe" else b"/* GNU ld script 64-bit */\n"
                with open(path, "wb") as f:
                    f.write(data)
            given = {"abs": path, "link": base + "/link", "name": name, "rel": "./d/../d/" + name}[how]
            what = "step %d of %r" % (i, case)
            with Spy():
                try:
                    L = CLibrary(given, [])
                except Exception as e:
                    L, err = None, e
            if k == "own":
                if L is None:
                    raise Violation("not opened: %r, %s" % (err, what))
                path = None
            else:
                if L is not None:
                    raise Violation("opened, %s" % what)
                if not isinstance(err, OSError) and not (k in ("missing", "directory") and how != "name"):
                    raise Violation("%r, %s" % (err, what))
                if k in ("other", "missing", "directory") and _loads:
                    raise Violation("the loader was asked for %r, %s" % (_loads, what))
            labels.add(k)
        return sorted(labels)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, True)


PARTS = [Part("files", cases, run, 3000, rule="all: each file has its expected bitness or none"),
         Part("opening", open_cases, opening, 500, rule="all")]
