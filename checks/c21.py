"""Histories of openings of a few shared libraries under random spellings (absolute,
relative, dotted, through symbolic links of files and directories, by name in a search
directory, as an already loaded library), failing openings and releases, against a
model keeping the object alive for every file.  The headers given define a number
telling which opening built the object."""
import ctypes, gc, os, shutil
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary, CParser
from pyclibrary.utils import add_library_locations

SPELL = ["abs", "dots", "rel", "rel dots", "link", "chain", "dirlink", "name", "linkname", "cdll", "cdll link", "cdll rel"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(2, 22))):
        k = draw(st.sampled_from(["open"] * 6 + ["drop"] * 3 + ["bad", "use"]))
        if k == "open":
            ops.append([k, draw(st.integers(0, n - 1)), draw(st.sampled_from(SPELL)), draw(st.integers(0, 2)), draw(st.integers(0, 2))])
        elif k in ("drop", "use"):
            ops.append([k, draw(st.integers(0, 5))])
        else:
            ops.append([k, draw(st.integers(0, n - 1)), draw(st.integers(0, 3))])
    return {"n": n, "same_name": draw(st.booleans()), "ops": ops, "cwd": draw(st.integers(0, 2))}


_seq = [0]
_orig = [None, None]


def original():
    if _orig[0] != os.getpid():
        _orig[:] = [os.getpid(), sut.shared("int twice(int a) { return 2 * a; }")]
    return _orig[1]


def run(case):
    root = sut.fresh_dir()
    _seq[0] += 1
    uid = "%d_%d" % (os.getpid(), _seq[0])
    real = []
    os.mkdir(root + "/links")
    dirs = []
    for i in range(case["n"]):
        d = "%s/d%d" % (root, i)
        os.mkdir(d)
        dirs.append(d)
        # files may only differ by their directory
        p = d + "/lib%s.so" % (uid if case["same_name"] else "%s_%d" % (uid, i))
        shutil.copyfile(original(), p)
        real.append(p)
        os.symlink(p, "%s/links/ln%d_%s.so" % (root, i, uid))
        os.symlink("ln%d_%s.so" % (i, uid), "%s/links/chain%d" % (root, i))
        os.symlink(d, "%s/dl%d" % (root, i))
    add_library_locations([root + "/links"] + ([] if case["same_name"] else dirs))
    cwd = os.getcwd()
    try:
        os.chdir([root, dirs[0], root + "/links"][case["cwd"]])
        return history(case, root, real, uid)
    finally:
        os.chdir(cwd)
        gc.collect()
        shutil.rmtree(root, ignore_errors=True)


def spelling(i, how, root, real, same_name):
    p = real[i]
    base = os.path.basename(p)
    rel = os.path.relpath(p)
    if os.sep not in rel:
        rel = "./" + rel
    if how == "name" and same_name:
        how = "abs"
    return {"abs": lambda: p, "dots": lambda: os.path.join(os.path.dirname(p), ".", "..", os.path.basename(os.path.dirname(p)), base), "rel": lambda: rel,
            "rel dots": lambda: os.path.join(".", os.path.relpath(root), "d%d" % i, "..", "d%d" % i, base), "link": lambda: [x for x in links(root) if "/ln%d_" % i in x][0],
            "chain": lambda: "%s/links/chain%d" % (root, i), "dirlink": lambda: "%s/dl%d/%s" % (root, i, base), "name": lambda: base,
            "linkname": lambda: os.path.basename([x for x in links(root) if "/ln%d_" % i in x][0]), "cdll": lambda: ctypes.CDLL(p),
            "cdll link": lambda: ctypes.CDLL("%s/links/chain%d" % (root, i)), "cdll rel": lambda: ctypes.CDLL(rel)}[how]()


def links(root):
    return ["%s/links/%s" % (root, x) for x in os.listdir(root + "/links")]


def history(case, root, real, uid):
    slots = []                   # [file, object, number]
    count = 0
    labels = set()
    for k, op in enumerate(case["ops"]):
        here = "operation %d %r of %r" % (k, op, case["ops"])
        if op[0] == "open":
            _, i, how, form, kw = op
            count += 1
            header = sut.write("#define NUMBER %d\nint twice(int a);\n" % count)
            arg = spelling(i, how, root, real, case["same_name"])
            obj = CLibrary(arg, CParser([header]) if form == 0 else [header], **[{}, {"prefix": "x_"}, {"lock_calls": True}][kw])
            os.unlink(header)
            alive = [s for s in slots if s[0] == i]
            if alive:
                if obj is not alive[0][1]:
                    raise Violation("a second object for an open library: " + here)
                slots.append([i, obj, alive[0][2]])
                labels.add("reopened")
                labels.add("reopened by " + how)
            else:
                if any(obj is s[1] for s in slots):
                    raise Violation("the object of another library: " + here)
                slots.append([i, obj, count])
                labels.add("built")
            if obj.NUMBER != slots[-1][2]:
                raise Violation("the object has the headers of opening %r instead of %r: %s" % (obj.NUMBER, slots[-1][2], here))
            del obj, arg, alive
        elif op[0] == "drop" and slots:
            del slots[op[1] % len(slots)]
            gc.collect()
            labels.add("released")
        elif op[0] == "use" and slots:
            if slots[op[1] % len(slots)][1].twice(op[1])() != 2 * op[1]:
                raise Violation("wrong result: " + here)
        elif op[0] == "bad":
            header = sut.write("#define NUMBER 0\n")
            i = op[1]
            bad = [lambda: CLibrary(root + "/missing.so", [header]), lambda: CLibrary("missing_%s.so" % uid, [header]), lambda: CLibrary(header, [header]),
                   lambda: CLibrary(real[i], 5)]
            if op[2] == 3 and any(s[0] == i for s in slots):
                continue
            try:
                bad[op[2]]()
            except Exception:
                labels.add("failed")
            else:
                raise Violation("no error: " + here)
            finally:
                os.unlink(header)
            gc.collect()
        for i, obj, number in slots:
            if obj.NUMBER != number:
                raise Violation("an object has changed after " + here)
        obj = None
    return sorted(labels) if "reopened" in labels else False


PARTS = [Part("histories", cases(), run, 700, rule="non-trivial: a library is opened again while it is open")]
