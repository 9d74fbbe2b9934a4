"""Histories of registrations of directories, creations, replacements and deletions of files
(regular files, directories of the same name, dangling and valid links, pipes, unreadable
names) and searches, run against a model: an ordered list of directories searched one after
the other.  A second part looks for libraries known to the system's linker, and names with
characters special for a shell or a regular expression."""
import logging, os, re
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import HarnessError, Part, Violation
from pyclibrary import CLibrary, CParser
from pyclibrary.utils import HEADER_DIRS, LIBRARY_DIRS, add_header_locations, add_library_locations, find_header, find_library

ND = 5
dirs = st.integers(0, ND + 1)       # ND: missing directory, ND + 1: a file
NAMES = ["a.h", "b.hpp", "sub/a.h", "c d.h", "é.h", "$x.h", "a", "../{d0}/a.h", "libq.so", ".h", "A.h", "stdio.h", "WinDefs.h", "stdlib.h", "linux/types.h"]
FILES = ["file", "file", "file", "file", "file", "dir", "dangling", "link", "fifo", "none", "loop", "empty"]


@st.composite
def cases(draw):
    some = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    name = st.sampled_from(some)
    lib = draw(st.sampled_from([["header"], ["library"], ["header", "header", "library"]]))
    kind = st.sampled_from(lib)
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append(["add", draw(kind), draw(st.lists(dirs, min_size=1, max_size=4)), draw(st.booleans())])
    for _ in range(draw(st.integers(2, 6))):
        ops.append(["put", draw(st.integers(0, ND)), draw(name), draw(st.sampled_from(FILES))])
    for _ in range(draw(st.integers(2, 20))):
        k = draw(st.sampled_from(["put", "put", "put", "add", "make", "wipe", "find", "find", "find", "find", "find", "parser"]))
        if k == "put":
            ops.append([k, draw(st.integers(0, ND)), draw(name), draw(st.sampled_from(FILES))])
        elif k == "add":
            ops.append([k, draw(kind), draw(st.lists(dirs, max_size=3)), draw(st.booleans())])
        elif k == "make":
            ops.append([k])
        elif k == "wipe":
            ops.append([k, draw(st.integers(0, ND - 1))])
        elif k == "find":
            ops.append([k, draw(kind), draw(name), draw(st.one_of(st.none(), st.lists(dirs, max_size=4)))])
        else:
            ops.append([k, draw(st.lists(name, min_size=1, max_size=2, unique=True))])
    return {"ops": ops}


SYSTEM = ["/usr/local/include", "/usr/target/include", "/usr/include"]
logging.disable(logging.WARNING)


def run(case):
    base = sut.fresh_dir()
    cwd = os.getcwd()
    try:
        work = os.path.join(base, "cwd")
        os.mkdir(work)
        os.chdir(work)
        return history(case["ops"], base, work)
    finally:
        os.chdir(cwd)
        sut.shutil.rmtree(base, True)


def history(ops, base, work):
    D = [os.path.join(base, "d%d é%d" % (i, i) if i == 3 else "d%d" % i) for i in range(ND)] + [os.path.join(base, "missing")]
    for d in D[:ND]:
        os.mkdir(d)
    afile = os.path.join(base, "file")
    sut.write("int in_file;\n", afile)
    D.append(afile)
    added = {"header": [], "library": []}
    where = {}              # content of every regular file
    labels = set()
    tag = "u%s_" % re.sub(r"\W", "_", os.path.basename(base))
    log = []
    for i, op in enumerate(ops):
        log.append(op)
        if op[0] == "put":
            d = work if op[1] == ND else D[op[1]]
            name = full(op[2], tag)
            path = os.path.normpath(os.path.join(d, name))
            remove(path)
            if not os.path.isdir(d) or not path.startswith(base + os.sep):
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if op[3] == "file":
                sut.write("int v_%d;\n" % i, path)
            elif op[3] == "empty":
                sut.write("", path)
            elif op[3] == "dir":
                os.mkdir(path)
            elif op[3] == "dangling":
                os.symlink(os.path.join(base, "nowhere"), path)
            elif op[3] == "loop":
                os.symlink(path, path)
            elif op[3] == "link":
                t = os.path.join(base, "target%d" % i)
                sut.write("int v_%d;\n" % i, t)
                os.symlink(t, path)
            elif op[3] == "fifo":
                os.mkfifo(path)
            where[path] = i
        elif op[0] == "make":
            os.makedirs(D[ND], exist_ok=True)
        elif op[0] == "wipe":
            sut.shutil.rmtree(D[op[1]], True)
            if i % 2:
                os.mkdir(D[op[1]])
        elif op[0] == "add":
            given = [D[x] for x in op[2]]
            before = list(given)
            (add_header_locations if op[1] == "header" else add_library_locations)(given)
            if given != before:
                raise Violation("the list given to add_%s_locations is changed: %r -> %r" % (op[1], before, given))
            added[op[1]] += [d for d in given if os.path.isdir(d)]
            if op[3]:
                given.append(D[0])      # the caller may reuse its list
        elif op[0] == "find":
            given = None if op[3] is None else [D[x] for x in op[3]]
            before = None if given is None else list(given)
            name = full(op[2], tag)
            state = list(HEADER_DIRS), list(LIBRARY_DIRS)
            want = search(given or [], added[op[1]], op[1], name)
            if want is None and op[1] == "library" and (len(log) % 4 or i % 2):
                continue        # asking the linker is slow
            got = attempt(find_header if op[1] == "header" else find_library, name, given)
            if given != before:
                raise Violation("the list given to find_%s is changed: %r -> %r\n%r" % (op[1], before, given, log))
            if (list(HEADER_DIRS), list(LIBRARY_DIRS)) != state:
                raise Violation("searching %s changed the registered directories\n%r" % (name, log))
            judge("find_%s(%r, %r)" % (op[1], name, given), got, want, log, base)
            labels.add("found" if want else "not found")
            if want and op[1] == "library" and (got.path != got or LibraryKind(got) is not True):
                raise Violation("find_library(%r) gives %r" % (name, got))
            if want and any(lower(want, d, name) for d in (given or []) + added[op[1]][::-1]):
                labels.add("several")
        else:
            todo = [full(n, tag) for n in op[1] if n not in ("stdio.h", "stdlib.h", "WinDefs.h", "linux/types.h")]
            if not todo:
                continue
            want = []
            for n in todo:
                w = n if os.path.isfile(n) else search([], added["header"], "header", n)
                want.append(w)
            try:
                p = CParser(todo)
            except (OSError, IOError) as e:
                if None not in want:
                    raise Violation("CParser(%r): %s: %s, should read %r\n%r" % (todo, type(e).__name__, e, want, log))
                labels.add("parser refuses")
                continue
            if None in want:
                raise Violation("CParser(%r) reads %r, though %r is nowhere\n%r" % (todo, sorted(p.files), todo[want.index(None)], log))
            expected = set()
            for w in want:
                with open(w) as f:
                    expected |= set(re.findall(r"int (\w+);", f.read()))
            if set(p.defs["variables"]) != expected:
                raise Violation("CParser(%r) read %r instead of %r\n%r" % (todo, sorted(p.defs["variables"]), sorted(expected), log))
            labels.add("parser")
    return sorted(labels) or False


def LibraryKind(p):
    return isinstance(p, str) and p.bitness == "n/a"


def lower(want, d, name):
    path = os.path.join(d, name)
    return os.path.isfile(path) and os.path.normpath(path) != os.path.normpath(want)


def full(name, tag):
    if name in ("stdio.h", "WinDefs.h", "stdlib.h", "linux/types.h"):
        return name
    name = name.replace("{d0}", "d0")
    head, tail = os.path.split(name)
    return os.path.join(head, tag + tail)


def remove(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        sut.shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def search(given, added, kind, name):
    places = given + added[::-1]
    if kind == "header":
        places = places + [os.path.join(os.path.dirname(sut.pyclibrary.__file__), "headers")] + SYSTEM
    for d in places:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return path


def attempt(f, *a):
    try:
        return f(*a)
    except OSError:
        return None


def judge(what, got, want, log, base):
    a, b = [None if x is None else os.path.normpath(x) for x in (got, want)]
    if a != b:
        raise Violation("%s gives %r instead of %r\n%r" % (what, got and got.replace(base, "."), want and want.replace(base, "."), log))


# --- system ---------------------------------------------------------------------
KNOWN = ["c", "m", "dl", "pthread", "z", "stdc++", "gcc_s", "rt", "util"]
STRANGE = ["no such", "no;touch evil;", "$(touch evil)", "`touch evil`", "no|touch evil", "no&&touch evil", "no>evil", "a'b", 'a"b', "*", "[", "(", "no\\", ".", "no such.so", "-l", "x.so", "?", "c++", "", "x\ntouch evil", "-o evil", "lib", "$HOME", "é", "c -o evil"]
linker_cases = st.fixed_dictionaries({"name": st.one_of(st.sampled_from(KNOWN), st.sampled_from(STRANGE), st.sampled_from(STRANGE), st.tuples(st.sampled_from(STRANGE), st.sampled_from(STRANGE)).map("".join)),
                                      "shadow": st.sampled_from(["no", "no", "no", "given", "added", "both"]), "open": st.booleans()})


def linker(case):
    base = sut.fresh_dir()
    cwd = os.getcwd()
    name = case["name"]
    try:
        os.chdir(base)
        here = os.path.join(base, "work")
        os.mkdir(here)
        os.chdir(here)
        d1, d2 = os.path.join(base, "given"), os.path.join(base, "added")
        os.mkdir(d1)
        os.mkdir(d2)
        if name and case["shadow"] != "no" and "/" not in name and name not in (".", ".."):
            if case["shadow"] in ("given", "both"):
                sut.write("not a library", os.path.join(d1, name))
            if case["shadow"] in ("added", "both"):
                sut.write("not a library", os.path.join(d2, name))
                add_library_locations([d2])
        got = attempt(find_library, name, [d1])
        for d in (d1, d2):
            want = os.path.join(d, name)
            if os.path.isfile(want):
                judge("find_library(%r)" % name, got, want, case, base)
                return ["shadowed"]
        system = known().get(name, [])
        if got is None:
            if system:
                raise Violation("find_library(%r) finds nothing, the linker knows %r" % (name, system))
        elif not os.path.isfile(got):
            raise Violation("find_library(%r) gives %r which is not a file" % (name, str(got)))
        elif system and os.path.realpath(got) not in [os.path.realpath(s) for s in system]:
            raise Violation("find_library(%r) gives %r, the linker knows %r" % (name, str(got), system))
        elif not system:
            # only libraries installed for the linker
            if not re.match(r"lib%s\." % re.escape(name), os.path.basename(got)) and not linked(name, got):
                raise Violation("find_library(%r) gives %r" % (name, str(got)))
        if os.listdir(here) or sorted(os.listdir(base)) != ["added", "given", "work"]:
            raise Violation("find_library(%r) left files: %r %r" % (name, os.listdir(here), os.listdir(base)))
        if case["open"] and os.sep not in name and got is None:
            try:
                CLibrary(name, [])
            except OSError:
                pass
            else:
                raise Violation("CLibrary(%r) opened something" % name)
        return ["known" if system else "unknown"]
    finally:
        os.chdir(cwd)
        sut.shutil.rmtree(base, True)


_known = {}


def known():
    if not _known:
        r = sut.run(["/sbin/ldconfig", "-p"])
        for m in re.finditer(r"^\s*lib(\S+?)\.so\S* \(.*=> (\S+)$", r.stdout, re.M):
            _known.setdefault(m[1], []).append(m[2])
        _known.setdefault("\0", [])
    return _known


def linked(name, path):
    return any(os.path.realpath(path) == os.path.realpath(x) for x in known().get(name, []))


PARTS = [Part("search", cases(), run, 4000, rule="at least one search whose answer was compared with the model"),
         Part("linker", linker_cases, linker, 300, 2000, rule="all")]
