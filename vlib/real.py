"""System headers: text of the preprocessor, thinned out and laid out anew."""
import random, re
from . import core
core.setup_paths()
from hypothesis import strategies as st  # noqa: E402
from . import sut                        # noqa: E402
from .sut import Type                    # noqa: E402

HEADERS = ["stdio", "stdlib", "limits", "time", "signal", "math", "pthread", "sys/socket", "netdb", "fcntl", "unistd", "termios",
           "sys/ioctl", "errno", "string", "sys/epoll", "sys/inotify", "sys/stat", "sys/resource", "net/if", "arpa/inet", "wchar",
           "locale", "dirent", "poll", "semaphore", "stdint", "inttypes", "ctype", "setjmp", "sys/mman", "sys/wait", "sys/time",
           "netinet/in", "netinet/tcp", "sched", "utime", "grp", "pwd", "regex", "glob", "syslog", "sys/uio", "sys/un", "sys/statvfs",
           "sys/ipc", "sys/shm", "sys/sem", "sys/msg", "mqueue", "dlfcn", "iconv", "langinfo", "ftw", "search", "spawn", "aio", "fenv", "float", "wctype"]
MACROS = ["-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=500", "-ansi", "-D_FILE_OFFSET_BITS=64", "-D_DEFAULT_SOURCE"]
QUALS = ("const", "volatile", "restrict")
cases = st.fixed_dictionaries({
    "headers": st.lists(st.sampled_from(HEADERS), min_size=1, max_size=3, unique=True),
    "flags": st.lists(st.sampled_from(MACROS), max_size=2, unique=True),
    "seed": st.integers(0, 2**32 - 1)})


def text(case, macros=False, functions=0.3):
    """Preprocessed text with only some of its function declarations; None if this
    system does not have the headers."""
    src = "".join("#include <%s.h>\n" % h for h in case["headers"])
    r = sut.gcc(["-E", "-P", *["-dD"] * macros, "-x", "c", "-D__extension__=", "-D__attribute__(x)=", "-D__asm__(x)=", "-D__restrict=restrict",
                 *case["flags"], "-"], src, ok=False)
    if r.returncode:
        return None
    t = r.stdout
    if "#define __restrict restrict\n" in t:
        # without the macros of the compiler
        t = t[t.rindex("#define __restrict restrict\n"):].split("\n", 1)[1]
    t = re.sub(r"\b__(?!builtin|int128|inline|restrict|const\b|volatile\b|signed)(\w+)", r"ii_\1", t)
    t = t.replace("__builtin_va_list", "void *").replace("__signed__", "signed")
    t = re.sub(r"typedef [\w ]*__int128[^;]*;", "", t)
    rnd = random.Random(case["seed"])
    out = []
    for line in re.split(r"(?m)^(#.*\n)", t):
        if line[:1] == "#":
            out.append("\n" * (bool(out) and out[-1][-1:] != "\n") + line)
            continue
        for piece in pieces(line):
            if re.search(r"\w \(", piece[:1 + piece.find("(")]) and "{" not in piece and not piece.lstrip().startswith("typedef") and rnd.random() > functions:
                continue
            # another layout
            k = rnd.randrange(6)
            if k == 0:
                piece = re.sub(r"[ ]", lambda m: rnd.choice([" ", " ", "  ", "\t", "\n", "\n  ", " /* ; */ "]), piece)
            elif k == 1:
                piece = piece.strip() + rnd.choice([" ", "\n", " // x\n", "\n\n"])
            out.append(piece)
    return "".join(out)


def pieces(t):
    """The text cut after the semicolons outside of braces and the bodies of functions."""
    depth = start = 0
    body = False
    for i, ch in enumerate(t):
        if ch == "{":
            if not depth:
                body = t[start:i].rstrip().endswith(")")
            depth += 1
        elif ch == "}":
            depth = max(depth - 1, 0)
            if not depth and body:
                yield t[start:i + 1]
                start, body = i + 1, False
        elif ch == ";" and not depth:
            yield t[start:i + 1]
            start = i + 1
    yield t[start:]


class Skip(Exception):
    pass


def quals(t, i):
    return [q for q in (t.type_quals[i] if i < len(t.type_quals) else ()) if q in QUALS]


def render(t, name):
    """C declaration of a name of a recorded type."""
    out, prev = name, None
    for i in range(len(t) - 1, 0, -1):
        m = t[i]
        if m == "*":
            out = "*" + " ".join(quals(t, i)) + " " + out
        elif isinstance(m, (list, tuple)):
            if prev == "*":
                out = "(" + out + ")"
            if isinstance(m, tuple):
                out += "(" + ", ".join(render(a[1], "") for a in m) + ")"
            elif m[0] is None:
                raise Skip()
            else:
                out += "[]" if m[0] == -1 else "[%d]" % m[0]
        else:
            raise Skip()
        prev = m
    if isinstance(t[0], Type):
        return render(t[0], out)
    if "anon_" in t[0]:
        raise Skip()
    return " ".join([*quals(t, 0), t[0]]) + " " + out


def types(case):
    """Each recorded declaration is compatible, for gcc, with the one of the header."""
    t = text(case)
    if t is None:
        return False
    p = sut.parse(t)
    lines, missing = [], []
    for cat in ("functions", "variables", "types"):
        for n, d in p.defs[cat].items():
            if " " in n:
                continue
            try:
                lines.append({"functions": "%s;", "variables": "extern %s;", "types": "typedef %s;"}[cat] % render(d[1] if cat == "variables" else d, n))
            except Skip:
                pass
    # and none is missing
    for piece in pieces(re.sub(r"(?m)^#.*\n|//.*|/\*.*?\*/", "", t)):
        m = re.match(r"\s*(?:extern\s+)?(?:\w+[\s*]+)+(\w+)\s*\([^{}]*\)\s*;$", piece)
        if m and "typedef" not in piece and "..." not in piece and m.group(1) not in p.defs["functions"]:
            missing.append(m.group(1))
    if missing:
        raise core.Violation("<%s> %s: no declaration of %s" % (case["headers"], case["flags"], missing[:5]))
    if not lines:
        return False
    r = sut.gcc(["-std=gnu17", "-fsyntax-only", "-x", "c", "-"], t + '\n#line 1 "chk"\n' + "\n".join(lines) + "\n", ok=False)
    errs = [x for x in r.stderr.splitlines() if "error" in x]
    if any(not x.startswith("chk:") for x in errs):
        return False                        # the thinned text is not C any more
    if errs:
        n = int(errs[0].split(":")[1])
        raise core.Violation("<%s> %s: recorded declaration %s\n%s" % (case["headers"], case["flags"], lines[n - 1], "\n".join(errs[:5])))
    return True if len(lines) > 20 else False


def bits(cls):
    """Whether a class contains bit-fields, which ctypes does not lay out like gcc."""
    if hasattr(cls, "_length_"):
        return bits(cls._type_)
    return any(len(f) > 2 or bits(f[1]) for f in getattr(cls, "_fields_", ()))


def layouts(case):
    """Sizes and offsets of the classes."""
    import ctypes
    from . import lib as L
    t = text(case, functions=0)
    if t is None:
        return False
    lib = L.open_header(t)
    got = []
    d = {k: lib[k] for k in ("structs", "unions", "types")}
    for cat in ("structs", "unions"):
        for n, s in d[cat].items():
            if "anon_" in n or not s["members"]:
                continue
            try:
                cls = lib(cat, n)
            except TypeError:
                if "sizeof" in t:           # unknown sizes
                    continue
                raise
            if bits(cls):
                continue
            k = cat[:-1] + " " + n
            got.append(("sizeof(%s)" % k, ctypes.sizeof(cls)))
            got += [("__builtin_offsetof(%s, %s)" % (k, m[0]), getattr(cls, m[0]).offset) for m in s["members"] if m[0] and len(m) == 3]
    for n, ty in d["types"].items():
        if " " not in n and not isinstance(ty[-1], tuple) and "anon_" in ty[0] and len(ty) == 1:
            try:
                cls = lib("types", n)
                if not bits(cls):
                    got.append(("sizeof(%s)" % n, ctypes.sizeof(cls)))
            except TypeError:
                if "sizeof" not in t:
                    raise
    if len(got) < 10:
        return False
    want = sut.c_values_of(t, [e for e, _ in got])
    if want is None:
        return False
    for (e, g), w in zip(got, want):
        if g != w:
            raise core.Violation("<%s> %s: %s is %s for the class, %s for gcc" % (case["headers"], case["flags"], e, g, w))
    return True


INT = re.compile(r"^\s*(?:-|~)?\s*\(?\s*(?:0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*\)?\s*$")


def values(case):
    """Values of the macros and of the enumerators."""
    t = text(case, True, 0)
    if t is None:
        return False
    p = sut.parse(t)
    d = p.defs
    vals = {k: v for k, v in d["values"].items() if isinstance(v, (int, float))}
    for k, body in d["macros"].items():
        if INT.match(body) and k not in vals:
            raise core.Violation("<%s> %s: no value for %s %s" % (case["headers"], case["flags"], k, body))
    names = sorted(vals)
    lines = ['#if %d || defined %s\nprintf("%d %%lld %%.17g\\n", (long long)(%s), (double)(%s));\n#endif' % (k not in d["macros"], k, i, k, k) for i, k in enumerate(names)]
    out = sut.fresh(".exe")
    r = None
    for _ in range(20):
        src = t + "\nint printf(const char *, ...);\nint main(void) {\n#line 1 \"chk\"\n" + "\n".join(lines) + "\nreturn 0; }\n"
        r = sut.gcc(["-std=gnu17", "-x", "c", "-o", out, "-"], src, ok=False)
        if r.returncode == 0:
            break
        bad = [int(n) for n in re.findall(r"(?m)^chk:(\d+):\d+: error", r.stderr)]
        if not bad or max(bad) > 3 * len(lines):
            return False
        for n in bad:
            lines[(n - 1) // 3] = "\n\n"
    else:
        return False
    res = sut.run([out])
    sut.os.unlink(out)
    n = 0
    for line in res.stdout.splitlines():
        i, a, b = line.split()
        k, a, b = names[int(i)], int(a), float(b)
        v = vals[k]
        n += 1
        if v == a or abs(v - b) <= 1e-6 * abs(b) and isinstance(v, float) or isinstance(v, int) and (v - 2**64 == a or not -2**31 <= v < 2**31 and (v - a) % 2**32 == 0):
            continue
        raise core.Violation("<%s> %s: %s (%s) is %r, %s in C" % (case["headers"], case["flags"], k, d["macros"].get(k, "enumerator"), v, line))
    return n > 10
