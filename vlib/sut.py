"""Access to the code under test and to the C compiler."""
import atexit, os, shutil, subprocess, tempfile
from . import core
core.setup_paths()
import pyclibrary                       # noqa: E402
from pyclibrary import CParser          # noqa: E402
from pyclibrary.c_parser import Type, Struct, Union, Enum  # noqa: E402,F401

_dir = [None]
_n = [0]


def scratch():
    """Scratch directory of this process (removed at exit and by the parent)."""
    if _dir[0] is None or not os.path.isdir(_dir[0]) or _pid[0] != os.getpid():
        _dir[0] = tempfile.mkdtemp(prefix="case-")
        _pid[0] = os.getpid()
        atexit.register(shutil.rmtree, _dir[0], True)
    return _dir[0]


_pid = [os.getpid()]


def fresh(suffix=""):
    _n[0] += 1
    return os.path.join(scratch(), "f%d%s" % (_n[0], suffix))


def fresh_dir():
    d = fresh(".d")
    os.mkdir(d)
    return d


def write(text, path=None, suffix=".h", encoding="utf-8"):
    path = path or fresh(suffix)
    with open(path, "w", encoding=encoding, newline="") as f:
        f.write(text)
    return path


def parse(text, **kw):
    # the name of a header has no meaning
    path = write(text, suffix=[".h", ".h", ".hpp", ".inc", "", ".c", ".H"][sum(map(ord, text[-40:])) % 7])
    try:
        return CParser(path, **kw)
    finally:
        os.unlink(path)


def run(cmd, inp=None, timeout=60):
    try:
        return subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise core.HarnessError("timeout: %r" % (cmd,))
    except OSError as e:
        raise core.HarnessError("%r: %s" % (cmd, e))


def gcc(args, source=None, ok=True):
    r = run(["gcc", "-w", *args], source)
    if ok and r.returncode != 0:
        raise core.HarnessError("gcc %s\n%s\n--- source\n%s" % (args, r.stderr, source))
    return r


def shared(source, flags=()):
    """Compile C source text to a shared library, return its path."""
    out = fresh(".so")
    gcc(["-shared", "-fPIC", "-O0", "-x", "c", *flags, "-o", out, "-"], source)
    return out


def c_values(source, exprs):
    """Values of long long expressions after the given declarations."""
    out = fresh(".exe")
    prog = "#include <stdio.h>\n#include <stddef.h>\n#include <stdint.h>\n" + source
    prog += "\nint main(void){\n" + "".join('printf("%%lld\\n",(long long)(%s));\n' % e for e in exprs) + "return 0;}\n"
    gcc(["-x", "c", "-O0", "-o", out, "-"], prog)
    r = run([out])
    os.unlink(out)
    if r.returncode != 0:
        raise core.HarnessError("probe program failed: %s\n%s" % (r.stderr, prog))
    return [int(x) for x in r.stdout.split()]


def c_values_of(source, exprs):
    """Same, for a source that may not be alone in having these declarations; None if
    it does not compile."""
    out = fresh(".exe")
    r = gcc(["-std=gnu17", "-x", "c", "-O0", "-o", out, "-"], source + "\nint printf(const char *, ...);\nint main(void){\n"
            + "".join('printf("%%lld\\n",(long long)(%s));\n' % e for e in exprs) + "return 0;}\n", ok=False)
    if r.returncode:
        return None
    r = run([out])
    os.unlink(out)
    return [int(x) for x in r.stdout.split()]
