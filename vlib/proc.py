"""Running a function in a process of its own."""
import json, os, traceback
from .core import HarnessError, Violation


def child(f, *args):
    """Result (plain data) of a function in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ["ok", f(*args)]
            except Violation as e:
                res = ["violation", str(e)]
            except BaseException:
                res = ["error", traceback.format_exc()]
            with os.fdopen(w, "w") as o:
                json.dump(res, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as i:
        data = i.read()
    os.waitpid(pid, 0)
    try:
        k, v = json.loads(data)
    except ValueError:
        raise HarnessError("the child has ended: %r" % data)
    if k == "violation":
        raise Violation(v)
    if k == "error":
        raise Violation("unexpected error\n" + v)
    return v


class Zygote:
    """A process forked before anything was done, forking again for each request: the
    functions run as if they were the first thing ever done with the imported modules."""

    def __init__(self, functions):
        self.pid = os.getpid()
        (r, self.w), (self.r, w) = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                os.close(self.w), os.close(self.r)
                with os.fdopen(r) as i, os.fdopen(w, "w") as o:
                    for line in i:
                        name, args = json.loads(line)
                        try:
                            res = ["ok", child(functions[name], *args)]
                        except (Violation, HarnessError) as e:
                            res = [type(e).__name__, str(e)]
                        o.write(json.dumps(res) + "\n")
                        o.flush()
            finally:
                os._exit(0)
        os.close(r), os.close(w)
        self.inp, self.out = os.fdopen(self.r), os.fdopen(self.w, "w")

    def __call__(self, name, *args):
        self.out.write(json.dumps([name, args]) + "\n")
        self.out.flush()
        line = self.inp.readline()
        if not line:
            raise HarnessError("the zygote has ended")
        k, v = json.loads(line)
        if k != "ok":
            raise (Violation if k == "Violation" else HarnessError)(v)
        return v
