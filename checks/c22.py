"""Several threads call the functions of a compiled library which count the threads inside
(per thread, so that a callback calling back is no overlap), sleep or wait for each
other.  Opened with locked calls the library must never see two threads, opened without
it the threads must be able to meet; nested calls from callbacks must not block, the
lock must be free after failing calls, and each call must return its own result."""
import ctypes, os, shutil, sys, threading, time
from hypothesis import strategies as st
from vlib import lib, sut
from vlib.core import Part, Violation
from pyclibrary import CLibrary

SRC = r"""
#include <unistd.h>
#include <time.h>
#include <string.h>
static int inside, overlaps, arrived; static __thread int depth;
static void in(void) { if (depth++ == 0) { if (__sync_add_and_fetch(&inside, 1) > 1) __sync_add_and_fetch(&overlaps, 1); } }
static void out(void) { if (--depth == 0) __sync_sub_and_fetch(&inside, 1); }
int count_overlaps(void) { return overlaps; }
int count_inside(void) { return inside; }
void clear(void) { inside = overlaps = arrived = 0; }
int pre_value(int id, int us) { in(); usleep(us); out(); return id * 3; }
void pre_nothing(void) { in(); usleep(600); out(); }
int pre_fill(int id, int *res, int us, double *twice) { in(); usleep(us); if (res) *res = id * 5; if (twice) *twice = id * 2; out(); return id * 7; }
struct pair { int a; int b; };
int pre_struct(struct pair p, struct pair *res, int us) { in(); usleep(us); if (res) { res->a = p.b; res->b = p.a; } out(); return p.a - p.b; }
const char *pre_text(const char *s, int us) { in(); usleep(us); out(); return strchr(s, ':') + 1; }
int pre_call(int (*cb)(int), int id, int us) { in(); int r = cb ? cb(id) : -1; usleep(us); out(); return r + 1; }
int pre_meet(int n, int ms) { in(); __sync_add_and_fetch(&arrived, 1); while (arrived < n && ms-- > 0) usleep(1000); out(); return arrived; }
int pre_wait(int *flag, int ms) { in(); while (!*(volatile int *)flag && ms-- > 0) usleep(1000); out(); return *flag; }
int pre_set(int *flag) { in(); *flag = 1; out(); return 4; }
"""
HEADER = """
struct pair { int a; int b; };
int pre_value(int id, int us); void pre_nothing(void); int pre_fill(int id, int *res, int us, double *twice); int pre_struct(struct pair p, struct pair *res, int us);
const char *pre_text(const char *s, int us); int pre_call(int (*cb)(int), int id, int us); int pre_meet(int n, int ms); int pre_wait(int *flag, int ms); int pre_set(int *flag);
"""
CALLS = ["value", "value named", "nothing", "fill omitted", "fill null", "fill given", "struct omitted", "struct given", "text", "callback", "nested", "nested deep",
         "bad type", "bad name", "bad missing", "bad callback"]
TIMEOUT = 60


@st.composite
def cases(draw):
    op = st.tuples(st.sampled_from(CALLS), st.integers(1, 1000), st.sampled_from([0, 0, 200, 1000, 2000]), st.integers(0, 3)).map(list)
    return {"lock": draw(st.sampled_from([True, True, True, False])), "threads": draw(st.lists(st.lists(op, min_size=1, max_size=5), min_size=2, max_size=5)),
            "before": draw(st.lists(op, max_size=2)), "again": draw(st.booleans()), "cdll": draw(st.booleans()), "other": draw(st.booleans())}


_so = [None, None]


def copy():
    if _so[0] != os.getpid():
        _so[:] = [os.getpid(), sut.shared(SRC)]
    p = sut.fresh(".so")
    shutil.copyfile(_so[1], p)
    return p


def run(case):
    path, so, so2 = sut.write(HEADER), copy(), copy()
    dll = ctypes.CDLL(so)
    kw = {"prefix": "pre_"}
    if case["lock"]:
        kw["lock_calls"] = True
    L = CLibrary(dll if case["cdll"] else so, [path], **kw)
    if case["again"]:            # the open library stays as it is
        if CLibrary(so, [path], prefix="pre_") is not L:
            raise Violation("second object")
    errors = []
    hook = sys.unraisablehook
    sys.unraisablehook = lambda u: None
    try:
        def act(ops):
            for op in ops:
                try:
                    one(L, op)
                except BaseException as e:
                    errors.append("%r: %s: %s" % (op, type(e).__name__, e))
                    return
        act(case["before"])
        go(errors, [lambda t=t: act(t) for t in case["threads"]], "the calls of the threads block")
        if case["lock"]:
            if dll.count_overlaps():
                raise Violation("%d overlapping calls in a library with locked calls" % dll.count_overlaps())
            # locked calls cannot meet either
            n = []
            go(errors, [lambda: n.append(L.meet(2, 4)()) for _ in range(2)], "locked calls block")
            if dll.count_overlaps():
                raise Violation("two calls met in a library with locked calls")
        else:
            n = []
            go(errors, [lambda: n.append(L.meet(3, 20000)()) for _ in range(3)], "calls block")
            if n != [3, 3, 3]:
                raise Violation("calls of a library opened without lock exclude each other: %r" % n)
        if dll.count_inside():
            raise Violation("count")
        if case["other"]:
            # a library without lock can be called during a (locked) call of another one
            B = CLibrary(so2, [path], prefix="pre_")
            flag = ctypes.c_int(0)
            n = []
            go(errors, [lambda: n.append(L.wait(ctypes.byref(flag), 20000)()), lambda: B.set(ctypes.byref(flag))], "calls of two libraries block")
            if n != [1]:
                raise Violation("a call of a library without lock waits for another library")
    finally:
        sys.unraisablehook = hook
        for f in (path, so, so2):
            os.unlink(f)
    kinds = {op[0].split()[0] for t in case["threads"] for op in t}
    return ["locked" if case["lock"] else "not locked"] + sorted(kinds)


def go(errors, funcs, what):
    def guard(f):
        try:
            f()
        except BaseException as e:
            errors.append("%s: %s" % (type(e).__name__, e))
    threads = [threading.Thread(target=guard, args=(f,), daemon=True) for f in funcs]
    for t in threads:
        t.start()
    for t in threads:
        t.join(TIMEOUT)
        if t.is_alive():
            raise Violation(what)
    if errors:
        raise Violation(errors[0])


def check(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation("%s gives %r instead of %r" % (what, got, want))


def one(L, op):
    k, i, us, form = op
    f = [lambda n: getattr(L, n), lambda n: getattr(L, "pre_" + n), lambda n: L("functions", "pre_" + n), lambda n: L("functions", n)][form]
    if k == "value":
        check(f("value")(i, us)(), 3 * i, op)
    elif k == "value named":
        check(f("value")(us=us, id=i)(), 3 * i, op)
    elif k == "nothing":
        check(f("nothing")()(), None, op)
    elif k == "fill omitted":
        r = f("fill")(i, us=us)
        check((r(), r["res"], r["twice"], r.auto()), (7 * i, 5 * i, 2.0 * i, [5 * i, 2.0 * i]), op)
    elif k == "fill null":
        r = f("fill")(i, None, us)
        check((r(), r[3]), (7 * i, 2.0 * i), op)
    elif k == "fill given":
        x, y = ctypes.c_int(), ctypes.c_double()
        r = f("fill")(i, ctypes.byref(x), us, ctypes.pointer(y))
        check((r(), x.value, y.value), (7 * i, 5 * i, 2.0 * i), op)
    elif k in ("struct omitted", "struct given"):
        p = L("structs", "pair")(a=i, b=us)
        q = L("structs", "pair")()
        r = f("struct")(p, us=us) if k == "struct omitted" else f("struct")(p, ctypes.byref(q), us)
        q = r[1] if k == "struct omitted" else q
        check((r(), q.a, q.b), (i - us, us, i), op)
    elif k == "text":
        check(f("text")(b"%d:%d" % (i, us), us)(), b"%d" % us, op)
    elif k in ("callback", "nested", "nested deep", "bad callback"):
        fn = f("call")
        def back(level):
            def cb(x):
                if k == "bad callback":
                    raise ValueError
                if k == "callback":
                    return x * 2
                if k == "nested" or level == 0:
                    return f("value")(x, us)() + f("fill")(x, us=0)["res"]
                return fn(fn.arg_c_type(0)(back(level - 1)), x, 0)()
            return cb
        got = fn(fn.arg_c_type(0)(back(2)), i, us)()
        if k == "callback":
            check(got, 2 * i + 1, op)
        elif k != "bad callback":
            check(got, 8 * i + 1 + (2 if k == "nested deep" else 0), op)
    else:
        try:
            if k == "bad type":
                f("value")("x", us)
            elif k == "bad name":
                f("value")(i, us, nope=1)
            else:
                f("fill")(us=us)
        except Exception:
            return
        raise Violation("no error for %r" % (op,))


# --- calls longer than any reasonable wait for the lock ------------------------------------
def run_long(case):
    path, so = sut.write(HEADER), copy()
    dll = ctypes.CDLL(so)
    L = CLibrary(dll, [path], prefix="pre_", lock_calls=True)
    errors, n = [], []
    try:
        if case["callback"]:
            cb = L("functions", "pre_call").arg_c_type(0)(lambda i: (time.sleep(case["ms"] / 1000), i)[1])
            long_call = lambda: n.append(L.call(cb, 6, 0)() == 7)         # noqa
        else:
            flag = ctypes.c_int(0)
            long_call = lambda: n.append(L.wait(ctypes.byref(flag), case["ms"])() == 0)       # noqa
        others = [lambda i=i: n.append(L.value(i, 10)() == 3 * i) for i in range(case["others"])]
        go(errors, [long_call, *others], "the calls behind a long call block")
        if n != [True] * (1 + case["others"]):
            raise Violation("results %r" % n)
        if dll.count_overlaps():
            raise Violation("a call of %d ms was overlapped by others, in a library with locked calls" % case["ms"])
    finally:
        for f in (path, so):
            os.unlink(f)
    return ["callback" if case["callback"] else "plain"]


long_cases = st.fixed_dictionaries({"ms": st.sampled_from([1200, 2300, 5600]), "callback": st.booleans(), "others": st.integers(1, 4)})
PARTS = [Part("threads", cases(), run, 600, rule="all: at least two threads call the library"),
         Part("long calls", long_cases, run_long, 24, rule="all")]
