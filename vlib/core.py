"""Runner: shards a property's generated cases over processes, shrinks and
records failures, writes the evidence.

A check is a module checks/cXX.py with a list PARTS of Part objects.  A Part
has a Hypothesis strategy producing plain JSON data (the case) and a function
run(case) deciding it.  run returns False for a trivial case, or a label (str),
a list of labels or True for a non-trivial one; it raises when the case
violates the property.  Only HarnessError means that the harness is at fault.
"""
import argparse, collections, hashlib, importlib, json, logging, os, random, shutil, signal
import subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 100          # seconds of processor time for one case (they take < 1 s)
SHRINK_LIMIT = 45        # seconds of shrinking after the first failure


class Violation(Exception):
    """The case shows that the property does not hold."""


class HarnessError(Exception):
    """The harness (compiler, disk...) failed: no verdict."""


class Hang(BaseException):
    pass


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None, rule=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.rule = rule


def setup_paths():
    """Make the code under test and Hypothesis importable."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def load(prop):
    setup_paths()
    try:
        import pyclibrary
    except Exception:
        raise HarnessError("cannot import the code under test\n" + traceback.format_exc())
    if not os.path.abspath(pyclibrary.__file__).startswith(REPO + os.sep):
        raise HarnessError("wrong pyclibrary: " + pyclibrary.__file__)
    return importlib.import_module("checks." + prop.lower())


def dump(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_hash(part, case):
    return hashlib.sha1((part + dump(case)).encode()).hexdigest()[:16]


def execute(part, case):
    """Run a case; any exception but HarnessError becomes a Violation."""
    def on_alarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return part.run(case)
    except (HarnessError, Violation):
        raise
    except Hang:
        raise Violation("no answer after %d s of processor time" % CPU_LIMIT) from None
    except MemoryError:
        raise HarnessError("out of memory")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise Violation("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# --- worker ------------------------------------------------------------------
def worker(prop, shard, nshards, tier, seed, budget, out):
    mod = load(prop)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    t0 = time.monotonic()
    stats = {"evaluations": 0, "skipped": 0, "labels": collections.Counter(),
             "hashes": set(), "samples": [], "parts": collections.Counter()}
    cur_path = os.path.join(out, "current.%d" % shard)
    fail_path = os.path.join(out, "fail.%d" % shard)
    best = [None]

    def save():
        s = dict(stats, labels=dict(stats["labels"]), hashes=sorted(stats["hashes"]),
                 parts=dict(stats["parts"]))
        with open(os.path.join(out, "stats.%d" % shard), "w") as f:
            json.dump(s, f)

    for part in mod.PARTS:
        total = part.quick if tier == "quick" else part.thorough
        total = int(total * float(os.environ.get("VERIF_SCALE", "1")))      # tools/mutate.py
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        key = "%s/%s/%s/%d" % (seed, prop, part.name, shard)
        s = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
        failed = [False]
        seen = set()

        def one(case):
            if not failed[0] and time.monotonic() - t0 > budget:
                stats["skipped"] += 1
                return
            h = case_hash(part.name, case)
            if not failed[0]:
                if h in seen:        # Hypothesis may repeat small cases
                    return
                seen.add(h)
            with open(cur_path, "w") as f:
                f.write(dump([part.name, case]))
            try:
                res = execute(part, case)
            except HarnessError as e:
                save()
                with open(os.path.join(out, "error.%d" % shard), "w") as f:
                    f.write(str(e))
                os._exit(2)
            except Violation as e:
                failed[0] = True
                d = dump(case)
                if best[0] is None or len(d) <= best[0]:
                    best[0] = len(d)
                    tmp = fail_path + ".tmp"
                    with open(tmp, "w") as f:
                        json.dump({"property": prop, "part": part.name, "case": case,
                                   "message": str(e)[:4000]}, f)
                    os.replace(tmp, fail_path)
                raise
            if failed[0]:
                return
            stats["evaluations"] += 1
            stats["parts"][part.name] += 1
            if res:
                labels = [res] if isinstance(res, str) else res if isinstance(res, (list, set, tuple)) else []
                for lab in labels:
                    stats["labels"][lab] += 1
                stats["hashes"].add(h)
                if len(stats["samples"]) < 2 and len(dump(case)) < 3000 and stats["evaluations"] % 7 == 3:
                    stats["samples"].append({"part": part.name, "case": case})
        test = settings(max_examples=n, database=None, deadline=None,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink])(given(part.strategy)(one))
        test = hypothesis.seed(s)(test)
        random.seed(s)
        try:
            test()
        except HarnessError as e:
            save()
            with open(os.path.join(out, "error.%d" % shard), "w") as f:
                f.write(str(e))
            return 2
        except BaseException as e:
            if not failed[0]:
                save()
                with open(os.path.join(out, "error.%d" % shard), "w") as f:
                    f.write(traceback.format_exc())
                return 2
            save()
            return 1
    save()
    return 0


# --- parent ------------------------------------------------------------------
FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def child_env():
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    return env


def spawn(args, out, tag):
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "check.py")] + args,
                            stdout=open(os.path.join(out, "log." + tag), "w"),
                            stderr=subprocess.STDOUT, env=child_env(), cwd=VERIF,
                            stdin=subprocess.DEVNULL)


def replay_one(prop, rec):
    """Run a recorded case in this process. Returns None or the message."""
    mod = load(prop)
    parts = {p.name: p for p in mod.PARTS}
    part = parts[rec["part"]]
    try:
        execute(part, rec["case"])
    except Violation as e:
        return str(e)
    return None


def read_json(path, default=None):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=CXX case=FILE text' of the committed file."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                case, text = rest.split(" ", 1)
                res.append((case.split("=", 1)[1], text))
    return res


def save_replay(prop, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, case_hash(rec["part"], rec["case"])))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("--regress")
    if argv == ["--selftest"]:
        setup_paths()
        import hypothesis            # noqa: F401
        for tool in ("gcc", "clang"):
            if shutil.which(tool) is None:
                print("missing", tool, file=sys.stderr)
                return 2
        print("ready")
        return 0
    a = ap.parse_args(argv)
    prop = a.property
    budget = 150 if a.tier == "quick" else 2400
    if a.worker:
        shard, n, out = int(a.worker[0]), int(a.worker[1]), a.worker[2]
        try:
            return worker(prop, shard, n, a.tier, a.seed, budget, out)
        except HarnessError as e:
            with open(os.path.join(out, "error.%d" % shard), "w") as f:
                f.write(str(e))
            return 2
    if a.regress:      # child running the regression cases of the property
        out = a.regress
        recs = read_json(os.path.join(out, "regress.json"))
        res = []
        for i, rec in enumerate(recs):
            with open(os.path.join(out, "current.regress"), "w") as f:
                json.dump(i, f)
            res.append(replay_one(prop, rec))
            with open(os.path.join(out, "regress.out"), "w") as f:
                json.dump(res, f)
        return 0
    if a.replay:
        rec = read_json(a.replay)
        if rec is None:
            print("cannot read", a.replay, file=sys.stderr)
            return 2
        try:
            msg = replay_one(prop, rec)
        except HarnessError as e:
            print("harness error:", e, file=sys.stderr)
            return 2
        if msg is not None:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("the property held on this case")
        return 0
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.environ["TMPDIR"] = out      # everything the children create goes there
    try:
        return parent(prop, a, out, budget)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def parent(prop, a, out, budget):
    t0 = time.monotonic()
    # 1. regression cases and known findings, in one child
    recs = read_json(os.path.join(VERIF, "regress", prop + ".json"), [])
    known = known_findings(prop)
    nreg = len(recs)
    all_recs = recs + [read_json(os.path.join(VERIF, c)) for c, _ in known]
    nworkers = WORKERS
    procs = {}
    if all_recs:
        with open(os.path.join(out, "regress.json"), "w") as f:
            json.dump(all_recs, f)
        procs["regress"] = spawn([prop, "--regress", out], out, "regress")
    for i in range(nworkers):
        procs[str(i)] = spawn([prop, "--tier", a.tier, "--seed", str(a.seed), "--worker", str(i),
                               str(nworkers), out], out, str(i))
    hard = t0 + budget + 240
    first_fail = None
    codes = {}
    while len(codes) < len(procs):
        for k, p in procs.items():
            if k not in codes and p.poll() is not None:
                codes[k] = p.returncode
        now = time.monotonic()
        failing = [f for f in os.listdir(out) if f.startswith("fail.") and not f.endswith(".tmp")]
        if failing and first_fail is None:
            first_fail = now
        dead = [k for k, c in codes.items() if c < 0 and -c in FATAL]
        if dead and first_fail is None:
            first_fail = now - SHRINK_LIMIT + 5
        # a failure stops the other shards; its own shard goes on shrinking
        if first_fail is not None:
            for k, p in procs.items():
                if k in codes or k == "regress":
                    continue
                own = os.path.exists(os.path.join(out, "fail." + k))
                if now - first_fail > (SHRINK_LIMIT if own else 3):
                    p.kill(); p.wait(); codes[k] = 0 if not own else 1
        if now > hard:
            for k, p in procs.items():
                if k not in codes:
                    p.kill(); p.wait(); codes[k] = 99
        time.sleep(0.05)
    # 2. results
    violation = None
    errors = []
    if "regress" in procs:
        res = read_json(os.path.join(out, "regress.out"), [])
        if codes["regress"] != 0:
            i = read_json(os.path.join(out, "current.regress"), None)
            if codes["regress"] < 0 and -codes["regress"] in FATAL and i is not None and i < nreg:
                res = res + [None] * (i - len(res)) + ["the interpreter died of signal %d" % -codes["regress"]]
            else:
                errors.append("regression child: exit %s\n%s" % (codes["regress"], tail(out, "regress")))
        for i, msg in enumerate(res):
            if msg is None:
                continue
            if i >= nreg:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[i - nreg][1]))
            elif violation is None:
                violation = dict(recs[i], property=prop, message=msg)
    best = None
    for k in procs:
        if k == "regress":
            continue
        rec = read_json(os.path.join(out, "fail." + k))
        if rec is None and codes[k] < 0 and -codes[k] in FATAL:
            cur = read_json(os.path.join(out, "current." + k))
            if cur:
                rec = {"property": prop, "part": cur[0], "case": cur[1],
                       "message": "the interpreter died of signal %d" % -codes[k]}
        if rec is not None:
            if best is None or len(dump(rec["case"])) < len(dump(best["case"])):
                best = rec
        elif codes[k] != 0 and not (codes[k] == 0):
            err = ""
            p = os.path.join(out, "error." + k)
            if os.path.exists(p):
                err = open(p).read()
            errors.append("worker %s: exit %s\n%s\n%s" % (k, codes[k], err, tail(out, k)))
    violation = violation or best
    stats = [read_json(os.path.join(out, "stats.%d" % i), {}) for i in range(nworkers)]
    write_evidence(prop, a, stats, nreg, t0, violation)
    if violation is not None:
        path = save_replay(prop, violation)
        print(violation["message"][:3000])
        print("case:", dump(violation["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("\n".join(errors)[:6000], file=sys.stderr)
        print("harness error, no verdict", file=sys.stderr)
        return 2
    ev = sum(s.get("evaluations", 0) for s in stats)
    print("%s: held on %d cases (%d regression cases) in %.1f s" % (prop, ev, nreg, time.monotonic() - t0))
    return 0


def tail(out, k):
    try:
        return open(os.path.join(out, "log." + k)).read()[-2000:]
    except OSError:
        return ""


def write_evidence(prop, a, stats, nreg, t0, violation):
    hashes, labels, parts, samples = set(), collections.Counter(), collections.Counter(), []
    for s in stats:
        hashes.update(s.get("hashes", []))
        labels.update(s.get("labels", {}))
        parts.update(s.get("parts", {}))
        samples += s.get("samples", [])
    try:
        mod = load(prop)
        rule = " ".join((mod.__doc__ or "").split()) + " || " + "; ".join(
            "%s: %s" % (p.name, p.rule) for p in mod.PARTS)
    except Exception:
        rule = ""
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": sum(s.get("evaluations", 0) for s in stats),
                       "distinct_nontrivial": len(hashes), "rule": rule,
                       "samples": samples[:6], "cases_per_part": dict(parts),
                       "labels": dict(labels.most_common(60)), "regression_cases": nreg,
                       "skipped_over_budget": sum(s.get("skipped", 0) for s in stats)},
          "assumptions": ["gcc and the installed ctypes are the reference for C semantics"],
          "wall_s": round(time.monotonic() - t0, 2), "violations": 1 if violation else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
