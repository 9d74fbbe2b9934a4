#!/usr/bin/env python3
"""Creates and verifies planted bugs.  plant.py SPEC.py...: each SPEC defines BUGS, a list
of dicts id, property, needs, breaks, edits [(file, old, new)], demo (Python source).
plant.py --run ID...: only runs the checks again on existing ones."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys, tempfile, shutil, logging\nsys.path.insert(0, os.getcwd())\nlogging.disable(logging.CRITICAL)\n"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"); e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def check(prop, d, seed="1"):
    r = sh(["./check.py", prop], V, {"VERIF_REPO": d, "VERIF_SEED": seed})
    return r.returncode, [x for x in r.stdout.splitlines() if x.strip()]


def plant(b):
    bid = b["id"]
    d = copy()
    try:
        orig_ok = False
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (bid, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        for f, _, _ in b["edits"]:
            base = set(sh(["git", "show", BASE + ":" + f], d).stdout.splitlines())
            orig_ok = orig_ok or any(ln[1:] in base for ln in diff.splitlines() if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip())
        if not orig_ok:
            code, out = check(b["property"], d)  # cannot count, but tells something
            return "%s: changes no line of the original repository; %s %s" % (bid, b["property"], "CAUGHT" if code == 1 else "MISSED (exit %d)" % code)
        sd = os.path.join(V, "seeded", bid)
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.py", "w").write(HEAD + b["demo"])
        open(sd + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(sd + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        res = verify(bid, d)
        if res:
            shutil.rmtree(sd)
            return "%s: %s" % (bid, res)
        code, out = check(b["property"], d)
        return "%s: kept; %s %s" % (bid, b["property"], "CAUGHT" if code == 1 else "MISSED (exit %d)" % code) + ("" if code == 1 else "\n   " + "\n   ".join(out[-3:]))
    finally:
        shutil.rmtree(d)


def verify(bid, d):
    """d: copy with the change applied."""
    demo = os.path.join(V, "seeded", bid, "demo.sh")
    r = sh(["bash", demo], "/repo", timeout=300)
    if r.returncode != 0:
        return "demo fails on the unchanged tree\n" + r.stdout[-800:] + r.stderr[-1500:]
    r = sh(["bash", demo], d, timeout=300)
    if r.returncode == 0:
        return "demo passes with the change"
    msg = (r.stdout + r.stderr)[-300:].replace("\n", " | ")
    r = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300"], d, {"PYTHONPATH": d, "TMPDIR": tempfile.gettempdir()})
    base = json.load(open("/opt/vp/BASELINE.json"))
    if r.returncode != 0:
        return "tests: " + "\n".join(r.stdout.splitlines()[-3:])
    print("   [%s demo says] %s" % (bid, msg))
    return None


def rerun(bid):
    d = copy()
    try:
        r = sh(["git", "apply", V + "/seeded/%s/patch.diff" % bid], d)
        if r.returncode:
            return bid + ": does not apply " + r.stderr
        prop = json.load(open(V + "/seeded/%s/meta.json" % bid))["property"]
        res = verify(bid, d) if "--verify" in sys.argv else None
        code, out = check(prop, d)
        return "%s %s: %s %s" % (bid, prop, "CAUGHT" if code == 1 else "MISSED (exit %d)" % code, res or "")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            print(rerun(i), flush=True)
    else:
        for f in sys.argv[1:]:
            ns = {}
            exec(open(f).read(), ns)
            for b in ns["BUGS"]:
                print(plant(b), flush=True)
