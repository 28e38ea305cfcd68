#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: plants the bugs of DEFS.py one by one in scratch copies of
/repo, keeps under seeded/<id>/ those that apply, fail their demonstration and pass the
stable tests, and tells which checks notice them.

DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)]."""
import sys, os, json, subprocess, shutil, runpy, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TERM="dumb")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def original_lines(repo, f):
    out = subprocess.run(["git", "-C", repo, "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout
    return [l.startswith("^") for l in out.splitlines()]


def demo(d, cwd):
    try:
        return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=290)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "", "timeout")


def tests(w):
    out = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--randomly-dont-reorganize", "--randomly-seed=0",
                          "-rA", "jajapy/tests"], cwd=w, env=ENV, capture_output=True, text=True)
    ok = set(l.split()[1] for l in out.stdout.splitlines() if l.startswith("PASSED "))
    ok = {o.replace("/", ".").replace(".py::", ".") for o in ok}
    return [t for t in STABLE if t not in ok]


def check(prop, w, tier="quick", seed="1"):
    e = dict(os.environ, JV_REPO=w, VERIF_SEED=seed, VERIF_TIER=tier)
    v = os.path.join(w, "verif")
    out = subprocess.run(["python3", os.path.join(VERIF, "run.py"), prop], env=e, capture_output=True, text=True)
    return out.returncode, out.stdout


def one(b, skip_tests=False, others=()):
    i = b["id"]
    w = "/tmp/w-" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    d = os.path.join(VERIF, "seeded", i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, "edit matches %d times: %r" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        # removed lines must be original
        cur = None
        n = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = original_lines("/repo", l[6:])
            elif l.startswith("@@"):
                n = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if not cur[n - 1]:
                    return i, "touches a line of mine: " + l
                n += 1
            elif l.startswith(" "):
                n += 1
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 TERM=dumb PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0, r1 = demo(d, "/repo"), demo(d, w)
        if r0.returncode != 0:
            return i, "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-700:]
        if r1.returncode == 0:
            return i, "demo passes with the change: " + r1.stdout[-300:]
        res = "demo ok (%s)" % ((r1.stdout + r1.stderr).strip().splitlines() or ["?"])[-1][:100]
        if not skip_tests:
            miss = tests(w)
            if miss:
                return i, res + "; STABLE TESTS BROKEN " + str(miss)
        for p in [b["property"]] + list(others):
            rc, out = check(p, w)
            res += "; %s rc=%d %s" % (p, rc, [l for l in out.splitlines() if l.startswith("  [")][:1])[:330]
        return i, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    skip = "--no-tests" in sys.argv
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for i, r in ex.map(lambda b: one(b, skip), bugs):
            ok = r.startswith("demo ok") and "BROKEN" not in r
            if not ok:
                shutil.rmtree(os.path.join(VERIF, "seeded", i), ignore_errors=True)
            print(("%-28s %s" % (i, r))[:900], flush=True)
