#!/usr/bin/env python3
"""table.py: runs the check of its property on each bug of seeded/ and more_planted/ and rewrites the table at the end of DESIGN.md."""
import glob, json, os, re, shutil, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    w = "/tmp/t-" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"])
    out = subprocess.run(["python3", VERIF + "/run.py", m["property"]], capture_output=True, text=True,
                         env=dict(os.environ, JV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")).stdout if r.returncode == 0 else "patch does not apply"
    shutil.rmtree(w, ignore_errors=True)
    f = re.search(r"^  \[([^/\]]+)/([^#\]]+)#", out, re.M)
    return i, m, "%s, %s (%s)" % (m["property"], f.group(2), f.group(1)) if f else "MISSED"


ids = sorted((os.path.dirname(f) for f in glob.glob(VERIF + "/seeded/*/meta.json") + glob.glob(VERIF + "/more_planted/*/meta.json")),
             key=os.path.basename)
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    rows = list(ex.map(one, ids))
esc = lambda s: s.replace("|", "/").replace("\n", " ")
t = "| planted change | needs | caught by: check, family (mechanism) |\n|---|---|---|\n"
t += "".join("| %s | %s | %s |\n" % (i, esc(m["needs"]), c) for i, m, c in rows)
p = VERIF + "/DESIGN.md"
s = open(p).read()
a = s.index("<!-- planted -->")
open(p, "w").write(s[:a] + "<!-- planted -->\n" + t)
print("%d planted, %d missed" % (len(rows), sum(c == "MISSED" for _, _, c in rows)), [i for i, _, c in rows if c == "MISSED"])
