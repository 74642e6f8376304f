#!/usr/bin/env python3
"""Tries planted changes: tools/tryseed.py ID... (or all).  Works in a scratch copy of /repo: applies
each change there, builds, runs the tests, its demo and the property's checks (VERIF_REPO), and undoes
it.  Prints one line per change.  --copy DIR keeps the copy in DIR for the next call."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


args = sys.argv[1:]
COPY = None
if "--copy" in args:
    k = args.index("--copy")
    COPY = args[k + 1]
    del args[k:k + 2]
allprops = "--all-checks" in args
args = [a for a in args if not a.startswith("--")]
TMP = COPY or tempfile.mkdtemp(prefix="tryseed.")
REPO = TMP + "/repo"
os.makedirs(TMP, exist_ok=True)
if os.path.isdir(REPO):
    shutil.rmtree(REPO)
sh("git clone -q /repo %s" % REPO)
for n in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", TMP + "/build.sh").replace("/repo", REPO)
    open(TMP + "/" + n, "w").write(t)
ENV = dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=TMP + "/vbuild")


def tests():
    sh("bash %s/test.sh %s/out.json" % (TMP, TMP))
    r = json.load(open(TMP + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = None
    for k, v in base.items():
        if isinstance(v, list) and len(v) > 100:
            want = set(v)
    return sorted(want - set(r["passed"]))


ids = args or sorted(os.listdir(S))
for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    out = []
    try:
        r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        b = sh("bash %s/build.sh" % TMP)
        out.append("build %s" % ("ok" if b.returncode == 0 else "FAILED " + b.stdout[-800:]))
        f = tests()
        out.append("tests %s" % ("ok" if not f else "FAIL %s" % f))
        dm = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
        out.append("demo(bug) %d" % dm.returncode)
        props = [meta["property"]] + meta.get("also", [])
        for p in props:
            c = sh("python3 %s/vsim.py check %s" % (HERE, p), cwd=HERE, env=ENV)
            v = [x for x in c.stdout.splitlines() if x.startswith(("VIOLATION", "violated", "ERROR"))]
            out.append("%s exit %d %s" % (p, c.returncode, v[0][:150] if v else c.stdout[-200:].replace("\n", " | ")))
    finally:
        sh("git -C %s checkout -- ." % REPO)
    sh("bash %s/build.sh" % TMP)
    dm = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
    out.append("demo(clean) %d%s" % (dm.returncode, "" if dm.returncode == 0 else " " + dm.stdout[-500:]))
    print(i, "; ".join(out), flush=True)
if not COPY:
    shutil.rmtree(TMP)
