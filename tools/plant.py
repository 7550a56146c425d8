"""Development tool: planted bugs.  plant.py make BUGS.py   write seeded/<id>/ from a list of edits
                                   plant.py test|check|stable ID...      in a scratch copy: demo with and without, own check, stable tests (test: all; check: no tests; stable: no check)
No registered check uses this file or seeded/."""
import json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv-pypy/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD:$PWD/src/python" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
T=$(mktemp -d) || exit 2
cd "$T" || exit 2
timeout 280 "$PY" -W ignore "$D/demo.py"
rc=$?
cd /
rm -rf "$T"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(path, only=()):
    bugs = runpy.run_path(path)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = []
        t = "/tmp/w/edit"
        shutil.rmtree(t, ignore_errors=True)
        files = sorted({e[0] for e in b["edits"]})
        for f in files:
            for side in "ab":
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), p)
        for f, old, new in b["edits"]:
            p = os.path.join(t, "b", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for f in files:
            r = sh("cd %s && diff -u a/%s b/%s" % (t, f, f))
            lines = r.stdout.splitlines(True)
            lines[0] = "--- a/%s\n" % f
            lines[1] = "+++ b/%s\n" % f
            diff += ["diff --git a/%s b/%s\n" % (f, f)] + lines
        open(d + "/patch.diff", "w").write("".join(diff))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(t, ignore_errors=True)


def test(i, tests=True, check=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/w/m_" + i
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    out = dict(id=i, prop=prop)
    clean = sh("bash %s/demo.sh" % d, cwd="/repo")
    out["demo_clean"] = clean.returncode
    r = sh("git apply %s/patch.diff" % d, cwd=w)
    out["applies"] = r.returncode == 0
    bad = sh("bash %s/demo.sh" % d, cwd=w)
    out["demo_bug"] = bad.returncode
    out["demo_text"] = bad.stdout.strip().splitlines()[-1:] if bad.returncode else bad.stdout[-300:]
    if clean.returncode:
        out["demo_clean_text"] = clean.stdout[-800:]
    if tests:
        s = open("/opt/vp/test.sh").read().replace("/repo", w).replace('PYTHONPATH="$root"', 'PYTHONPATH="$root:%s/src/python"' % w).replace("/opt/vp/run.XXXXXX", "/tmp/w/run.XXXXXX")
        open("/tmp/w/test_%s.sh" % i, "w").write(s)
        sh("bash /tmp/w/test_%s.sh /tmp/w/t_%s.json" % (i, i))
        res = json.load(open("/tmp/w/t_%s.json" % i))
        p = set(res["passed"])
        out["missing"] = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in p][:5]
        os.remove("/tmp/w/test_%s.sh" % i)
        os.remove("/tmp/w/t_%s.json" % i)
    if not check:
        shutil.rmtree(w, ignore_errors=True)
        out["caught"] = "-"
        return out
    c = sh("./check.sh %s" % prop, cwd=V, env=dict(os.environ, DST_REPO=w))
    out["check"] = c.returncode
    viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    out["caught"] = bool(viol) and c.returncode == 1
    out["check_text"] = "\n".join(c.stdout.splitlines()[-3:])[:700]
    shutil.rmtree(w, ignore_errors=True)
    print(json.dumps(out, indent=1), flush=True)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            o = test(i, sys.argv[1] != "check", sys.argv[1] != "stable")
            print("SUMMARY %s %s demo %s/%s tests %s caught %s" % (i, o["prop"], o["demo_clean"], o["demo_bug"], o.get("missing"), o["caught"]), flush=True)
