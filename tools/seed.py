"""Planted bugs: make, confirm and try them. Not used by any check.

  seed.py make FILE.py     create seeded/<id>/ for the SEEDS in FILE.py and confirm each
  seed.py confirm ID...    confirm again
  seed.py try ID... [-- PROP...]  apply to /repo, run the property's check, undo
"""
import json, os, re, shutil, subprocess, sys

V = "/verif"
S = os.environ.get("SEEDDIR") or os.path.join(V, "seeded")
SR = "/tmp/w/sr"

DEMO = r'''#!/bin/bash
# Run in the repository: 0 if the behaviour is right.
. /opt/vp/env.sh 2>/dev/null
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
go build -buildvcs=false -o "$d/oh" . || exit 2
export HOME=$d OH_RC=$d/none
mkdir "$d/cwd" && cd "$d/cwd" || exit 2
%s
'''
PLAIN = '''timeout -k 5 %d "$d/oh" "$here/s.oh" < /dev/null > "$d/got" 2> "$d/err"
rc=$?
%s
diff "$here/want" "$d/got" && [ $rc -eq %d ]'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    shutil.rmtree(SR, ignore_errors=True)
    r = sh(["git", "clone", "-q", "/repo", SR])
    assert r.returncode == 0, r.stdout


def script(name):
    t = open("/opt/vp/%s" % name).read().replace("/repo", SR).replace("/opt/vp/env.sh", "/tmp/w/sr-env.sh")
    p = "/tmp/w/sr-" + name
    open(p, "w").write(t)
    e = open("/opt/vp/env.sh").read().replace("/opt/vp/work", "/tmp/w/sr-work")
    open("/tmp/w/sr-env.sh", "w").write(e)
    return p


def demo(i):
    r = sh(["timeout", "300", "bash", os.path.join(S, i, "demo.sh")], cwd=SR)
    return r.returncode, r.stdout


def confirm(i, times=2):
    d = os.path.join(S, i)
    fresh()
    for _ in range(times):
        rc, out = demo(i)
        if rc:
            return "demo fails on the unchanged tree: %s" % out[-1500:]
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=SR)
    if r.returncode:
        return "does not apply: " + r.stdout
    r = sh(["bash", script("build.sh")])
    if r.returncode:
        return "does not build: " + r.stdout[-1500:]
    r = sh(["bash", script("test.sh"), "/tmp/w/sr-out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    if "40 passed, 0 failed" not in r.stdout:
        return "tests: " + r.stdout[-600:]
    for _ in range(times):
        rc, out = demo(i)
        if rc == 0:
            return "demo passes with the change"
    return None


def try_(i, props):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    r = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    assert r.returncode == 0, r.stdout
    res = {}
    try:
        for p in props or [meta["property"]]:
            r = sh([os.path.join(V, "run.sh"), p], cwd=V)
            last = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[p] = (r.returncode, last[:1], r.stdout[-700:])
            print("%-28s %s rc=%d %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 and last else "MISSED"))
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            sys.stdout.flush()
    finally:
        sh("git -C /repo checkout -- .")
    return res


def make(s):
    d = os.path.join(S, s["id"])
    fresh()
    for f, old, new in s["edits"]:
        p = os.path.join(SR, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%s: %d occurrences of %r" % (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    r = sh("gofmt -l $(git diff --name-only | grep go$) 2>/dev/null", cwd=SR)
    diff = subprocess.run(["git", "diff"], cwd=SR, stdout=subprocess.PIPE).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    body = s.get("demo")
    if body is None:
        open(os.path.join(d, "s.oh"), "w").write(s["script"].lstrip("\n"))
        open(os.path.join(d, "want"), "w").write(s["want"].lstrip("\n"))
        body = PLAIN % (s.get("timeout", 60), s.get("after", ""), s.get("rc", 0))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % body)
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return confirm(s["id"])


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for s in ns["SEEDS"]:
            if len(sys.argv) > 3 and s["id"] not in sys.argv[3:]:
                continue
            why = make(s)
            print(s["id"], why or "confirmed")
            if why:
                shutil.rmtree(os.path.join(S, s["id"]), ignore_errors=True)
            sys.stdout.flush()
    elif sys.argv[1] == "confirm":
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            print(i, confirm(i) or "confirmed")
            sys.stdout.flush()
    else:
        a = sys.argv[2:]
        props = []
        if "--" in a:
            props = a[a.index("--") + 1:]
            a = a[:a.index("--")]
        for i in a or sorted(os.listdir(S)):
            try_(i, props)
