#!/usr/bin/env python3
"""Plants a bug: builds its folder in seeded/ from a specification, confirms it in a scratch copy of /repo
(compiles, stable tests pass, demonstration passes without and fails with it), and runs checks on it.

  seed.py make SPEC.py        SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source)
  seed.py confirm ID
  seed.py check ID [PROP...]  runs the quick check(s) on the scratch copy with the bug applied
"""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SEED_SCRATCH", "/tmp/seedrepo")
SEEDED = os.path.join(HERE, "seeded")

DEMO_SH = """#!/bin/bash
# run in the repository's root: 0 if the property holds for the demonstrated history
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 %s -DSIMU_OS_LINUX -Iinclude %s "$here/demo.cpp" %s -o "$tmp/demo"
"$tmp/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def sync():
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.isdir(SCRATCH + "/.git"):
        sh("cp -a /repo/. %s/" % SCRATCH)
    # same commit as /repo, incremental
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git status --short" % SCRATCH)
    if r.returncode or r.stdout.strip():
        sys.exit("sync: " + r.stdout + r.stderr)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sync()
    for f, old, new in ns["EDITS"]:
        p = os.path.join(SCRATCH, f)
        t = open(p, newline="").read()
        if t.count(old) != 1:
            sys.exit("%s: text occurs %d times" % (f, t.count(old)))
        open(p, "w", newline="").write(t.replace(old, new))
    d = os.path.join(SEEDED, ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(sh("cd %s && git diff" % SCRATCH).stdout)
    open(d + "/demo.cpp", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH % (ns.get("FLAGS", "-O1"), ns.get("INC", ""), ns.get("SRC", "src/Simu/math/*.cpp src/Simu/physics/*.cpp")))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in ns.get("FILES", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    sh("cd %s && git checkout -q -- ." % SCRATCH)
    return ns["ID"]


def confirm(i):
    sync()
    d = os.path.join(SEEDED, i)
    r = sh("bash %s/demo.sh" % d, cwd=SCRATCH, timeout=300)
    if r.returncode:
        print("demo fails on the unchanged tree:", r.returncode, r.stdout[-1500:], r.stderr[-1500:])
        return False
    r = sh("git apply %s/patch.diff" % d, cwd=SCRATCH)
    if r.returncode:
        print("does not apply", r.stderr)
        return False
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd=SCRATCH, timeout=300)
    if not r.returncode:
        print("demo passes with the bug")
        ok = False
    elif "error:" in r.stderr:
        print("demo does not compile", r.stderr[-800:])
        ok = False
    else:
        print("demo:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    if ok:
        tmp = SCRATCH + ".opt"
        sh("rm -rf -- %s; cp -a /opt/vp %s; sed -i 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#g' %s/*.sh" % (tmp, tmp, SCRATCH, tmp, tmp))
        r = sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
        try:
            o = json.load(open(tmp + "/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("passed") or base.get("stable") or base
            missing = [t for t in stable if t not in o["passed"]]
            print("tests: passed %d failed %s missing %s" % (len(o["passed"]), o["failed"], missing[:5]))
            ok = not missing and not o["failed"] or (ok and not missing)
        except Exception as e:
            print("tests:", e, r.stdout[-2000:], r.stderr[-1000:])
            ok = False
    sh("git checkout -q -- .", cwd=SCRATCH)
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED")
    return ok


def check(i, props):
    sync()
    d = os.path.join(SEEDED, i)
    m = json.load(open(d + "/meta.json"))
    r = sh("git apply %s/patch.diff" % d, cwd=SCRATCH)
    if r.returncode:
        sys.exit(r.stderr)
    env = dict(os.environ, SIM_REPO=SCRATCH, SIM_BUILD=SCRATCH + ".simbuild")
    for p in props or [m["property"]]:
        r = sh("python3 %s/check.py %s --tier quick" % (HERE, p), env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (v or [""])[0], flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-1500:])
    sh("git checkout -q -- .", cwd=SCRATCH)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "make":
        for s in sys.argv[2:]:
            i = make(s)
            confirm(i)
    elif c == "confirm":
        for i in sys.argv[2:]:
            confirm(i)
    elif c == "check":
        check(sys.argv[2], sys.argv[3:])
