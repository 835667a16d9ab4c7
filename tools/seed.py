#!/usr/bin/env python3
"""seed.py FILE...: makes or refreshes planted bugs.

Each FILE is Python with a list SPECS of dictionaries (or one set of globals): ID, PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)] and DEMO (a Go main program exiting nonzero when the
behaviour is wrong, or EXTRA files). The bug is applied to /repo, built, tested,
demonstrated, checked, and taken back; then the bug is written to
/verif/seeded/ID."""
import json, os, subprocess, sys, runpy

SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# Builds the program beside this script against the tree in the current
# directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 0
cd "$tmp" && timeout 120 "$tmp/demo"
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def passing():
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    o = json.load(open("/tmp/seed-out.json"))
    def ok(x):
        for k in ("passed", "pass", "tests", "results"):
            if k in x:
                v = x[k]
                return set(v) if isinstance(v, list) else {t for t, s in v.items() if s in ("pass", "passed", True)}
        return {t for t, s in x.items() if s in ("pass", "passed", True)}
    return b - ok(o)

def one(spec):
    id = spec["ID"]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(spec.get("DEMO_SH", DEMO_SH))
    if "DEMO" in spec:
        open(os.path.join(d, "main.go"), "w").write(spec["DEMO"].lstrip())
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    clean = sh("bash %s/demo.sh" % d, cwd="/repo")
    try:
        for f, old, new in spec["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once:", f, s.count(old)); return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(id, "DOES NOT BUILD", b.stderr[:800]); return
        miss = passing()
        demo = sh("bash %s/demo.sh" % d, cwd="/repo")
        chk = sh("bash check.sh %s" % spec["PROPERTY"], cwd="/verif")
        print(id, "tests:", "pass" if not miss else "FAIL %s" % sorted(miss)[:3],
              "demo clean/bug:", clean.returncode, demo.returncode,
              "CAUGHT" if chk.returncode == 1 else "missed(%d)" % chk.returncode)
        if miss or clean.returncode or not demo.returncode:
            sh("rm -rf %s" % d)
        if clean.returncode: print("  clean demo:", clean.stdout[-400:], clean.stderr[-400:])
        if not demo.returncode: print("  demo:", demo.stdout[-400:], demo.stderr[-400:])
        if chk.returncode == 1: print("  ", "\n   ".join(l[:200] for l in chk.stdout.splitlines()[:5]))
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash check.sh %s" % spec["PROPERTY"], cwd="/verif")

only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for a in sys.argv[1:]:
    if not a.endswith(".py"):
        continue
    m = runpy.run_path(a)
    for sp in m.get("SPECS") or [m]:
        if not only or sp["ID"] in only:
            one(sp)
