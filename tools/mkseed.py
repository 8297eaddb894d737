#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ source)
and optionally FLAGS. Writes seeded/ID after confirming in a scratch copy of /repo that the change builds, passes the
stable tests, and that the demo passes without it and fails with it."""
import json
import os
import re
import shutil
import subprocess
import sys

SH = """#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property's behaviour is intact.
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -g -w %s -I_build/include -Iinclude -I"$H" "$H/demo.cpp" %s -pthread -o "$D/demo" || exit 2
cd "$D" && timeout 120 ./demo
"""
W = "/tmp/seedcopy"


def run(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    # The build scripts name /repo, so the copy is bind-free: build straight from the copy's sources instead.
    return None


for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns["ID"]
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    assert run("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty /repo"
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(run("git", "-C", "/repo", "diff").stdout)
        open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH % (ns.get("FLAGS", ""), ns.get("LIBS", "_build/libEdyn.a")))
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = run("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = json.load(open("/tmp/seed_out.json"))["passed"]
        miss = [t for t in stable if t not in got]
        if miss:
            print(sid, "TESTS FAIL", miss[:5], r.stdout[-1500:])
            continue
        w = run("bash", d + "/demo.sh", cwd="/repo")
    finally:
        run("git", "-C", "/repo", "checkout", "-q", "--", ".")
        b = run("bash", "/opt/vp/build.sh")
    o = run("bash", d + "/demo.sh", cwd="/repo")
    ok = w.returncode not in (0, 2, 124) and o.returncode == 0
    print(sid, "OK" if ok else "BAD", "with=%d without=%d" % (w.returncode, o.returncode), "" if ok else w.stdout[-800:] + o.stdout[-800:])
