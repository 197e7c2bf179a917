#!/usr/bin/env python3
"""mkseed.py: helper to write a planted bug: mkseed(id, prop, pkg, edits, test, needs, breaks)."""
import os, subprocess, json, shutil, tempfile
def mkseed(id, prop, pkg, edits, test, needs, breaks, race=False):
    sc = tempfile.mkdtemp(prefix="/tmp/mk.")
    subprocess.check_call(["cp", "-a", "/repo", sc + "/repo"])
    r = sc + "/repo/"
    for f, old, new in edits:
        s = open(r + f).read()
        assert s.count(old) >= 1, (f, old)
        if isinstance(new, tuple):
            n, new = new
            parts = s.split(old)
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        else:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        open(r + f, "w").write(s)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(test)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository: the demonstration is laid over a package of it as an extra test file
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME="${HOME:-/root}"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
ulimit -v 16000000
timeout 120 go test%s -vet=off -count=1 -timeout 60s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
''' % (pkg, " -race" if race else "", pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(sc)
