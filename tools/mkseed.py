"""Helper to plant a bug: mk(id, property, needs, breaks, edits, pkg, test) makes the
change in a scratch copy of /repo, confirms that it builds, passes the stable tests and
that the demonstration passes without and fails with it, and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
DEMO = '''#!/bin/bash
# Runs the demonstration test (demo_test.go.txt, beside this file) in the package it exercises.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$tmp/zz_demo_test.go\\"}}" >"$tmp/overlay.json"
TMPDIR="$tmp" go test -count=1 -timeout 120s -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo' "./%(pkg)s"
'''
def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def passed(cwd):
    out = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd).stdout
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "::" + e["Test"])
    return ok
def mk(id, prop, needs, breaks, edits, pkg, test, demo=None, extra=None):
    d = tempfile.mkdtemp(prefix="seed-")
    w = d + "/repo"
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), w], check=True)
        seed = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + id
        shutil.rmtree(seed, ignore_errors=True)
        os.makedirs(seed)
        if test: open(seed + "/demo_test.go.txt", "w").write(test)
        for n, t in (extra or {}).items(): open(seed + "/" + n, "w").write(t)
        open(seed + "/demo.sh", "w").write(demo or DEMO % {"pkg": pkg})
        os.chmod(seed + "/demo.sh", 0o755)
        r = run([seed + "/demo.sh"], w)
        if r.returncode: print(id, "DEMO FAILS UNPATCHED\n" + r.stdout[-3000:]); return False
        before = passed(w)
        for path, old, new in edits:
            s = open(w + "/" + path).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(w + "/" + path, "w").write(s.replace(old, new))
        r = run(["go", "build", "./..."], w)
        if r.returncode: print(id, "DOES NOT BUILD\n" + r.stdout); return False
        if run(["gofmt", "-l", "."], w).stdout.strip(): print(id, "warning: gofmt")
        lost = before - passed(w)
        if lost: print(id, "BREAKS TESTS", sorted(lost)[:5]); return False
        r = run([seed + "/demo.sh"], w)
        if r.returncode == 0: print(id, "DEMO PASSES WITH THE PATCH"); return False
        open(seed + "/patch.diff", "w").write(run(["git", "diff"], w).stdout)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(seed + "/meta.json", "w"), indent=1)
        print(id, "ok:", [l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l][:2])
        return True
    finally:
        shutil.rmtree(d)
