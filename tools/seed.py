#!/usr/bin/env python3
"""Makes and confirms a planted bug in a scratch copy of /repo.
seed(id, prop, needs, breaks, pkg, [(file, old, new)...], demo_go) -> /verif/seeded/<id>/"""
import json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
export GOPROXY=off TMPDIR="$t"
go test -count=1 -vet=off -timeout 120s -overlay "$t/overlay.json" -run TestDemo ./%(pkg)s
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def seed(id, prop, needs, breaks, pkg, subs, demo):
    d = os.path.join(ROOT, "seeded", id)
    w = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", c, symlinks=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo_test.go"), "w").write(demo)
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(DEMO % dict(pkg=pkg))
        os.chmod(p, 0o755)
        r = sh("bash " + p, c)
        if r.returncode != 0:
            print(id, "REJECTED: demo fails on the clean tree\n", (r.stdout + r.stderr)[-1500:])
            return False
        for f, a, b in subs:
            s = open(os.path.join(c, f)).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(os.path.join(c, f), "w").write(s.replace(a, b))
        r = sh("gofmt -l " + " ".join(sorted({f for f, _, _ in subs})), c)
        if r.stdout.strip():
            print(id, "gofmt", r.stdout, r.stderr)
        r = sh("go build ./... && go test -vet=off -count=1 ./...", c)
        bad = [l for l in r.stdout.splitlines() if re.match(r"--- FAIL", l)]
        if bad or "build failed" in r.stdout + r.stderr:
            print(id, "REJECTED: build/tests", bad, (r.stdout + r.stderr)[-1500:])
            return False
        r = sh("bash " + p, c)
        if r.returncode == 0:
            print(id, "REJECTED: demo passes with the bug")
            return False
        if "build failed" in r.stdout:
            print(id, "REJECTED demo does not build", r.stdout[-800:])
            return False
        diff = sh("git diff", c).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        assert sh("git apply --check " + os.path.join(d, "patch.diff"), "/repo").returncode == 0
        print(id, "ok:", [l for l in r.stdout.splitlines() if l.strip()][:3])
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
