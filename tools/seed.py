#!/usr/bin/env python3
"""Create and try out planted bugs (never used by a check).

  seed.py make SPEC.py      SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)],
                            needs, breaks, pkg, test)]; writes /verif/seeded/<id>/
  seed.py try ID... | all   apply to /repo, build, run the stable tests, the demonstration and the
                            property's check, undo; prints one line per bug
"""
import json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")

DEMO = '''#!/bin/bash
# Runs the in-package test beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "/repo/%(pkg)s/zz_demo_test.go" "$here/zz_demo_test.go.txt" > "$tmp/overlay.json"
go test -vet=off -count=1 %(flags)s-timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        clean()
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = "/repo/" + f
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            files = " ".join("/repo/" + f for f, _, _ in s["edits"])
            r = sh("gofmt -l " + files)
            if r.stdout.strip():
                print("gofmt", r.stdout)
            diff = sh("git -C /repo diff").stdout
        finally:
            sh("git -C /repo checkout -- .")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=s["pkg"], flags=s.get("flags", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "zz_demo_test.go.txt"), "w").write(s["test"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        print("made", s["id"])

def tries(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passed", []) or [])
    for i in ids:
        clean()
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        before = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        out = [i]
        out.append("demo-clean=%d" % before.returncode)
        if before.returncode:
            print(before.stdout[-1500:])
        try:
            a = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
            if a.returncode:
                print(i, "does not apply", a.stdout)
                continue
            b = sh("bash /opt/vp/build.sh")
            out.append("build=%d" % b.returncode)
            o = tempfile.mktemp(suffix=".json")
            sh("bash /opt/vp/test.sh " + o)
            r = json.load(open(o))
            os.remove(o)
            out.append("failed=%s" % [t for t in r.get("failed", []) if "Demo" not in t][:3])
            m = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
            out.append("demo-bug=%d" % m.returncode)
            if m.returncode == 0:
                print(m.stdout[-800:])
            c = sh(["bash", os.path.join(ROOT, "run.sh"), prop, "quick"], cwd=ROOT)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("check=%d %s" % (c.returncode, v[:1]))
            f = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")]
            out.append("\n      " + "\n      ".join(x[:230] for x in f[:2]))
        finally:
            sh("git -C /repo checkout -- .")
        print(" ".join(out), flush=True)
    sh("bash /opt/vp/build.sh")

if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    ids = sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(SEEDED))
    tries(ids)
