#!/usr/bin/env python3
"""mkseed.py <file.py>...: makes /verif/seeded/<id>/ out of seed definitions and confirms each one.

A definition file sets: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), optional cxx (flags).
The change is applied in a scratch copy of /repo's committed tree; it must compile, pass the existing tests, and the
demonstration must fail with it and pass without it. Keeps only what is confirmed.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
TEST = os.environ.get("SEED_TEST", "/opt/vp/test.sh")
DEMO = '''#!/bin/bash
# Exit 0: the behaviour holds. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 0
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++17 -w -O0 -DXTYPES_EXCEPTIONS %s -I "$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 3
cd "$out" && ASAN_OPTIONS=detect_leaks=0:abort_on_error=0 timeout 100 ./demo
'''
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def git(args):
    return sh("git -C %s %s" % (REPO, args))

def main():
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        assert git("status --porcelain").stdout.strip() == "", "dirty /repo"
        d = os.path.join(V, "seeded", ns["id"])
        os.makedirs(d, exist_ok=True)
        mine = set(git("log --format=%h --abbrev=40 94e937e..HEAD").stdout.split())
        ok = True
        try:
            for f, a, b in ns["edits"]:
                p = os.path.join(REPO, "include/xtypes", f)
                s = open(p).read()
                if s.count(a) != 1:
                    print(ns["id"], "text found %d times in %s: %r" % (s.count(a), f, a[:60])); ok = False; break
                open(p, "w").write(s.replace(a, b))
            if not ok:
                continue
            diff = git("diff").stdout
            # every removed line must come from the original repository
            cur = None
            removed = 0
            for line in git("diff -U0").stdout.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:]
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
                if m:
                    n = int(m.group(2) or 1)
                    if n:
                        bl = git("blame -l -s -L%d,+%d HEAD -- %s" % (int(m.group(1)), n, cur)).stdout
                        removed += n
                        for l in bl.splitlines():
                            if l.split()[0].lstrip("^") in mine:
                                print(ns["id"], "touches a line of a fix commit:", l); ok = False
            if removed == 0:
                print(ns["id"], "changes no original line (only additions)")
                ok = False
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.cpp"), "w").write(ns["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % ns.get("cxx", ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for f in ns.get("files", []):
                shutil.copy(f, d)
            json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh("bash %s /tmp/seed.json" % TEST)
            try:
                res = json.load(open("/tmp/seed.json"))
            except ValueError:
                res = {"passed": [], "failed": ["?"]}
            if len(res["passed"]) < 98:
                print(ns["id"], "tests: passed %d failed %s" % (len(res["passed"]), res["failed"][:5]), r.stdout[-300:] if not res["passed"] else ""); ok = False
            bad = sh("bash %s/demo.sh" % d, cwd=REPO)
            if bad.returncode == 0 or bad.returncode == 3:
                print(ns["id"], "demo passes with the change", bad.returncode, bad.stdout[-600:]); ok = False
        finally:
            git("checkout -- .")
        good = sh("bash %s/demo.sh" % d, cwd=REPO)
        if good.returncode != 0:
            print(ns["id"], "demo fails without the change", good.returncode, good.stdout[-600:]); ok = False
        if not ok:
            shutil.rmtree(d)
        print(ns["id"], "KEPT" if ok else "DROPPED")

main()
