"""Planted bugs: make(...) builds one from an edit, checks everything it must
satisfy in a scratch copy, and writes /verif/seeded/<id>. `python3 seedlib.py
check ID...` runs the property's quick check with the change applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the behaviour holds, 1 when it does not; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export PATH="$PATH:/usr/local/go/bin"
repo=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$here/demo.go.txt" "$T/main.go"
for f in "$here"/*.go.txt; do [ "$f" = "$here/demo.go.txt" ] || cp "$f" "$T/$(basename "$f" .txt)"; done
cp "$repo/go.sum" "$T/go.sum"
cat > "$T/go.mod" <<EOF
module demo

go 1.16

require (
	github.com/benoitkugler/textlayout v0.3.1
	github.com/benoitkugler/textprocessing v0.0.0
	golang.org/x/text v0.3.7
)

replace github.com/benoitkugler/textprocessing => $repo
EOF
cd "$T" && timeout 120 go run . "$repo"
"""
DEMO_T = """#!/bin/bash
# exit 0 when the behaviour holds, 1 when it does not; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export PATH="$PATH:/usr/local/go/bin"
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$here/demo.go.txt" "$T/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/PKG/zz_demo_test.go\\": \\"$T/demo_test.go\\"}}" > "$T/o.json"
timeout 200 go test -count=1 -overlay "$T/o.json" -run '^TestDemo$' ./PKG
"""
def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
ENV = ". /opt/vp/env.sh; "
def make(id, prop, edits, demo, needs, breaks, pkg=None, fontmap=False):
    """edits: [(file, old, new)]; demo: a Go program (or a test of package pkg, TestDemo)"""
    d = os.path.join(V, "seeded", id)
    W = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    wt = os.path.join(W, "r")
    try:
        sh("cp -a /repo " + wt, "/")
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                print(id, "REFUSED: %d places for the edit of %s" % (s.count(old), f)); return False
            # original lines only
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", wt)
        base = sh("git rev-list --max-parents=0 HEAD", wt)[1].strip()
        # the lines taken away must be lines of the base commit
        for f in {e[0] for e in edits}:
            lines = sh("git diff -U0 %s" % f, wt)[1].split("\n")
            for l in lines:
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
                    if n == 0: continue
                    bl = sh("git blame -l -L %s,+%d HEAD -- %s" % (a[0], n, f), wt)[1]
                    if not any(x.lstrip("^").startswith(base[:30]) for x in bl.split("\n")):
                        print(id, "REFUSED: no original line in", bl); return False
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.go.txt", "w").write(demo)
        if fontmap:   # the synthetic fonts of the harness
            shutil.copy(os.path.join(V, "harness", "pfont.go"), d + "/pfont.go.txt")
        open(d + "/demo.sh", "w").write(DEMO_T.replace("PKG", pkg) if pkg else DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh(ENV + "go build ./... && go vet ./pango ./fribidi ./fontconfig >/dev/null 2>&1; go build ./...", wt)
        if rc: print(id, "does not build", o[:500]); return False
        rc, o = sh("bash %s/demo.sh" % d, "/repo")
        if rc: print(id, "demo fails on the unchanged tree:", o[-600:]); return False
        rc, o = sh("bash %s/demo.sh" % d, wt)
        if rc == 0: print(id, "demo passes with the change"); return False
        dem = o[-200:]
        t = open("/opt/vp/test.sh").read().replace("/opt/vp/testwork", W + "/work").replace("cd /repo", "cd " + wt).replace("= /repo/fontconfig", "= %s/fontconfig" % wt)
        open(W + "/test.sh", "w").write(t)
        rc, o = sh("bash %s/test.sh %s/out.json" % (W, W), "/")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = json.load(open(W + "/out.json"))["passed"]
        miss = sorted(set(stable) - set(passed))
        if miss: print(id, "tests fail:", miss[:5]); return False
        print(id, "ok;", "demo with the change:", dem.replace("\n", " | ")[-160:])
        return True
    finally:
        shutil.rmtree(W, ignore_errors=True)
def check(ids, props=None):
    res = {}
    for id in ids:
        d = os.path.join(V, "seeded", id)
        m = json.load(open(d + "/meta.json"))
        for prop in (props or [m["property"]]):
            rc, o = sh("git apply %s/patch.diff" % d, "/repo")
            if rc: print(id, "does not apply", o); continue
            try:
                rc, o = sh("LIM=300 VERIF_SEED=%s python3 check.py %s" % (os.environ.get("VERIF_SEED", "1"), prop), V, 1500)
            finally:
                sh("git checkout -- .", "/repo")
            caught = rc == 1 and "VIOLATION property=" + prop in o
            print(id, prop, "CAUGHT" if caught else "missed (rc %d)" % rc, flush=True)
            if not caught: print(o[-300:])
if __name__ == "__main__":
    if sys.argv[1] == "check":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        check(ids)
