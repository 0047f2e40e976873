#!/usr/bin/env python3
"""seed.py make ID PROPERTY DIR   DIR: scratch copy of /repo with the change; DIR/seed/{src/,expected,needs,breaks}
   seed.py run ID...              applies each planted bug to /repo, runs its property's quick check, undoes it"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles src/main.cd with candice as it is in the current directory and compares what the program does
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/drv" && cp "$here/driver.go.txt" "$d/drv/main.go" && cp "$repo/go.sum" "$d/drv/go.sum"
sed 's/^module .*/module demo/' "$repo/go.mod" > "$d/drv/go.mod"
printf '\\nrequire github.com/gabivlj/candice v0.0.0\\nreplace github.com/gabivlj/candice => %s\\n' "$repo" >> "$d/drv/go.mod"
(cd "$d/drv" && GOFLAGS="-mod=mod -buildvcs=false" go build -o ../driver .) || exit 2
cp -r "$here/src" "$d/src" && cd "$d/src" || exit 2
ulimit -t 20 -f 65536
../driver compile main.cd ../out.ll > ../log 2>&1
rc=$?
if grep -q '^goroutine ' ../log; then echo "CRASH" > ../got
elif [ $rc -ne 0 ]; then echo "REFUSED" > ../got
elif ! clang -w ${OPT:--O0} -x ir ../out.ll -o ../prog -lm > ../clog 2>&1; then echo "INVALID" > ../got
else ../prog > ../got 2>&1 < /dev/null; echo "exit $?" >> ../got; fi
if cmp -s ../got "$here/expected"; then exit 0; fi
echo "expected:"; cat "$here/expected"; echo "got:"; head -c 2000 ../got; head -c 500 ../log
exit 1
'''
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/seed_t.json"))
    return set(b["stable"]) - set(r["passed"])
def apply(i): r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i)); assert r.returncode == 0, r.stdout
def undo(): sh("git -C /repo checkout -- .")
def demo(i): return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo", timeout=300)
def make(i, prop, d):
    D = os.path.join(V, "seeded", i)
    assert sh("git -C /repo status --short").stdout == ""
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    diff = sh("git -C %s diff -- . ':!seed'" % d).stdout
    open(D + "/patch.diff", "w").write(diff)
    sd = os.path.join(d, "seed")
    shutil.copytree(sd + "/src", D + "/src"); shutil.copy(sd + "/expected", D + "/expected")
    shutil.copy(V + "/driver/main.go", D + "/driver.go.txt")
    if os.path.exists(sd + "/demo.sh"): shutil.copy(sd + "/demo.sh", D + "/demo.sh")
    else: open(D + "/demo.sh", "w").write(DEMO)
    json.dump({"property": prop, "needs": open(sd + "/needs").read().strip(), "what_it_breaks": open(sd + "/breaks").read().strip()}, open(D + "/meta.json", "w"), indent=1)
    r = demo(i)
    if r.returncode != 0: print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.returncode, r.stdout); return False
    apply(i)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-500:]); return False
        t = stable()
        if t: print(i, "BREAKS TESTS", t); return False
        r = demo(i)
        if r.returncode == 0: print(i, "DEMO DOES NOT FAIL", r.stdout); return False
        print(i, "valid;", r.stdout[-300:].replace("\n", " | "))
    finally: undo()
    return True
def run(i, prop=None, seed="1"):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); prop = prop or m["property"]
    apply(i)
    try:
        t = time.time()
        r = sh("python3 check.py %s quick" % prop, cwd=V, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
        print(i, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "missed rc=%d" % r.returncode, "%.0f s" % (time.time() - t),
              next((l for l in r.stdout.splitlines() if l.startswith("  ")), "")[:150] if r.returncode == 1 else r.stdout[-300:])
        if prop == m["property"]:
            m["caught_by"] = prop + " quick" if r.returncode == 1 else "missed"
            json.dump(m, open(V + "/seeded/%s/meta.json" % i, "w"), indent=1)
        sys.stdout.flush()
    finally: undo()
if __name__ == "__main__":
    if sys.argv[1] == "make": sys.exit(0 if make(*sys.argv[2:5]) else 1)
    for i in sys.argv[2:]: run(i.split(":")[0], *(i.split(":")[1:]))
