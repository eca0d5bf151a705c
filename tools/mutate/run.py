#!/usr/bin/env python3
"""run.py OUT [N] [SEED] [PATTERN]: mutation run. Takes N random mutants (of files matching PATTERN), keeps those that build and
pass the tests, and runs every check whose evidence lists the mutated function until one reports a violation."""
import json, os, random, re, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor
here = "/verif"
out = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 100; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
pat = sys.argv[4] if len(sys.argv) > 4 else "."
dc = os.environ.get("DC", here + "/.bin/diskcheck"); W = int(os.environ.get("W", "3"))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="0", GOFLAGS="")
files = [f for d in ("basic/applesoft", "basic/integer", "basic", "cmd", "disk", "dos3", "helpers", "prodos", "supermon", "types", ".")
         for f in sorted(glob.glob("/repo/%s/*.go" % d)) if not f.endswith("_test.go")]
subprocess.run(["go", "build", "-o", "/tmp/mutate", here + "/tools/mutate/main.go"], env=env, check=True)
ms = subprocess.run(["/tmp/mutate"] + files, capture_output=True, text=True, env=env, check=True).stdout
ms = [json.loads(l) for l in ms.splitlines()]
ms = [m for m in ms if re.search(pat, m["File"] + ":" + m["Func"])]
print(len(ms), "mutants")
random.Random(seed).shuffle(ms); ms = ms[:N]
checks = [c["property"] for c in json.load(open(here + "/MANIFEST.json"))["checks"]]
funcs, wall = {}, {}
for p in checks:
    e = json.load(open(here + "/evidence/%s.json" % p)); funcs[p] = e["coverage"]["functions"]; wall[p] = e["wall_s"]
def relevant(m):
    pkg = os.path.dirname(os.path.relpath(m["File"], "/repo")) or "."
    full = "github.com/zellyn/diskii" + ("" if pkg == "." else "/" + pkg)
    r = []
    if m["Func"] in ("", "init"):
        r = [p for p in ("C01", "C18", "C17", "C19", "C08", "C22", "C21", "C24", "C11") ]
    else:
        t, _, n = m["Func"].rpartition(".")
        for p in checks:
            for f in funcs[p]:
                g = f.replace("(*", "(")
                if (t and g.startswith("(%s.%s).%s" % (full, t, n))) or (not t and g.startswith(full + "." + n)):
                    r.append(p); break
    if pkg == ".": r = ["C19", "C07"]
    return sorted(set(r), key=lambda p: wall[p])
def run(a):
    i, m = a
    w = "/tmp/mut/%d" % (i % 1000)
    shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo", w, symlinks=True); os.makedirs(w + ".v", exist_ok=True)
    shutil.copy(here + "/known-findings.txt", w + ".v/")
    f = w + "/" + os.path.relpath(m["File"], "/repo")
    b = open(f, "rb").read(); open(f, "wb").write(b[:m["From"]] + m["Text"].encode() + b[m["To"]:])
    try:
        try:
            r = subprocess.run("go build ./... && go vet ./basic/... ./cmd ./disk ./dos3 ./helpers ./prodos ./supermon ./types", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=120)
            if r.returncode: return m, "nobuild", ""
            r = subprocess.run("go test $(go list ./... | grep -v 'diskii$')", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=60)
            if r.returncode: return m, "tests", ""
        except subprocess.TimeoutExpired: return m, "tests", "hang"
        done = []
        for p in relevant(m):
            try:
                r = subprocess.run([dc, "-prop", p, "-repo", w, "-verif", w + ".v"], env=dict(env, VERIF_TIER="quick"), capture_output=True, text=True, timeout=600)
                t = r.stdout
                if "UNDECIDED" in t: done.append(p + "?")
                else: done.append(p)
                if r.returncode: 
                    v = [l for l in t.splitlines() if l.startswith("  [")]
                    return m, "killed", p + " " + (v[0][:150] if v else t[-200:])
            except subprocess.TimeoutExpired: return m, "killed", p + " timeout"
        return m, "SURVIVED", " ".join(done)
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + ".v", ignore_errors=True)
cnt = {}
with ThreadPoolExecutor(W) as ex, open(out, "a") as o:
    for m, st, info in ex.map(run, enumerate(ms)):
        cnt[st] = cnt.get(st, 0) + 1
        o.write("%s %s:%d %s [%s] %s | %s\n" % (st, os.path.relpath(m["File"], "/repo"), m["Line"], m["Func"], m["What"], m["Text"], info)); o.flush()
    o.write(json.dumps(cnt) + "\n")
