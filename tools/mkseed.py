#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a Python spec with ID, PROP, NEEDS, BREAKS, PKG, EDITS=[(file,old,new)], DEMO. Writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}
    exec(open(f, encoding="utf-8").read(), g)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for file, old, new in g["EDITS"]:
            p = os.path.join(w, "r", file); s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (g["ID"], file, s.count(old), old)
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, check=True).stdout
        o = os.path.join(V, "seeded", g["ID"]); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(d)
        open(o + "/demo_test.go", "w", encoding="utf-8").write(g["DEMO"].lstrip())
        open(o + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs demo_test.go inside package {g["PKG"]} through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/{g["PKG"]}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$repo" "$here" >"$t/o.json"
timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 200s -run 'TestDemo$' ./{g["PKG"]}
''')
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
