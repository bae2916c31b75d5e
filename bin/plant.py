#!/usr/bin/env python3
"""Development aid: write /verif/seeded/<id>/ from a plant description (a Python file under /tmp that defines PLANTS).
Each plant: id, property, needs, breaks, edits=[(file, old, new[, count])], demo = C++ source (demo.cpp)."""
import json, os, subprocess, sys
REPO = "/repo"
SH = '''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -I/usr/include/eigen3 -I"$PWD" "$here/demo.cpp" -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo >out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for p in ns["PLANTS"]:
    d = f"/verif/seeded/{p['id']}"
    os.makedirs(d, exist_ok=True)
    for e in p["edits"]:
        f, old, new = e[:3]
        path = f"{REPO}/{f}"
        s = open(path).read()
        n = s.count(old)
        assert n >= 1, (p["id"], f, "old text not found")
        want = e[3] if len(e) > 3 else 0
        if want == 0:
            assert n == 1, (p["id"], f, f"{n} occurrences")
            s = s.replace(old, new)
        else:                                   # replace the want-th occurrence
            i = -1
            for _ in range(want): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(path, "w").write(s)
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    assert diff
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.cpp", "w").write(p["demo"].lstrip())
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("planted", p["id"])
