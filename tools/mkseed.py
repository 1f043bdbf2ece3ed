"""python3 tools/mkseed.py <spec.py ...>: builds seeded/<id>/ from a spec file: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ text) or DEMO_SH"""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# compiles demo.cc against the built library and runs it in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++23 -w -I/repo -I/repo/lttoolbox -I/usr/include/libxml2 -I/usr/include/utf8cpp "$D/demo.cc" -o "$T/demo" \\
  -L/repo/_build/lttoolbox -llttoolbox -lxml2 -licuio -licui18n -licuuc -licudata -Wl,-rpath,/repo/_build/lttoolbox || exit 3
cd "$T" && timeout 60 ./demo
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(HERE, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, old, new in g["EDITS"]:
        p = t + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    if "DEMO" in g:
        open(d + "/demo.cc", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(g.get("DEMO_SH", SH))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(g["ID"], len(diff.splitlines()), "lines")
