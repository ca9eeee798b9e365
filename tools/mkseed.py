#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' [FLAGS] <<< sections: lines '@@ file' '--- old' '+++ new' and '@@demo' C++ source.
Makes /verif/seeded/ID from a clone of /repo in /tmp/w."""
import sys, os, subprocess, json
i, prop, needs, breaks = sys.argv[1:5]; flags = sys.argv[5] if len(sys.argv) > 5 else ""
W = "/tmp/w"; D = "/verif/seeded/" + i; os.makedirs(D, exist_ok=True)
subprocess.run("rm -rf /tmp/w && git clone -q /repo /tmp/w", shell=True, check=True)
txt = sys.stdin.read(); body, demo = txt.split("@@demo\n", 1)
for part in body.split("@@ ")[1:]:
    f, rest = part.split("\n", 1); p = W + "/" + f.strip(); s = open(p).read()
    for e in rest.split("---\n")[1:]:
        old, new = e.split("+++\n", 1); assert s.count(old) == 1, (s.count(old), old); s = s.replace(old, new)
    open(p, "w").write(s)
open(D + "/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
open(D + "/demo.cpp", "w").write(demo)
open(D + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property held; run with cwd /repo
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w %s -Iinclude "$H/demo.cpp" src/pthread/thread.cpp src/pthread/once.cpp src/future.cpp -o "$T/demo" -lboost_chrono -lboost_atomic -lboost_system -lpthread || exit 2
timeout 60 "$T/demo"
''' % flags)
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
