#!/usr/bin/env python3
"""deepen.py [PROP...]: raises the deviation bound of every scenario of the quick tier for as long as it stays cheap (T seconds); writes bounds.json, which bin/check reads."""
import sys, os, json, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
T = float(os.environ.get("T", "2")); J = int(os.environ.get("J", "5")); f = V + "/bounds.json"
B = json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:] or CHECKS:
    d = subprocess.run([V + "/bin/check", p, "--build-only"], capture_output=True, text=True).stdout.split()[-1]
    todo = [(b["name"], l.split()[0]) for b in CHECKS[p]["bins"] for l in subprocess.run([d + "/" + b["name"], "--list"], capture_output=True, text=True).stdout.splitlines() if l.split()[1] != "1"]
    def one(t):
        n, s = t; k = None
        def go(extra):
            r = subprocess.run([f"{d}/{n}", "--scenario", s, "--out", f"/tmp/deepen.{n}.{s}"] + extra, capture_output=True, text=True)
            if r.returncode: return r.returncode, r.stdout[-300:]
            return 0, json.loads(r.stdout.splitlines()[-1])
        rc, x = go([])
        if rc or x["complete"] or x["capped"] or x["wall_s"] > T: return t, None, None
        b = x["bound_requested"]; w = x["wall_s"]
        while b < 30:
            if x["max_steps"] == 0: break
            rc, y = go(["--bound", str(b + 1), "--secs", str(2 * T)])
            if rc: return t, k, f"rc {rc} at bound {b + 1}: {y}"
            if y["capped"] or y["wall_s"] > T: break
            b += 1; k = b
            if y["complete"]: break
        return t, k, None
    with ThreadPoolExecutor(J) as ex:
        n = 0
        for (bn, s), k, e in ex.map(one, todo):
            if e: print("!!", p, bn, s, e, flush=True)
            if k: B[bn + "/" + s] = k; n += 1
    print(p, n, "of", len(todo), "deepened", flush=True)
    json.dump(B, open(f, "w"), indent=0, sort_keys=True)
