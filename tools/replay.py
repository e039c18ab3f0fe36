#!/usr/bin/env python3
"""replay.py FILE: re-executes the calls of a replay file (the path a VIOLATION line names) against
/repo's current working tree, prints what each call answers, and has TLC judge the calls against
VebMap.  Exit 1: the code still deviates; exit 0: every answer is one VebMap allows."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver

text = open(sys.argv[1], errors="replace").read()
prop = (re.search(r"^property (\S+)", text, re.M) or [0, "REPLAY"])[1]
if not re.search(r"^step ", text, re.M):
    m = re.search(r"^command (.*)", text, re.M)
    sys.exit(f"this account holds no map calls; re-run: python3 tools/check.py {prop}" + (f"\nor, after a check has built the harness: {m[1]}" if m else ""))
run = driver.Run("replay-" + prop)
exe = run.build(["trees", "more", "wrappers", "owned"], ["replay"], "release" if "\nprofile release" in text else "checked")["replay"]
f = run.path("trace.json")
r = subprocess.run([exe, "--file", sys.argv[1], "--out", f], capture_output=True, text=True, timeout=600)
lines = r.stdout.splitlines()
print("\n".join(lines if len(lines) < 80 else lines[:20] + [f"... {len(lines) - 60} calls ..."] + lines[-40:]))
if r.returncode == 2:
    sys.exit(r.stderr)
if r.returncode:
    print(r.stderr.strip()[-1500:])
    print("DEVIATION: the last call did not return (a panic or an abort)")
    sys.exit(1)
rc, out = run.tlc("TraceMap", "TraceMap.cfg", env={"TRACE": f}, workers=1, expect_ok=False, timeout=900)
t = open(out, errors="replace").read()
d = re.search(r'"DEVIATION <<(\d+), (.*)>>"', t)
if d:
    print(f"DEVIATION: {open(f).read().splitlines()[int(d[1]) - 1]} is not allowed by VebMap in state {d[2]}")
    sys.exit(1)
if not re.search(r'"CONSUMED', t):
    sys.exit("TLC failed:\n" + t[-3000:])
print("every call is allowed by VebMap")
