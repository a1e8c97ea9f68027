"""stable.py TREE: prints the stable tests that fail in TREE/_build."""
import json, subprocess, sys, os, tempfile
wt = sys.argv[1]
src = open("/opt/vp/run_tests.py").read().replace("/repo", wt)
with tempfile.TemporaryDirectory() as t:
    open(t + "/r.py", "w").write(src)
    subprocess.run([sys.executable, t + "/r.py", t + "/res"], stdout=subprocess.DEVNULL)
    ok = {l[5:].strip() for l in open(t + "/res") if l.startswith("PASS")}
print("\n".join(sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok)))
