"""Development aid: plants a bug in a scratch copy, confirms it (builds, stable tests pass, demo tells) and keeps it in seeded/."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("BUG_WT", "/tmp/bugwt")
PRE = """#!/bin/bash
# exit 0: behaves as the property says
A="$(pwd)/_build/armips"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
hex() { od -An -v -tx1 "$1" | tr -d ' \\n'; }
# asm NAME < source ; sets RC, OUT
asm() { cat > "$1"; OUT="$(timeout 20 "$A" "$@" 2>&1)"; RC=$?; }
fail() { echo "FAIL: $*"; exit 1; }
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build():
    r = sh("cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo "
           "-DCMAKE_CXX_FLAGS=-Wno-error -DARMIPS_USE_STD_FILESYSTEM=ON -DCMAKE_CXX_COMPILER_LAUNCHER=ccache >/dev/null && ninja -C _build", cwd=WT)
    return r.returncode == 0, r.stdout.decode(errors="replace")[-3000:]
def fresh():
    if os.path.isdir(WT):
        sh("git checkout -q -- . && git clean -fdq -e _build && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", cwd=WT)
    else:
        sh("git clone -q /repo %s" % WT)
def tests():
    out = sh("./_build/armipstests ./Tests 2>&1", cwd=WT).stdout.decode(errors="replace")
    base = json.load(open("/opt/vp/BASELINE.json"))
    return out, base
def mkbug(id, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(V, "seeded", id)
    fresh()
    ok, log = build()
    assert ok, log
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(PRE + demo.strip("\n") + "\nexit 0\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, b in (files or {}).items():
        open(os.path.join(d, n), "wb").write(b)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    res = []
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if r.returncode != 0: res.append("demo fails on the unchanged tree: " + r.stdout.decode()[-500:])
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        if s.count(a) != 1:
            print(id, "EDIT matches %d times in %s" % (s.count(a), f)); shutil.rmtree(d); return False
        open(p, "w", newline="").write(s.replace(a, b))
    diff = sh("git diff", cwd=WT).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    ok, log = build()
    if not ok:
        res.append("does not build: " + log)
    else:
        t = sh("python3 %s/tools/stable.py %s" % (V, WT)).stdout.decode()
        if t.strip(): res.append("tests: " + t)
        r = sh("bash %s/demo.sh" % d, cwd=WT)
        if r.returncode == 0: res.append("demo does not notice")
        else: print(id, "demo:", r.stdout.decode(errors="replace").strip()[-200:])
    print(id, "OK" if not res else "PROBLEM " + "; ".join(res))
    if res: shutil.rmtree(d)
    return not res
