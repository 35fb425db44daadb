#!/usr/bin/env python3
"""seeds.py make [ID..]: writes /verif/seeded/ID from defs.py
seeds.py verify [ID..]: in scratch copies of /repo: patch applies, builds, passes the tests, demo 0/nonzero
seeds.py catch [ID..]: runs the check of the property (or all, with ALL=1) against each planted bug"""
import json, os, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from defs import B
S = VERIF + "/seeded"
SCR = "/tmp/seedw"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_CACHE_AUTO_CLEAN_FREQUENCY="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")

def make(ids):
    for i in ids:
        b, d = B[i], S + "/" + i
        os.makedirs(d, exist_ok=True)
        src = open("/repo/" + b["file"]).read()
        new = src
        for o, n in b["edits"]:
            assert new.count(o) == 1, (i, new.count(o), o)
            new = new.replace(o, n)
        os.makedirs(SCR + "/mk/a", exist_ok=True)
        t = SCR + "/mk"
        open(t + "/a/f", "w").write(src); os.makedirs(t + "/b", exist_ok=True); open(t + "/b/f", "w").write(new)
        p = subprocess.run(["git", "diff", "--no-index", "--no-color", "--no-prefix", "a/f", "b/f"], cwd=t, capture_output=True, text=True).stdout
        p = p.replace("a/f", "a/" + b["file"]).replace("b/f", "b/" + b["file"])
        open(d + "/patch.diff", "w").write(p)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy(VERIF + "/tools/demo/cs.py", d + "/cs.py")
        open(d + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom cs import *\n" + b["demo"] + "\nprint(\"ok\")\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the root of the repository after the build; exits 0 if the property holds\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)

def copies(n):
    for k in range(n):
        c = "%s/r%d" % (SCR, k)
        if not os.path.exists(c):
            os.makedirs(SCR, exist_ok=True)
            subprocess.run(["cp", "-a", "/repo", c], check=True)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", c)

def pool(ids, n, f):
    q = queue.Queue(); [q.put(i) for i in ids]
    def work(k):
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            try: f(i, k)
            except Exception as e: print(i, "EXCEPTION", repr(e), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

def verify(ids, n=int(os.environ.get("N", "5"))):
    copies(n)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    def one(i, k):
        c = "%s/r%d" % (SCR, k)
        sh("git checkout -q -- .", c)
        r = sh("cargo test --workspace --no-run --offline", c)
        d = S + "/" + i
        un = sh("bash %s/demo.sh" % d, c, 300)
        a = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), c)
        b = sh("touch src/*.rs && cargo test --workspace --no-run --offline", c)
        de = sh("bash %s/demo.sh" % d, c, 300)
        t = sh("rm -rf firmware/target; cargo test --workspace --no-fail-fast --offline -- --test-threads 1", c)
        passed = t.stdout.count(" ... ok")
        good = un.returncode == 0 and a.returncode == 0 and b.returncode == 0 and de.returncode != 0 and passed == len(stable)
        print(("GOOD " if good else "BAD  ") + i, "unpatched", un.returncode, un.stdout.strip()[-200:] if un.returncode else "", "apply", a.returncode, "build", b.returncode, b.stderr[-600:] if b.returncode else "", "patched", de.returncode, de.stdout.strip()[:200], "tests", passed, flush=True)
        sh("git checkout -q -- .", c)
    pool(ids, n, one)

def catch(ids):
    copies(1)
    c = SCR + "/r0"
    allc = os.environ.get("ALL")
    v = SCR + "/v"
    if not os.path.exists(v):
        os.makedirs(v)
    for x in ("mc", "check.sh", "known-findings.txt"):
        sh("rm -rf %s/%s && cp -a %s/%s %s/" % (v, x, VERIF, x, v), "/")
    os.makedirs(v + "/evidence", exist_ok=True); os.makedirs(v + "/replays", exist_ok=True)
    for i in ids:
        sh("git checkout -q -- . && git apply %s/%s/patch.diff" % (S, i), c)
        props = ["C%02d" % k for k in range(1, 29)] if allc else [B[i]["prop"]]
        got = []
        for p in props:
            r = sh("MC_REPO=%s VERIF_TIER=quick VERIF_SEED=1 ./check.sh %s" % (c, p), v, 1800)
            if r.returncode != 0:
                got.append("%s(%d%s)" % (p, r.returncode, "" if "VIOLATION property=%s " % p in r.stdout else "!"))
        print("CATCH", i, "want", B[i]["prop"], "got", " ".join(got) or "-", flush=True)
        sh("git checkout -q -- .", c)

ids = sys.argv[2:] or sorted(B)
{"make": make, "verify": verify, "catch": catch}[sys.argv[1]](ids)
