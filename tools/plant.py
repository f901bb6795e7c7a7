#!/usr/bin/env python3
"""Planted bugs.  plant.py make [ID..]    write and verify /verif/seeded/<id>
                  plant.py check [ID..]   apply each to /repo, run its property's check, undo (results on stdout)"""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"; D = V + "/tools/demo"
sys.path.insert(0, V + "/tools")
from seeds import SEEDS, HDR

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests_ok(wc):
    # the stable tests of both runtimes, in the scratch copy
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", []) or [])
    n = 0
    for rt in ("tokio", "async-std"):
        rc, out = sh(f"RUSTFLAGS='--cap-lints warn' CARGO_TARGET_DIR={wc}/target cargo test --workspace --offline --no-fail-fast --no-default-features --features runtime-{rt} -- --test-threads 8", cwd=wc)
        if rc: return False, out
        n += out.count("... ok")
        rc, out = sh(f"CARGO_TARGET_DIR={wc}/target cargo build --lib --examples --offline --no-default-features --features runtime-{rt}", cwd=wc)
        if rc: return False, out
    return n >= 46, f"{n} tests"

def make(s, wc):
    sh("git checkout -q -- .", cwd=wc)
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(HDR + s["main"] + "\n")
    shutil.copy(D + "/mock.rs", d); shutil.copy(D + "/Cargo.lock", d)
    open(d + "/demo.sh", "w").write(open(D + "/demo.sh").read().replace("@RT@", s["rt"])); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean, cout = sh(f"timeout 300 bash {d}/demo.sh", cwd=wc)
    for f, old, new in s["edits"]:
        p = f"{wc}/{f}"; t = open(p).read()
        if t.count(old) != 1: return f"BAD EDIT ({t.count(old)} matches) {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    rc, fmt = sh("cargo fmt --check", cwd=wc)
    diff = subprocess.run("git diff", shell=True, cwd=wc, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    ok, tout = tests_ok(wc)
    bad, bout = sh(f"timeout 300 bash {d}/demo.sh", cwd=wc)
    sh("git checkout -q -- .", cwd=wc)
    msg = []
    if clean: msg.append("demo fails on clean: " + cout[-1500:])
    if not ok: msg.append("tests fail: " + tout[-2500:])
    if not bad: msg.append("demo passes with patch")
    if bad and "panicked" not in bout and "hangs" not in bout: msg.append("demo fails oddly: " + bout[-1500:])
    return "; ".join(msg) or "ok " + ("" if not rc else "(unformatted)")

def record(i, v, rc):
    f = V + "/tools/results.json"
    r = json.load(open(f)) if os.path.exists(f) else {}
    r[i] = "caught" if rc == 1 and v else "missed"
    json.dump(r, open(f, "w"), indent=0, sort_keys=True)

def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    if cmd == "make":
        wc = "/tmp/plantwc"
        shutil.rmtree(wc, ignore_errors=True)
        sh(f"cp -a /repo {wc}"); sh("git checkout -q -- .", cwd=wc)
        for s in todo: print(s["id"], make(s, wc), flush=True)
        shutil.rmtree(wc, ignore_errors=True)
    else:
        for s in todo:
            rc, o = sh(f"git -C /repo apply {V}/seeded/{s['id']}/patch.diff")
            if rc: print(s["id"], "DOES NOT APPLY", o); continue
            try: rc, o = sh(f"python3 {V}/check.py {s['property']} quick", timeout=1500)
            finally: sh("git -C /repo checkout -- .")
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            record(s["id"], v, rc)
            print(s["id"], "caught" if rc == 1 and v else f"MISSED rc={rc}", (v or o.splitlines()[-2:])[0:2], flush=True)
main()
