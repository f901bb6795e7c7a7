#!/usr/bin/env python3
"""Runs the engine over tools/rob/main.rs (much of std, futures, tokio::io and nom) and compares sampled paths with native runs."""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/rob-test"
# floats; the name of the main thread; thousands of solver calls
KNOWN = {"t_float", "t_float2", "t_parse2", "t_thread", "t_uni2", "t_slice"}
os.makedirs(W + "/src", exist_ok=True)
shutil.copy(V + "/tools/rob/main.rs", W + "/src/main.rs"); shutil.copy(V + "/harness/src/sx.rs", W + "/src/sx.rs")
shutil.copy(V + "/tools/rob/Cargo.toml.in", W + "/Cargo.toml"); shutil.copy("/repo/Cargo.lock", W + "/Cargo.lock") if os.path.exists("/repo/Cargo.lock") else None
def sh(c, env={}): return subprocess.run(c, shell=True, cwd=W, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
p = sh("cargo rustc --offline --release --target-dir t -- --emit=llvm-ir -C linker=/bin/true", {"RUSTFLAGS": "--cfg sx -C no-vectorize-loops -C no-vectorize-slp"})
assert p.returncode == 0, p.stdout[-2000:]
p = sh("cargo build --offline --release --target-dir n")
assert p.returncode == 0, p.stdout[-2000:]
ll = max(glob.glob(W + "/t/release/deps/harness-*.ll"), key=os.path.getmtime)
bad = n = 0
for e in re.findall(r"^ (t_\w+) \{", open(W + "/src/main.rs").read(), re.M):
    sh(f"{V}/symex/target/release/symex {ll} --entries {e} --out o.json --threads 8 --time 40 --steps 40000000 --samples 20 --tier 0 --seed 1 --stop 0 --solver-ms 60000 --src {W}/src/")
    r = json.load(open(W + "/o.json"))
    ok = r["complete"] and not r["violations"]
    for s in r["samples"]:
        n += 1
        open(W + "/s", "w").write(" ".join([e, "0"] + [str(x) for x in s["inputs"]]) + "\n")
        m = re.search(r"^0 0 true t(\w*)$", sh("n/release/harness @s").stdout, re.M)
        if not m or m[1] != s["trace"]: ok = False; print(e, s, m and m[1])
    if not ok: print(e, "known" if e in KNOWN else "FAILED", r["errors"][:1], r["violations"][:1]); bad += e not in KNOWN
print(n, "paths compared,", bad, "failed")
shutil.rmtree(W)
sys.exit(bad > 0)
