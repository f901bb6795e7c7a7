#!/usr/bin/env python3
"""Decides one property:  check.py ID [quick|thorough]

1. builds the symbolic executor (if missing) and, from /repo's current source, the harness crate twice
   per runtime: as LLVM IR for the executor and as a native program;
2. lets the executor follow every feasible path of the property's harness entries;
3. runs sampled paths natively and compares what was observed (validation of the encoding);
4. replays each counterexample natively; only what reproduces is reported.

Exit 0: held within the bounds. Exit 1 with VIOLATION: broken. Anything else: no answer.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time, glob, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS

T0 = time.time()
def say(*a): print(*a, flush=True)
class NoAnswer(Exception): pass

def env(flags=None):
    e = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    if flags: e["RUSTFLAGS"] = flags
    return e

def run(cmd, cwd, e, what, limit=600):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    if p.returncode != 0: raise NoAnswer(what + " failed:\n" + p.stdout[-4000:])

def build_engine():
    run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "symex")], os.path.join(HERE, "symex"), env(), "building the executor")
    return os.path.join(BUILD, "symex", "release", "symex")

def forget(target):
    """Makes cargo rebuild the crate under test and the harness, whatever the time stamps say."""
    for d in glob.glob(os.path.join(target, "release", ".fingerprint", "async-smtp-*")) + glob.glob(os.path.join(target, "release", ".fingerprint", "harness-*")):
        shutil.rmtree(d, ignore_errors=True)
    for f in glob.glob(os.path.join(target, "release", "deps", "harness-*.ll")): os.unlink(f)

def build_ir(rt):
    t = os.path.join(BUILD, "sx-" + rt)
    forget(t)
    run(["cargo", "rustc", "--offline", "--locked", "--quiet", "--release", "--no-default-features", "--features", rt, "--target-dir", t, "--", "--emit=llvm-ir", "-C", "linker=/bin/true"],
        os.path.join(HERE, "harness"), env("--cfg sx -C no-vectorize-loops -C no-vectorize-slp"), "building the harness for the executor (%s)" % rt)
    l = glob.glob(os.path.join(t, "release", "deps", "harness-*.ll"))
    if len(l) != 1: raise NoAnswer("no LLVM IR was produced")
    return l[0]
def build_native(rt):
    t = os.path.join(BUILD, "nat-" + rt)
    forget(t)
    run(["cargo", "build", "--offline", "--locked", "--quiet", "--release", "--no-default-features", "--features", rt, "--target-dir", t],
        os.path.join(HERE, "harness"), env(), "building the harness natively (%s)" % rt)
    return os.path.join(t, "release", "harness")

def parallel(jobs):
    out, err = {}, []
    def one(k, f):
        try: out[k] = f()
        except Exception as x: err.append(x)
    ts = [threading.Thread(target=one, args=j) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise err[0]
    return out

def symex(exe, ll, entries, tier, seed, seconds, stop, out, dump=None):
    if seconds < 5: raise NoAnswer("out of time")
    cmd = [exe, ll, "--entries", ",".join(entries), "--out", out, "--threads", str(os.cpu_count() or 4), "--time", str(int(seconds)), "--steps", "60000000",
           "--samples", "400", "--tier", "0" if tier == "quick" else "1", "--seed", str(seed), "--stop", "1" if stop else "0", "--solver-ms", "60000", "--src", os.path.join(REPO, "src") + "/"]
    if dump: cmd += ["--dump", dump, "--dump-n", "150"]
    if os.path.exists(out): os.unlink(out)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 120)
    if p.returncode != 0 or not os.path.exists(out): raise NoAnswer("the executor ended with %d: %s" % (p.returncode, p.stdout[-2000:]))
    return json.load(open(out))

def replay(nat, v, tier):
    """What the real code does on the counterexample's inputs: (reproduces, text)."""
    cmd = [nat, v["entry"], "0" if tier == "quick" else "1"] + [str(x) for x in v["inputs"]]
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired: return v["kind"] == "hang", "does not terminate within 60 s"
    t = p.stdout.decode("utf-8", "replace")
    if p.returncode in (3, 4, 5): return False, t[-500:]
    if p.returncode != 0: return True, t[-1500:]
    bad = [l for l in t.split("\n") if l.startswith("CHECK-FAILED")]
    return bool(bad), "\n".join(bad)[:1500] if bad else t[-500:]

def validate(nat, samples, tier, work):
    """Runs sampled paths natively; everything observed must agree with the executor."""
    if not samples: return 0
    f = os.path.join(work, "samples.txt")
    def go(samples):
        with open(f, "w") as o:
            for s in samples: o.write(" ".join([s["entry"], "0" if tier == "quick" else "1"] + [str(x) for x in s["inputs"]]) + "\n")
        p = subprocess.run([nat, "@" + f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        got = {}
        for l in p.stdout.split("\n"):
            w = l.split(" ")
            if len(w) == 4 and w[0].isdigit(): got[int(w[0])] = w
        return p, got
    agree = lambda w, s: w is not None and w[1] == "0" and w[2] == "true" and w[3] == "t" + s["trace"]
    p, got = go(samples)
    n = 0
    for i, s in enumerate(samples):
        w = got.get(i)
        if not agree(w, s):
            # alone, in case the code keeps something from one run to the next
            p, g = go([s])
            w = g.get(0)
        if w is None: raise NoAnswer("native run of a sampled path of %s ended abnormally: %s" % (s["entry"], p.stdout[-300:]))
        if w[1] != "0" or w[2] != "true" or w[3] != "t" + s["trace"]:
            raise NoAnswer("the encoding and the real code disagree on %s %s: %s vs %s" % (s["entry"], s["inputs"], w, s["trace"]))
        n += 1
    return n

def cross_check(d):
    """Other solvers' answers to dumped queries."""
    n = 0
    for f in sorted(glob.glob(os.path.join(d, "*.smt2"))):
        want = f.rsplit("_", 1)[1][:-5]
        if want == "unknown": continue
        for s in (["cvc5", "--tlimit=20000", f], ["z3-new", "-T:20", f]):
            if not shutil.which(s[0]): continue
            p = subprocess.run(s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            a = p.stdout.strip().split("\n")[-1]
            if "(error" in p.stdout: raise NoAnswer("%s cannot read a query: %s" % (s[0], p.stdout[:300]))
            if a in ("sat", "unsat"):
                if a != want: raise NoAnswer("solvers disagree on %s" % f)
                n += 1
    return n

def known(pid):
    l = []
    p = os.path.join(HERE, "known_findings.txt")
    for x in open(p) if os.path.exists(p) else []:
        x = x.strip()
        if x.startswith("finding: property=%s " % pid):
            # finding: property=ID entry=NAME detail="TEXT" WHAT FAILS
            e = x.split("entry=")[1].split()[0]
            d = x.split('detail="')[1].split('"')[0]
            l.append((e, d, x.split('" ', 1)[1]))
    return l

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    budget = float(os.environ.get("SX_BUDGET", 700 if tier == "quick" else 3300))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = os.path.join(BUILD, "work-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rts = [("tk", P["entries"])]
    extra = P.get("async_std", []) if tier == "quick" else P.get("async_std_thorough", P.get("async_std", []))
    if extra: rts.append(("as", extra))
    jobs = [("engine", build_engine)]
    for rt, _ in rts: jobs += [("ir-" + rt, lambda rt=rt: build_ir(rt)), ("nat-" + rt, lambda rt=rt: build_native(rt))]
    b = parallel(jobs)
    t_build = time.time() - T0
    cov = {"runtimes": {}}
    tot = {"paths": 0, "forks": 0, "instr": 0, "queries": 0, "cache": 0, "sat": 0, "unsat": 0, "z3": 0, "tables": 0, "tables_z3": 0, "secs": 0.0, "checks": 0, "sym": 0, "validated": 0, "cross": 0}
    funcs, samples_out, missing, found, lines = set(), [], [], [], {}
    kf = known(pid)
    kf_hit = set()
    for rt, entries in rts:
        nat, ll = b["nat-" + rt], b["ir-" + rt]
        out = os.path.join(work, "report-%s.json" % rt)
        dump = os.path.join(work, "dump-" + rt) if tier == "thorough" else None
        left = budget - (time.time() - T0)
        r = symex(b["engine"], ll, entries, tier, seed, left, not kf, out, dump)
        def judge(r):
            bad, spurious = [], []
            for v in r["violations"]:
                ok, text = replay(nat, v, tier)
                if not ok: spurious.append((v, text)); continue
                text = text.strip()
                k = [x for x in kf if x[0] == v["entry"] and x[1] in text]
                if k: kf_hit.add(k[0]); continue
                bad.append((v, text))
            return bad, spurious
        bad, spurious = judge(r)
        if not bad and spurious and not kf:
            # the search stopped at something that does not reproduce: look at everything
            r = symex(b["engine"], ll, entries, tier, seed, budget - (time.time() - T0), False, out)
            bad, spurious = judge(r)
        if bad:
            found += [(rt, v, t) for v, t in bad]
            cov["runtimes"][rt] = summary(r)
            add(tot, r); funcs |= set(r["functions"])
            break
        if spurious: raise NoAnswer("counterexample does not reproduce on the real code: %s %s\n%s" % (spurious[0][0], len(spurious), spurious[0][1]))
        if not r["complete"]: raise NoAnswer("not every path was decided: timed out %s, errors %s" % (r["timed_out"], r["errors"][:5]))
        need = P.get("covers", {})
        for e in entries:
            for c in need.get(e, [1]):
              
                if str(c % 1000) not in r["entries"][e]["covers"]: missing.append("%s:%d" % (e, c))
        if missing: raise NoAnswer("vacuous: situations never reached: %s" % missing)
        tot["validated"] += validate(nat, r["samples"], tier, work)
        if dump: tot["cross"] += cross_check(dump)
        add(tot, r)
        funcs |= set(r["functions"])
        for f, l in r["lines"].items(): lines.setdefault(f, set()).update(l["list"])
        cov["runtimes"][rt] = summary(r)
        rs = sorted(r["samples"], key=lambda s: len(s["inputs"]))
        for s in rs[:2] + rs[len(rs) // 2:len(rs) // 2 + 2]:
            samples_out.append({"runtime": rt, "entry": s["entry"], "inputs": s["inputs"], "observed": bytes.fromhex(s["trace"]).decode("latin1")[:200]})
    for k in sorted(kf_hit): say("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    coverage = {
        "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": tot["validated"], "samples": samples_out,
        "exhaustive": not found,
        "meaning": "states: execution paths of the harness entries followed to their end, each standing for all inputs that satisfy its path condition; transitions: branches at which an execution was split; every branch's feasibility and every assertion was decided for all values by the solver",
        "functions_encoded": sorted(funcs), "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
        "bounds": P["bounds_quick" if tier == "quick" else "bounds_thorough"], "outside_the_bounds": P["outside"],
        "instructions_executed": tot["instr"], "assertions_evaluated": tot["checks"], "assertions_on_symbolic_values": tot["sym"],
        "solver": {"name": "z3 4.8.12 (libz3, QF_BV)", "queries": tot["queries"], "answered_from_cache": tot["cache"], "calls": tot["z3"], "sat": tot["sat"], "unsat": tot["unsat"], "branches_decided_by_one_byte_truth_table": tot["tables"], "of_those_repeated_with_z3": tot["tables_z3"], "cpu_seconds": round(tot["secs"], 2), "answers_confirmed_by_other_solvers": tot["cross"]},
        "build_seconds": round(t_build, 1), "runtimes": cov["runtimes"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage, "assumptions": P["assumptions"], "wall_s": round(time.time() - T0, 1), "violations": len(found)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if found:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rt, v, text = found[0]
        path = os.path.join(d, pid + ".json")
        json.dump({"property": pid, "runtime": rt, "tier": tier, "entry": v["entry"], "kind": v["kind"], "detail": v["detail"], "inputs": v["inputs"], "symbolic_stack": v["stack"],
                   "real_code_says": text, "command": " ".join([b["nat-" + rt], v["entry"], "0" if tier == "quick" else "1"] + [str(x) for x in v["inputs"]]),
                   "others": [{"entry": w["entry"], "detail": w["detail"], "inputs": w["inputs"], "real_code_says": t} for _, w, t in found[1:10]]}, open(path, "w"), indent=1)
        say("counterexample: %s inputs %s" % (v["entry"], v["inputs"][:60]))
        say(text)
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    say("%s: held on every path: %d paths, %d assertions, %d solver queries, %d paths validated natively, %.0f s" % (pid, tot["paths"], tot["checks"], tot["queries"], tot["validated"], time.time() - T0))
    return 0

def add(t, r):
    for e in r["entries"].values():
        t["paths"] += e["paths"]; t["checks"] += e["checks"]; t["sym"] += e["symbolic_checks"]
    t["forks"] += r["forks"]; t["instr"] += r["instructions"]; t["queries"] += r["queries"]; t["cache"] += r["cache_hits"]
    t["sat"] += r["sat"]; t["unsat"] += r["unsat"]; t["z3"] += r["z3_calls"]; t["tables"] += r["tables"]; t["tables_z3"] += r["tables_confirmed"]; t["secs"] += r["solver_seconds"]
def summary(r):
    return {e: {"paths": x["paths"], "assertions": x["checks"], "longest_path_instructions": x["max_steps"], "most_symbolic_inputs": x["max_symbolic_inputs"], "situations_reached": x["covers"]} for e, x in r["entries"].items()}

if __name__ == "__main__":
    try: sys.exit(main())
    except NoAnswer as x:
        say("NO ANSWER:", x)
        sys.exit(2)
