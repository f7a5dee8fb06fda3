#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs its generated cases and writes its evidence.

  run.py C01 [--tier quick|thorough] [--seed N] [--cases N]
  run.py --replay FILE
  run.py --setup

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.  2: the check itself failed.
"""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
WORKERS = 8

from registry import HARNESSES, PROPS          # noqa: E402

FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-D__ABC__LINUX=1", "-D__ABC__OPENSSL=1", "-D_FILE_OFFSET_BITS=64",
         "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
LIBS = ["-lssl", "-lcrypto", "-lpthread"]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
    "TZ": "UTC",
}


class Broken(Exception):
    pass


def tree_hash(h):
    m = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "harness")] + [os.path.join(REPO, d) for d in h.get("dirs", [])]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                m.update(p.encode())
                with open(p, "rb") as x:
                    m.update(x.read())
    m.update(json.dumps([h, FLAGS, SAN], sort_keys=True).encode())
    return m.hexdigest()[:16]


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise Broken("build failed: %s\n%s" % (" ".join(cmd), r.stdout[:4000]))


def build(name, fuzz=False):
    h = HARNESSES[name]
    out_dir = os.path.join(BUILD, name + ("-fuzz-" if fuzz else "-") + tree_hash(h))
    exe = os.path.join(out_dir, name)
    if os.path.exists(exe):
        return exe
    # Keep one build per harness.
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d.startswith(name + ("-fuzz-" if fuzz else "-")) and (fuzz or not d.startswith(name + "-fuzz-")):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out_dir, exist_ok=True)
    san = SAN[h.get("san", "asan")]
    src = os.path.join(HERE, "harness", name + ".cpp")
    base = ["clang++"] + FLAGS + san + h.get("flags", [])
    if fuzz:
        base += ["-fsanitize=fuzzer", "-DPBT_FUZZ=1"]
    objs = [os.path.join(out_dir, "%s.%d.o" % (name, i)) for i in range(h["parts"])]
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(run_cmd, [base + ["-DPART=%d" % i, "-c", src, "-o", o] for i, o in enumerate(objs)]))
    tmp = exe + ".tmp"
    run_cmd(base + objs + ["-o", tmp] + h.get("libs", []) + LIBS)
    os.rename(tmp, exe)
    for o in objs:
        os.unlink(o)
    return exe


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if line.startswith("finding:") and w[1] == "property=" + prop:
                out.append(w[2].split("=", 1)[1])
    return out


def check(prop, tier, seed, cases):
    t0 = time.time()
    p = PROPS[prop]
    exe = build(p["harness"])
    build_s = time.time() - t0
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    n = cases or p[tier]
    deadline = 400 if tier == "quick" else p.get("thorough_s", 3600)
    procs = []
    tmp = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    workers = p.get("workers", WORKERS)
    try:
        for w in range(workers):
            out = os.path.join(tmp, "%d.json" % w)
            rep = os.path.join(rep_dir, "%s-%d-%d.txt" % (prop, seed, w))
            if os.path.exists(rep):
                os.unlink(rep)
            cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--workers", str(workers), "--cases", str(n),
                   "--deadline", str(deadline), "--patience", str(300 if tier == "quick" else deadline), "--out", out, "--replay-out", rep, "--log", os.path.join(tmp, "%d.log" % w)]
            if tier == "thorough":
                cmd.append("--thorough")
            procs.append((subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp), out, rep))
        violations = []
        tot = {"evaluations": 0, "discards": 0, "nontrivial": 0, "unreproduced": 0}
        labels, samples, hashes, rule, unrepro = {}, [], set(), "", []
        for pr, out, rep in procs:
            pr.wait()
            if not os.path.exists(out):
                raise Broken("a worker of %s ended with %d and wrote no result" % (prop, pr.returncode))
            o = json.load(open(out))
            for k in tot:
                tot[k] += o[k]
            for k, v in o["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += o["samples"]
            hashes.update(o["hashes"])
            rule = o["rule"]
            unrepro += o["unreproduced_messages"]
            if o["violation"]:
                violations.append((o["violation"], rep))
    finally:
        for pr, _, _ in procs:
            if pr.poll() is None:
                pr.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    fuzz_info = None
    if not violations and tier == "thorough" and p.get("fuzz_s"):
        fuzz_info, v = fuzz(prop, p, seed, rep_dir)
        violations += v
    found = []
    for name in known_findings(prop):
        r = subprocess.run([exe, "known", "--prop", name], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        for line in r.stdout.splitlines():
            if line.startswith("REPRODUCED "):
                found.append(line[11:])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:3] if samples else ["(no non-trivial case among the recorded ones)"],
            "planned_cases": n,
            "discarded": tot["discards"],
            "unreproduced_failures": tot["unreproduced"],
            "unreproduced_messages": unrepro[:5],
            "classes": dict(sorted(labels.items())),
            "build_s": round(build_s, 1),
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if fuzz_info:
        ev["coverage"]["fuzzing"] = fuzz_info
    if found:
        ev["coverage"]["known_findings"] = found
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    for w in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if tot["unreproduced"]:
        print("note: %d failing executions did not fail again when replayed" % tot["unreproduced"])
    print("%s: %d cases, %d distinct non-trivial, %.0f s" % (prop, tot["evaluations"], len(hashes), time.time() - t0))
    if violations:
        # The simplest reproduction first.
        violations.sort(key=lambda v: os.path.getsize(v[1]) if os.path.exists(v[1]) else 0)
        msg, rep = violations[0]
        print("%s: %s" % (prop, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if tot["evaluations"] == 0:
        raise Broken("no case was evaluated")
    return 0


def fuzz(prop, p, seed, rep_dir):
    """Coverage-guided search over the same property (thorough tier)."""
    exe = build(p["harness"], fuzz=True)
    tmp = os.path.join(BUILD, "fuzz-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    violations = []
    runs = 0
    try:
        procs = []
        for w in range(WORKERS):
            d = os.path.join(tmp, "c%d" % w)
            os.makedirs(d + "/corpus")
            os.makedirs(d + "/vp_pbt_scratch")
            e = env()
            e["PBT_PROP"] = prop
            e["PBT_SCRATCH"] = d + "/vp_pbt_scratch"
            log = open(d + "/log", "w")
            cmd = [exe, "-seed=%d" % (seed * WORKERS + w + 1), "-max_total_time=%d" % p["fuzz_s"], "-max_len=2048", "-timeout=60", "-rss_limit_mb=3000",
                   "-artifact_prefix=" + d + "/", "-print_final_stats=1", d + "/corpus"]
            procs.append((subprocess.Popen(cmd, env=e, stdout=log, stderr=log, cwd=d), d, w))
        plain = build(p["harness"])
        for pr, d, w in procs:
            pr.wait()
            for line in open(d + "/log", errors="replace"):
                if line.startswith("stat::number_of_executed_units:"):
                    runs += int(line.split()[1])
            for f in sorted(os.listdir(d)):
                if f.startswith(("crash-", "timeout-")):
                    rep = os.path.join(rep_dir, "%s-fuzz-%d-%d.txt" % (prop, seed, w))
                    r = subprocess.run([plain, "replay", "--prop", prop, "--bytes", os.path.join(d, f), "--replay-out", rep, "--log", os.path.join(d, "replay.log")],
                                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                    if r.returncode == 1 and os.path.exists(rep):
                        violations.append((r.stdout.strip().splitlines()[-1][:2000], rep))
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"engine": "libFuzzer", "executions": runs, "seconds": p["fuzz_s"]}, violations


def replay(path):
    prop = None
    for line in open(path):
        if line.startswith("property="):
            prop = line.strip().split("=", 1)[1]
    if prop not in PROPS:
        raise Broken("no property in " + path)
    exe = build(PROPS[prop]["harness"])
    r = subprocess.run([exe, "replay", "--in", os.path.abspath(path)], env=env())
    return 1 if r.returncode == 1 else 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for tool in ("clang++",):
            if shutil.which(tool) is None:
                raise Broken(tool + " is not installed")
        os.makedirs(BUILD, exist_ok=True)
        print("ready: every check builds its own harness from %s" % REPO)
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cases = 0
    prop = a[0]
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--cases":
            cases = int(a[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(prop, tier, seed, cases)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check error: %s" % e)
        sys.exit(2)
