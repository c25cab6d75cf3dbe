#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE]

Rebuilds the harness of the property against the current working tree of /repo, explores exhaustively
within the stated bounds, rewrites evidence/<ID>.json, prints KNOWN-FINDING / VIOLATION lines.
Exit 0: held on everything explored; 1: violation; 2: error of the check itself."""
import atexit, json, os, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS
import bounds

LIBS = "-lcfitsio -lcurl -llapack -lgsl -lgslcblas -lwcs -lfftw3 -lm -pthread".split()
BASE = ["-std=c++17", "-g1", "-w", "-DNO_LIBUNWIND", "-DNO_LIBDWARF",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1",
        "-I", REPO + "/include", "-I", ROOT + "/mc", "-I", ROOT + "/harness"]

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_all(cmds):
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(sh, cmds))
    for c, r in zip(cmds, res):
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("compilation failed: " + " ".join(c))

def known_findings(pid):
    """Lines of known_findings.txt:  KNOWN-FINDING: property=<id> key=<key> <text>   (fixed: lines suppress nothing)"""
    out = {}
    for l in open(ROOT + "/known_findings.txt"):
        l = l.strip()
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            rest = l.split("key=", 1)[1]
            key, _, text = rest.partition(" ")
            out[key] = text
    return out

def main():
    args = sys.argv[1:]
    if args[:1] == ["--selftest"]:
        # setup: nothing to install; make sure the tools are there and the tree is readable
        for tool in ("g++",):
            if shutil.which(tool) is None: die(tool + " is missing")
        if not os.path.exists(REPO + "/include/vif.hpp"): die("no vif sources in " + REPO)
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i+1]; i += 2
        elif args[i] == "--replay": replay = args[i+1]; i += 2
        else: die("bad argument " + args[i])
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    bdir = "%s/build/%s.%d" % (ROOT, pid, os.getpid())
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    try:
        return run(pid, c, tier, seed, bdir, t0, replay)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def split_src(src):
    """"file.cpp@N" is file.cpp compiled with -DPART=N (parts are compiled in parallel)"""
    f, _, part = src.partition("@")
    name = os.path.splitext(f)[0] + ("_" + part if part else "")
    return name, f, (["-DPART=" + part] if part else [])

def parts(f, n):
    return ["%s@%d" % (f, i) for i in range(n)]

def build_seq(pid, c, bdir, tier):
    exes = []
    cmds, links = [], []
    mco = bdir + "/mc.o"
    cmds.append(["g++", "-O1", "-fsanitize=address"] + BASE + ["-c", ROOT + "/mc/mc.cpp", "-o", mco])
    for src in c["src"]:
        name, f, part = split_src(src)
        o = "%s/%s.o" % (bdir, name)
        cmds.append(["g++", c.get("opt", "-O1"), "-fsanitize=address"] + BASE + c.get("flags", []) + part +
                    ["-c", "%s/harness/%s" % (ROOT, f), "-o", o])
        exe = "%s/%s" % (bdir, name)
        links.append(["g++", "-fsanitize=address", o, mco] + c.get("link", []) + ["-o", exe] + c.get("libs", ["-lm", "-pthread"]))
        exes.append((src, exe))
    compile_all(cmds)
    compile_all(links)
    return exes

def build_conc(pid, c, bdir, tier):
    exes = []
    cmds, links = [], []
    rt, mco = bdir + "/rt.o", bdir + "/mc.o"
    noasan = [b for b in BASE if "SANITIZE_VECTOR" not in b]
    cmds.append(["g++", "-O2", "-fno-pie"] + noasan + ["-c", ROOT + "/mc/conc_rt.cpp", "-o", rt])
    cmds.append(["g++", "-O2", "-fno-pie"] + noasan + ["-c", ROOT + "/mc/mc.cpp", "-o", mco])
    for src in c["src"]:
        name, f, part = split_src(src)
        o = "%s/%s.o" % (bdir, name)
        cmds.append(["g++", c.get("opt", "-O1"), "-fsanitize=thread", "-fno-pie"] + noasan + c.get("flags", []) + part +
                    ["-c", "%s/harness/%s" % (ROOT, f), "-o", o])
        exe = "%s/%s" % (bdir, name)
        links.append(["g++", "-no-pie", o, mco, rt] + c.get("link", []) + ["-o", exe] + c.get("libs", []) + ["-lm", "-pthread", "-ldl"])
        exes.append((src, exe))
    compile_all(cmds)
    compile_all(links)
    return exes

def run(pid, c, tier, seed, bdir, t0, replay):
    engine = c.get("engine", "seq")
    exes = (build_conc if engine == "conc" else build_seq)(pid, c, bdir, tier)
    known = known_findings(pid)
    env = dict(os.environ)
    scratch = bdir + "/scratch"
    os.makedirs(scratch, exist_ok=True)
    if c.get("unpriv"):   # the code under test writes and deletes files: run it as nobody in a directory of its own
        scratch = tempfile.mkdtemp(prefix="vifmc.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
        os.chmod(scratch, 0o777)
        atexit.register(shutil.rmtree, scratch, True)
        env["MC_UNPRIV"] = "1"
    env["MC_SCRATCH"] = scratch
    env["MC_DATA"] = ROOT + "/harness/data"
    env.pop("ASAN_OPTIONS", None)
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    if replay:
        spec = json.load(open(replay))
        for src, exe in exes:
            if src == spec["src"]:
                r = subprocess.run([exe, "--tier", spec.get("tier", tier), "--replay", spec["replay"]], env=env, cwd=scratch)
                return r.returncode
        die("replay file does not match " + pid)
    tot = dict(states=0, transitions=0, traces=0, rejections=0, outcomes=0, replays=0)
    scen, samples, knownhits = [], [], []
    exhaustive, viol = True, None
    maxs = c.get("max_seconds", {}).get(tier, 600 if tier == "quick" else 3600)
    for src, exe in exes:
        out = exe + ".json"
        cmd = [exe, "--tier", tier, "--out", out, "--jobs", str(c.get("jobs", 8)), "--max-seconds", str(maxs)]
        for k in known: cmd += ["--known", k]
        r = sh(cmd, env=env, cwd=scratch)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(r.stdout[-4000:])
            die("%s ended with status %d" % (src, r.returncode))
        j = json.load(open(out))
        tot["states"] += j["states"]; tot["transitions"] += j["operations"]; tot["traces"] += j["executions"]
        tot["rejections"] += j["rejections"]; tot["outcomes"] += j["distinct_outcomes"]; tot["replays"] += j.get("replays", 0)
        exhaustive = exhaustive and j["exhaustive"]
        for s in j["scenarios"]:
            s["source"] = src
            if s.get("sample"):
                samples.append({"scenario": s["name"], "choices": s["sample_choices"], "trace": s["sample"].strip().split("\n")})
            s.pop("sample", None); s.pop("sample_choices", None)
            scen.append(s)
        knownhits += j.get("known", [])
        if r.returncode == 1 or "violation" in j:
            viol = (src, j["violation"])
            break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"),
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "distinct_outcomes": tot["outcomes"], "rejected_operations": tot["rejections"],
            "determinism_replays": tot["replays"],
            "exhaustive": bool(exhaustive and viol is None),
            "bounds": bounds.text(pid, tier),
            "scenarios": scen, "samples": samples[:8],
            "rule": c.get("rule", "every sequence of choices of the closed driver within the bounds is executed once on the real code "
                    "(states: nodes of the choice tree; transitions: library operations executed and compared with the reference "
                    "model; traces: complete executions)"),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    if engine == "conc":
        ev["coverage"]["rule"] = ("every schedule of the closed multi-threaded driver within the preemption bound is executed on the real "
            "code under a controlled scheduler (states: scheduling points with a decision; transitions: visible operations executed; "
            "traces: complete schedules)")
    if c.get("level") == "fault_enumeration":
        ev["coverage"]["evaluations"] = tot["traces"]
        ev["coverage"]["distinct_nontrivial"] = tot["outcomes"]
    with open("%s/evidence/%s.json" % (ROOT, pid), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known.get(k, ""), k))
    print("%s: %d states, %d operations, %d executions, %d distinct outcomes, %s, %.1f s" % (
        pid, tot["states"], tot["transitions"], tot["traces"], tot["outcomes"],
        "complete within bounds" if exhaustive else "CAPPED", time.time() - t0))
    if viol:
        src, v = viol
        os.makedirs(ROOT + "/evidence/replay", exist_ok=True)
        rp = "%s/evidence/replay/%s.json" % (ROOT, pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "src": src, "tier": tier, "replay": v["scenario"] + ":" + v["choices"],
                       "message": v["message"], "log": v["log"].split("\n"), "note": v.get("note", ""),
                       "reproduced": v.get("reproduced"),
                       "how": "python3 run.py %s --replay %s" % (pid, rp)}, f, indent=1)
        print("scenario %s: %s" % (v["scenario"], v["message"]))
        print(v["log"][-3000:])
        if v.get("note"): print(v["note"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
