#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property of /repo's current tree
   check.py --setup                            build the analyser

Compiles the driver translation units of /verif/driver against /repo's current headers to LLVM IR, runs the analyser
(/verif/src) on it, filters the reports through known_findings.json and writes evidence/<id>.json.
Exit 0: held.  Exit 1: VIOLATION.  Any other exit: the analysis itself could not be carried out."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JSA_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r.returncode, r.stdout, r.stderr


def build_tool():
    src = os.path.join(HERE, "src")
    files = sorted(f for f in os.listdir(src) if f.endswith((".cpp", ".h")))
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(open(os.path.join(src, f), "rb").read())
    exe = os.path.join(BUILD, "jsa-" + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tool-", dir=BUILD)
    try:
        def comp(f):
            o = os.path.join(tmp, f[:-4] + ".o")
            rc, out, err = sh([LLVM + "/bin/clang++", "-std=c++17", "-O2", "-DNDEBUG", "-fno-rtti", "-fexceptions", "-w",
                               "-I" + LLVM + "/include", "-c", os.path.join(src, f), "-o", o])
            if rc:
                raise Broken("building the analyser failed: " + err[-2000:])
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, [f for f in files if f.endswith(".cpp")]))
        t = os.path.join(tmp, "jsa")
        rc, out, err = sh([LLVM + "/bin/clang++", *objs, "-o", t, "-L" + LLVM + "/lib", "-lLLVM-18"])
        if rc:
            raise Broken("linking the analyser failed: " + err[-2000:])
        for old in os.listdir(BUILD):
            if old.startswith("jsa-"):
                os.unlink(os.path.join(BUILD, old))
        os.replace(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def compile_driver(name, outdir):
    c = CONFIGS[name]
    bc = os.path.join(outdir, name + ".bc")
    raw = bc + ".raw"
    cmd = [LLVM + "/bin/clang++", "-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-DNDEBUG", "-fno-exceptions",
           "-g", "-w", "-I" + os.path.join(REPO, "include"), "-emit-llvm", *c.get("flags", []), "-c",
           os.path.join(HERE, "driver", c["driver"]), "-o", raw]
    rc, out, err = sh(cmd)
    if rc:
        raise Broken("driver %s does not compile against %s: %s" % (name, REPO, err[-1500:]))
    rc, out, err = sh([LLVM + "/bin/opt", "-passes=" + c.get("passes", "always-inline,function-attrs,function(sroa)"), raw,
                       "-o", bc])
    if rc:
        raise Broken("opt failed: " + err[-1500:])
    os.unlink(raw)
    return bc


def run_job(exe, bc, args, timeout):
    try:
        r = subprocess.run([exe, args[0], bc, *args[1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"viol": [], "samples": [], "stats": {}, "broken": "timed out", "args": args}
    res = {"viol": [], "samples": [], "stats": {}, "broken": None, "args": args}
    done = False
    for line in r.stdout.splitlines():
        f = line.split("\t")
        if f[0] == "VIOL":
            res["viol"].append({"rule": f[1], "key": f[2], "where": f[3], "message": f[4]})
        elif f[0] == "SAMPLE":
            res["samples"].append(f[1])
        elif f[0] == "STAT":
            res["stats"][f[1]] = int(f[2])
        elif f[0] == "BROKEN":
            res["broken"] = f[1]
        elif f[0] == "DONE":
            done = True
    if not done and not res["broken"]:
        res["broken"] = "analyser ended with code %d: %s" % (r.returncode, r.stderr[-500:])
    return res


def main():
    if "--setup" in sys.argv:
        print(build_tool())
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    C = CHECKS[pid]
    t0 = time.time()
    exe = build_tool()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        jobs = list(C["jobs"])
        if tier == "thorough":
            jobs += C.get("thorough_jobs", [])
        cfgs = sorted({j["config"] for j in jobs})
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bcs = dict(zip(cfgs, ex.map(lambda n: compile_driver(n, tmp), cfgs)))
            futs = []
            for j in jobs:
                n = j.get("shards", 1)
                for i in range(n):
                    a = list(j["args"])
                    if a[0] == "tokens":
                        a += ["want=" + ",".join(C["rules"]), "budget=%d" % (830 if tier == "quick" else 4900)]
                    elif a[0] in ("text", "members", "output", "calls", "numbers", "diff"):
                        a.append("budget=%d" % (800 if tier == "quick" else 4900))
                    if n > 1:
                        a.append("shard=%d/%d" % (i, n))
                    futs.append((j, ex.submit(run_job, exe, bcs[j["config"]], a, 850 if tier == "quick" else 5000)))
            results = [(j, f.result()) for j, f in futs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol, stats, samples, broken = {}, {}, [], []
    for j, r in results:
        if r["broken"]:
            broken.append("%s on %s: %s" % (" ".join(r["args"]), j["config"], r["broken"]))
        for v in r["viol"]:
            v["config"] = j["config"]
            if v["rule"] in C["rules"]:
                viol.setdefault((v["rule"], v["key"]), v)
        for k, v in r["stats"].items():
            mx = k in j.get("same", ()) or k in ("readers", "parse_entry_points", "map_entry_points", "leaf_functions",
                                                 "inlined_helpers")
            if mx:
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
        samples += ["[%s] %s" % (j["config"], s) for s in r["samples"]]
    for k, lo in C.get("floors", {}).items():
        if stats.get(k, 0) < lo:
            broken.append("only %d %s analysed, expected at least %d" % (stats.get(k, 0), k, lo))
    findings = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {(f["rule"], f["key"]): f for f in findings["known"] if f["property"] == pid}
    new = [v for k, v in sorted(viol.items()) if k not in known]
    for k, v in sorted(viol.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": C["level"],
        "coverage": {
            "explanation": C["explanation"],
            "rules": C["rules"],
            "obligations": stats.pop("obligations", 0),
            "discharged": stats.pop("discharged", 0),
            "analysed": stats,
            "configurations": [{"name": n, "driver": CONFIGS[n]["driver"], "flags": CONFIGS[n].get("flags", [])}
                               for n in cfgs],
            "samples": samples[:: max(1, len(samples) // 25)][:25],
            "known_findings": [known[k]["what"] for k in sorted(viol) if k in known],
        },
        "assumptions": C.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if broken:
        ev["coverage"]["broken"] = broken
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", pid + ".violations.json")
    if new:
        ev["coverage"]["violations"] = new
        json.dump(new, open(rep, "w"), indent=1)
    elif os.path.exists(rep):
        os.unlink(rep)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for v in new[:40]:
        print("  %s: %s [%s] %s" % (v["where"], v["rule"], v["key"], v["message"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN: " + b, file=sys.stderr)
        return 3
    print("%s held: %d obligations, %s, %.1fs" % (pid, ev["coverage"]["obligations"],
                                                  ", ".join("%s=%d" % kv for kv in sorted(stats.items())), wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ANALYSIS-BROKEN: %s" % e, file=sys.stderr)
        sys.exit(3)
