#!/usr/bin/env python3
"""run.py CHECK [quick|thorough] [--only SCENARIO] [--keep]: build the harness(es) of a property against /repo and run them.

exit 0: property held on everything explored, exit 1: VIOLATION line printed, exit 2: the check itself failed."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks_table import CHECKS, FLAVOURS
REPO = os.environ.get("VERIF_REPO", "/repo")

def known_for(prop):
    """keys of the known findings of a property: lines 'KNOWN property=C03 key=... text'"""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            l = l.strip()
            if not l.startswith("finding: "): continue
            parts = l[len("finding: "):].split(" ", 2)
            kv = dict(x.split("=", 1) for x in parts[:2])
            if kv["property"] == prop: out[kv["key"]] = parts[2]
    return out

def build(prop, spec, var, bdir):
    fl = FLAVOURS[var.get("flavour", "asan")]
    srcs = [os.path.join(HERE, s) for s in var.get("src", spec["src"])]
    exe = os.path.join(bdir, var["name"])
    incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks")]
    defs = ["-D" + d for d in var.get("defs", spec.get("defs", ["ASIOEXT_STANDALONE"]))]
    if var.get("lib"): # the library compiled on its own
        srcs.append(os.path.join(HERE, "mc", "lib.cpp"))
        defs.append("-DASIOEXT_SEPARATE_COMPILATION")
    if var.get("boost"):
        shim = os.path.join(HERE, "mc", "shim")
        incs = ["-include", os.path.join(shim, "flavour.hpp"), "-I" + shim] + incs
        defs = ["-DASIOEXT_USE_BOOST_ASIO"] + [d for d in defs if d != "-DASIOEXT_STANDALONE"]
    objs, procs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, "%s-%d.o" % (var["name"], i))
        flags = fl["cxx"]
        if os.path.basename(s) in fl.get("plain", []): flags = fl["cxx_plain"]
        cmd = ["g++", "-std=c++20", "-pthread", "-w"] + flags + defs + incs + ["-c", s, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    def finish():
        for cmd, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), out.decode(errors="replace")[-6000:]))
                return None
        cmd = ["g++", "-pthread"] + fl["ld"] + objs + ["-o", exe] + fl.get("libs", []) + var.get("libs", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("link failed: %s\n" % r.stdout.decode(errors="replace")[-6000:]); return None
        return exe
    return finish

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    extra = [a for a in sys.argv[1:] if a.startswith("--")]
    spec = CHECKS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="mcbuild-%s-" % prop)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kn = known_for(prop)
    rc = 0
    try:
        variants = [v for v in spec["variants"] if tier in v.get("tiers", ["quick", "thorough"])]
        if os.environ.get("MC_VARIANTS"): variants = [v for v in spec["variants"] if v["name"] in os.environ["MC_VARIANTS"].split(",")] # for development
        fins = [(v, build(prop, spec, v, bdir)) for v in variants]
        exes = [(v, f()) for v, f in fins]
        if any(e is None for _, e in exes): return 2
        tb = time.time() - t0
        results = []
        for v, exe in exes:
            out = os.path.join(bdir, v["name"] + ".json")
            scratch = tempfile.mkdtemp(prefix="mcscratch-")
            env = dict(os.environ, MC_SCRATCH=scratch, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=78:print_stacktrace=0")
            tl = v.get("time", spec.get("time", {"quick": 300, "thorough": 800}))[tier]
            tl = max(20, min(tl, 780 - (time.time() - t0))) # all variants together must end in time
            vt = "quick" if v.get("boost") else tier # the other flavour repeats the quick bounds
            cmd = [exe, "--tier", vt, "--out", out, "--vdir", rdir, "--known", ",".join(kn), "--time-limit", str(tl)] + v.get("args", {}).get(vt, [])
            for a in extra:
                if "=" in a: cmd += a.split("=", 1)
            for attempt in (0, 1): # once more if a process was killed from outside
                r = subprocess.run(cmd, env=env)
                try: j = json.load(open(out))
                except Exception as e:
                    j = {"rc": 2}
                    sys.stderr.write("no result from %s (exit %s): %s\n" % (v["name"], r.returncode, e))
                if j["rc"] != 2: break
            shutil.rmtree(scratch, ignore_errors=True)
            if "executions" not in j: return 2
            results.append((v, j))
            if j["rc"] == 2: rc = 2
            if j["rc"] == 1: rc = 1; break
        write_evidence(prop, tier, spec, results, kn, time.time() - t0, tb)
        for key, text in kn.items():
            hits = sum(j["known"].get(key, 0) for _, j in results)
            if hits: print("KNOWN-FINDING: property=%s %s: %s (seen in %d explored executions)" % (prop, key, text, hits))
        if rc == 1:
            j = results[-1][1]
            print(j["message"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, j["replay"]))
        elif rc == 0:
            print("%s %s: held on %d executions, %d states, %.1f s" % (prop, tier, sum(j["executions"] for _, j in results), sum(j["states"] for _, j in results), time.time() - t0))
        return rc
    finally:
        if "--keep" in extra: print("kept", bdir)
        else: shutil.rmtree(bdir, ignore_errors=True)

def write_evidence(prop, tier, spec, results, kn, wall, tbuild):
    cov = {
        "states": sum(j["states"] for _, j in results),
        "transitions": sum(j["choices"] for _, j in results) + sum(j["steps"] for _, j in results),
        "traces_validated_against_impl": sum(j["executions"] for _, j in results),
        "samples": [s for _, j in results for s in j["samples"] if s][:6] or ["(violation: see replay file)"],
        "exhaustive": all(j["exhaustive"] for _, j in results),
        "max_depth": max(j["max_depth"] for _, j in results),
        "bounds": spec.get("bounds", {}).get(tier, ""),
        "rule": spec.get("rule", "every execution runs the real library code; states are distinct fingerprints of observable state"),
        "runs": [{"variant": v["name"], "executions": j["executions"], "choices": j["choices"], "states": j["states"], "max_depth": j["max_depth"],
                  "exhaustive": j["exhaustive"], "wall_s": j["wall_s"], "cover": j["cover"], "known_hits": j["known"]} for v, j in results],
        "build_s": round(tbuild, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": sum(1 for _, j in results if j["rc"] == 1)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    sys.exit(main())
