#!/usr/bin/env python3
"""Decides one property by deterministic simulation: builds the simulator from /repo's working tree,
runs the seeded search, writes evidence/<id>.json.

  check.py C01              quick tier unless VERIF_TIER=thorough; seed from VERIF_SEED
  check.py C01 --replay F   replays a recorded violation
  check.py --build-all      builds every simulator (setup)
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CTHASH_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
JOBS = os.cpu_count() or 4
CXX = shutil.which("g++-14") or shutil.which("g++")

sys.path.insert(0, HERE)
from checks import PROPS, BINARIES, VARIANTS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def read_all(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(d, exts):
    r = []
    for base, _, files in os.walk(d):
        r += [os.path.join(base, f) for f in files if os.path.splitext(f)[1] in exts]
    return r


_repo_key = None
_sim_key = None


def repo_key():
    global _repo_key
    if _repo_key is None:
        files = tree(os.path.join(REPO, "include"), {".hpp", ".h", ".inc", ".ipp", ".hxx", ""})
        files += [f for f in (os.path.join(REPO, "checksum.cpp"),) if os.path.exists(f)]
        _repo_key = read_all(files)
    return _repo_key


def sim_key():
    global _sim_key
    if _sim_key is None:
        _sim_key = read_all(tree(SIM, {".hpp", ".cpp", ".inc"}))
    return _sim_key


class BuildError(Exception):
    pass


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(p.stdout.splitlines()[:60]))


def compile_object(unit, variant):
    """unit: (source, [flags], uses_library, post) -> object path"""
    src, flags, uses_lib = unit["src"], unit.get("flags", []), unit.get("lib", True)
    v = VARIANTS[variant] if uses_lib else VARIANTS["plain"]
    cxx = shutil.which(v.get("cxx", "")) or CXX
    source = src.replace("@REPO@", REPO)
    if not source.startswith("/"):
        source = os.path.join(SIM, source)
    cmd = [cxx] + v["flags"] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
    key = hashlib.sha256("\0".join([sim_key(), repo_key() if uses_lib else "-", source] + cmd + unit.get("post", []) + v.get("post", [])).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, os.path.basename(source).replace(".cpp", "") + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run_cmd(cmd + ["-c", source, "-o", tmp])
        for post in (unit.get("post"), v.get("post")):
            if post:
                run_cmd([a.replace("@OBJ@", tmp) for a in post])
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def prune():
    """keep the build folder small"""
    try:
        files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        files.sort(key=lambda f: os.path.getmtime(f), reverse=True)
        total = 0
        for f in files:
            total += os.path.getsize(f)
            if total > 400 << 20:
                os.unlink(f)
    except OSError:
        pass


def build(wanted):
    """wanted: set of (binary, variant); returns {(binary, variant): path}"""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        # slow units first
        for b, v in wanted:
            for i, u in enumerate(BINARIES[b]["units"]):
                futs[(b, v, i)] = None
        order = sorted(futs, key=lambda k: -BINARIES[k[0]]["units"][k[2]].get("cost", 1))
        once = {}
        for k in order:
            u = BINARIES[k[0]]["units"][k[2]]
            ident = (json.dumps(u, sort_keys=True), k[1] if u.get("lib", True) else "plain")
            if ident not in once:
                once[ident] = ex.submit(compile_object, u, ident[1])
            futs[k] = once[ident]
        for b, v in wanted:
            objs = [futs[(b, v, i)].result() for i in range(len(BINARIES[b]["units"]))]
            key = hashlib.sha256("\0".join(objs + BINARIES[b].get("link", [])).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "%s-%s-%s" % (b, v, key))
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                run_cmd([CXX] + objs + BINARIES[b].get("link", []) + ["-o", tmp])
                os.rename(tmp, exe)
            out[(b, v)] = exe
    prune()
    return out


def run_part(exe, part, seed, tier, tag, runs, workers=JOBS, batch=0, first=0, wall=600, minimise=40):
    out = os.path.join(BUILD, "out-%d-%s-%s.json" % (os.getpid(), part, tag))
    cmd = [exe, "run", "--prop", part, "--seed", str(seed), "--runs", str(runs), "--first", str(first), "--workers", str(workers), "--wall", str(wall),
           "--out", out, "--replay-dir", REPLAYS, "--tag", tag, "--minimise", str(minimise), "--tier", "1" if tier == "thorough" else "0"]
    if batch:
        cmd += ["--batch", str(batch)]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
    except (OSError, ValueError):
        raise BuildError("simulator %s failed (rc %d): %s" % (part, p.returncode, p.stderr[-2000:]))
    r["rc"] = p.returncode
    return r


def header_alone(prop):
    """the distribution header must compile when it is the only thing included"""
    src = os.path.join(REPLAYS, prop + "-header-alone.cpp")
    with open(src, "w") as f:
        f.write("// the single header included on its own must compile\n#include <cthash-single-header.hpp>\nint main() { return static_cast<int>(cthash::sha256{}.update(\"x\").final()[0]) >= 0 ? 0 : 1; }\n")
    cmd = [CXX, "-std=c++23", "-w", "-I" + os.path.join(REPO, "include"), "-fsyntax-only", src]
    fails = 0
    for _ in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        fails += p.returncode != 0
    if fails == 2:
        return " ".join(cmd) + ": " + p.stdout.strip().splitlines()[0] if p.stdout.strip() else "compilation failed", src
    return None


def replay(prop, path):
    if path.endswith(".cpp"):
        if subprocess.run([CXX, "-std=c++23", "-w", "-I" + os.path.join(REPO, "include"), "-fsyntax-only", path]).returncode:
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    head = {}
    with open(path) as f:
        for line in f:
            w = line.split()
            if w and w[0] in ("scenario", "variant"):
                head[w[0]] = w[1]
            if w and w[0] == "plan":
                break
    spec = PROPS[prop]
    variant = head["variant"]
    binary = [p["binary"] for p in spec["parts"] if p["scenario"] == head["scenario"]][0]
    exe = build({(binary, variant)})[(binary, variant)]
    p = subprocess.run([exe, "replay", path, "--verbose"])
    if p.returncode == 1:
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return p.returncode


def main():
    if "--build-all" in sys.argv:
        wanted = {(p["binary"], v) for s in PROPS.values() for p in s["parts"] for v in p["variants"]["quick"]}
        try:
            build(wanted)
        except BuildError as e:
            log(str(e))
            return 2
        log("built %d simulators" % len(wanted))
        return 0
    prop = sys.argv[1]
    spec = PROPS[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if "--replay" in sys.argv:
        return replay(prop, os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    log("property %s tier %s seed %d" % (prop, tier, seed))
    pre = header_alone(prop) if spec.get("header_alone") else None
    if pre:
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the header included on its own", "samples": [pre[0]]},
                       "wall_s": time.time() - t0, "violations": 1}, f)
        log(pre[0])
        log("VIOLATION property=%s replay=%s" % (prop, pre[1]))
        return 1
    try:
        exes = build({(p["binary"], v) for p in spec["parts"] for v in p["variants"][tier]})
    except BuildError as e:
        log("build failed:\n" + str(e))
        return 2
    t_build = time.time() - t0

    results, errors, violation, determinism = [], [], None, []
    for p in spec["parts"]:
        for v in p["variants"][tier]:
            if violation:
                break
            n = p["runs"][tier]
            n = n.get(v, n["*"]) if isinstance(n, dict) else n
            n = max(1, int(n * (scale if not p.get("fixed") else 1)))
            exe = exes[(p["binary"], v)]
            try:
                r = run_part(exe, p["scenario"], seed, tier, v, n, wall=p.get("wall", {}).get(tier, 240 if tier == "quick" else 3600), workers=p.get("workers", JOBS), minimise=0 if p.get("fixed") else 40)
                log("%s [%s]: %d runs, %d events, %d distinct runs, %d states, %.1f s%s" % (p["scenario"], v, r["runs"], r["events"], r["distinct_traces"], r["distinct_states"], r["search_s"], " (wall cap)" if r["wall_capped"] else ""))
                results.append((p, v, r))
                if r["violation"]:
                    violation = r["violation"]
                    log("  %s: %s" % (violation["class"], violation["message"]))
                    continue
                if r["error"]:
                    errors.append(r["error"])
                    log("  error: " + r["error"])
                    continue
                # the same runs again, cut into other processes on another number of workers, must give the same event logs
                if p.get("determinism", 0) and not r["wall_capped"]:
                    m = min(n, p["determinism"])
                    a = run_part(exe, p["scenario"], seed, tier, v, m, workers=JOBS, batch=p.get("det_batch", (61, 17))[0])
                    b = run_part(exe, p["scenario"], seed, tier, v, m, workers=3, batch=p.get("det_batch", (61, 17))[1])
                    same = a["hash_sum"] == b["hash_sum"] and a["runs"] == b["runs"] == m
                    determinism.append({"scenario": p["scenario"], "variant": v, "runs_compared": m, "processes": a["batches"] + b["batches"], "identical": same})
                    if not same:
                        # state of the process (a table built at first use, say) may legitimately differ: told, never an alarm
                        log("  warning: event logs of repeated runs differ (%s %s)" % (p["scenario"], v))
            except BuildError as e:
                errors.append(str(e))
                log(str(e))

    wall = time.time() - t0
    runs = sum(r["runs"] for _, _, r in results)
    search = sum(r["search_s"] for _, _, r in results) or 1e-9
    counters = {}
    for _, _, r in results:
        for k, (n, h) in r["counters"].items():
            c = counters.setdefault(k, [0, 0])
            c[0] += n
            c[1] += h
    faults = {k[6:]: {"injected": n, "runs": h} for k, (n, h) in counters.items() if k.startswith("fault:")}
    probes = {k[6:]: {"hits": n, "runs": h} for k, (n, h) in counters.items() if k.startswith("probe:")}
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": sum(r["distinct_traces"] for _, _, r in results),
        "rule": spec["rule"],
        "samples": [s for _, _, r in results for s in r["samples"]][:6],
        "states": sum(r["distinct_states"] for _, _, r in results),
        "states_measure": spec["states"],
        "simulated_runs": runs,
        "seeds_per_hour": int(runs / search * 3600),
        "simulated_time_ticks": sum(r["events"] for _, _, r in results),
        "simulated_time_note": spec.get("time", "the code has no clock: simulated time is counted in scheduler events (operations, faults and observations)"),
        "faults": faults,
        "probes": probes,
        "configurations": [{"scenario": p["scenario"], "variant": v, "flags": VARIANTS[v]["flags"], "runs": r["runs"], "wall_capped": r["wall_capped"], "search_s": round(r["search_s"], 2)} for p, v, r in results],
        "determinism": determinism,
        "real_components": spec["real"],
        "stub_components": spec["stub"],
        "build_s": round(t_build, 1),
        "errors": errors,
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": coverage,
                "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    log("build %.1f s, total %.1f s, %d runs" % (t_build, wall, runs))
    if violation:
        log("minimised from %d to %d steps" % (violation["steps_before"], violation["steps_after"]))
        log("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if errors:
        log("ERROR: " + "; ".join(errors)[:2000])
        return 2
    log("property %s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
