#!/usr/bin/env python3
"""Decide one property on /repo's working tree.

  check.py C05 [--tier quick|thorough]      run the check
  check.py C05 --replay FILE                rebuild and replay one saved case

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Other: the check could not run.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = max(2, min(8, os.cpu_count() or 2))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COMMON = ["-g1", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "inc"), "-I" + HARNESS, "-w"]

# name -> compiler command; all but "debug" are built like a release, with the library's asserts off
VARIANTS = {
    "san":    ["clang++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"] + SAN,
    "pmr":    ["clang++", "-std=c++20", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
               "-DNIMIDI2_PMR_SYSEX_DATA=1"] + SAN,
    "custom": ["clang++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
               "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"] + SAN,
    "debug":  ["clang++", "-std=c++20", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"] + SAN,
    "tsan":   ["clang++", "-std=c++17", "-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=thread", "-pthread"],
    "gcc":    ["g++", "-std=c++20", "-O2", "-ftrivial-auto-var-init=pattern"],
    "fuzz":   ["clang++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-DPBT_FUZZ",
               "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"],
}


class BuildError(Exception):
    pass


def build(variant, pid, bdir, extra=()):
    """compile the library sources of the working tree plus this property's harness"""
    d = os.path.join(bdir, variant)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    srcs += [os.path.join(HARNESS, pid + ".cpp"), os.path.join(HARNESS, "pbt_main.cpp")]
    defs = {}
    for x in extra:  # facets of other properties, run under this property's configurations
        f = os.path.join(HARNESS, x + ".cpp")
        srcs.append(f)
        defs[f] = ["-Dfacets=facets_" + x, "-Dg_property=g_property_" + x]
    cmd = VARIANTS[variant] + ([] if variant == "debug" else ["-DNDEBUG"])
    objs = [os.path.join(d, "%02d_%s.o" % (i, os.path.basename(s))) for i, s in enumerate(srcs)]

    def one(so):
        r = subprocess.run(cmd + COMMON + defs.get(so[0], []) + ["-c", so[0], "-o", so[1]], capture_output=True, text=True)
        return r.returncode, so[0], r.stderr

    with ThreadPoolExecutor(NCPU) as ex:
        for rc, s, err in ex.map(one, list(zip(srcs, objs))):
            if rc:
                raise BuildError("%s: %s\n%s" % (variant, s, err[-4000:]))
    exe = os.path.join(d, "check")
    r = subprocess.run(cmd + COMMON + objs + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link %s\n%s" % (variant, r.stderr[-4000:]))
    return exe


LIT = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?:[uUlLzZ]*)(?![\w.])")


def literals():
    """integer literals of the sources under test: a dictionary for the generators"""
    vals = set()
    for f in glob.glob(os.path.join(REPO, "inc", "**", "*.h"), recursive=True) + \
             glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True):
        txt = open(f, errors="replace").read()
        txt = re.sub(r"//[^\n]*|/\*.*?\*/", " ", txt, flags=re.S)
        for m in LIT.finditer(txt):
            t = m.group(1).replace("'", "")
            try:
                v = int(t, 16) if t[:2] in ("0x", "0X") else int(t[2:], 2) if t[:2] in ("0b", "0B") else int(t, 10)
            except ValueError:
                continue
            if v < 1 << 64:
                vals.add(v)
        for m in re.finditer(r"'(\\?.)'", txt):
            if len(m.group(1)) == 1:
                vals.add(ord(m.group(1)))
    return vals


def dictionaries(bdir):
    vals = literals()
    base = set()
    bf = os.path.join(HARNESS, "dict.base")
    if os.path.exists(bf):
        base = {int(x) for x in open(bf).read().split()}
    novel = sorted(vals - base)
    a, n = os.path.join(bdir, "dict.all"), os.path.join(bdir, "dict.novel")
    open(a, "w").write("\n".join(map(str, sorted(vals))) + "\n")
    open(n, "w").write("\n".join(map(str, novel)) + "\n")
    return ["--dict", a, "--novel", n]


def run(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          timeout=timeout)


def fuzz(exe_fuzz, exe, bdir, seed, seconds, runs, jobs):
    """coverage-guided search over the same properties; returns (executions, failing message or None)"""
    procs = []
    for j in range(jobs):
        c = os.path.join(bdir, "fuzz%d" % j)
        shutil.rmtree(c, ignore_errors=True)
        os.makedirs(os.path.join(c, "corpus"))
        # two seed inputs: many zero bytes and a ramp, so long histories are reachable at once
        open(os.path.join(c, "corpus", "s0"), "wb").write(bytes([j]) + bytes(64))
        open(os.path.join(c, "corpus", "s1"), "wb").write(bytes([j + 1]) + bytes((i * 37 + 11) & 255 for i in range(256)))
        cmd = [exe_fuzz, "-seed=%d" % (seed * 1000 + j + 1), "-max_len=2048", "-timeout=60", "-rss_limit_mb=4000",
               "-use_value_profile=1", "-print_final_stats=1", "-artifact_prefix=" + c + "/",
               "-max_total_time=%d" % seconds, "corpus"]
        if runs:
            cmd.insert(1, "-runs=%d" % runs)
        log = open(os.path.join(c, "log"), "w")
        procs.append((c, subprocess.Popen(cmd, cwd=c, stdout=log, stderr=log)))
    total, bad = 0, None
    for c, p in procs:
        try:
            p.wait(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", open(os.path.join(c, "log"), errors="replace").read())
        total += int(m[-1]) if m else 0
        if bad is None:
            for art in sorted(glob.glob(c + "/crash-*") + glob.glob(c + "/timeout-*") + glob.glob(c + "/oom-*")):
                r = run([exe, "--bytes", art, "--replay-dir", bdir], 400)
                if r.returncode == 1:
                    bad = r.stdout.strip().splitlines()[-1]
                    break
    for c, _ in procs:
        shutil.rmtree(c, ignore_errors=True)
    return total, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only verify that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.selftest:
        for t in ("clang++", "g++"):
            print(subprocess.run([t, "--version"], capture_output=True, text=True, check=True).stdout.splitlines()[0])
        sys.exit(0)
    pid = a.property
    cfg = json.load(open(os.path.join(HARNESS, "config.json")))
    pc = dict(cfg["default"], **cfg.get(pid, {}))
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)

    variants = list(pc["variants"])
    fuzz_s = pc["fuzz_quick_s"] if a.tier == "quick" else pc["fuzz_thorough_s"]
    side = pc["quick_side"] if a.tier == "quick" else {}  # further builds, run with a fraction of the cases
    variants += [v for v in side if v not in variants]
    if a.tier == "thorough":
        variants += [v for v in pc["thorough_variants"] if v not in variants]
    if a.replay:
        rc = 0
        for v in variants:
            r = run([build(v, pid, bdir, pc.get("extra", [])), "--replay", os.path.abspath(a.replay)], 300)
            print("[%s]\n%s" % (v, r.stdout))
            rc = max(rc, r.returncode)
        sys.exit(rc)
    todo = variants + (["fuzz"] if fuzz_s else [])
    try:
        with ThreadPoolExecutor(len(todo)) as ex:
            exes = dict(zip(todo, ex.map(lambda v: build(v, pid, bdir, pc.get("extra", [])), todo)))
    except BuildError as e:
        print("BUILD FAILED: %s" % e)
        sys.exit(2)
    dic = dictionaries(bdir)
    if "tsan" in variants:  # needs a memory layout the kernel may not offer
        r = run([exes["tsan"], "--probe", "1"], 60)
        if r.returncode:
            print("note: the thread sanitizer does not run here, skipped\n" + r.stdout[:300])
            variants.remove("tsan")

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "facets": {}}
    violation, truncated = None, False
    for v in variants:
        res = {}
        for attempt in range(2):
            out = os.path.join(bdir, "result.%s.json" % v)
            limit = 300 if a.tier == "quick" else 3600
            r = run([exes[v], "--tier", a.tier, "--seed", str(a.seed), "--workers", str(NCPU), "--replay-dir", bdir,
                     "--out", out, "--time-limit", str(limit), "--scale", str(a.scale * side.get(v, 1))] + dic, limit + 400)
            if r.returncode not in (0, 1):
                print(r.stdout)
                print("runner error %d" % r.returncode)
                sys.exit(2)
            res = json.load(open(out))
            if not res["irreproducible"]:
                break
            print(r.stdout)
        if res["irreproducible"]:
            print("a failure was seen twice but does not replay: no answer")
            sys.exit(2)
        truncated |= res["truncated"]
        for f in res["facets"]:
            key = f["name"] if len(variants) == 1 else v + "/" + f["name"]
            cov["facets"][key] = {k: f[k] for k in ("cases", "nontrivial", "distinct", "enumerated", "labels")}
            cov["evaluations"] += f["cases"]
            if v == variants[0]:
                cov["distinct_nontrivial"] += f["distinct"]
                cov["samples"] += ["%s: %s" % (f["name"], s) for s in f["samples"][:2]]
                cov["rule"] += "%s: %s. " % (f["name"], f["rule"])
        if r.returncode == 1:
            violation = "[%s] %s" % (v, res["violation"])
            break
    if violation is None and fuzz_s:
        n, bad = fuzz(exes["fuzz"], exes["san"] if "san" in variants else exes[variants[0]], bdir, a.seed, fuzz_s,
                      pc["fuzz_quick_runs"] if a.tier == "quick" else 0, NCPU)
        cov["fuzz_executions"] = n
        cov["evaluations"] += n
        if n < 1000 and not bad:
            print("note: the coverage-guided search executed only %d cases" % n)
        if bad:
            violation = "[fuzz] " + bad

    cov["rule"] = ("Cases are generated from VERIF_SEED by the harness' choice-sequence generators (uniform, boundary-, "
                   "bit-pattern- and source-literal-biased draws); a case counts once per distinct choice list if it is "
                   "non-trivial, i.e.: ") + cov["rule"]
    cov["truncated_by_time_limit"] = truncated
    cov["build_variants"] = variants
    if not cov["samples"]:
        cov["samples"] = [violation or "none"]
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": pc.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    replay_src = os.path.join(bdir, pid + ".replay")
    replay_dst = os.path.join(VERIF, "replays", "%s-seed%d.replay" % (pid, a.seed))
    if violation:
        os.makedirs(os.path.dirname(replay_dst), exist_ok=True)
        shutil.copyfile(replay_src, replay_dst)
    for v in todo:
        shutil.rmtree(os.path.join(bdir, v), ignore_errors=True)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" %
          (pid, a.tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if violation:
        print(violation)
        print("\n".join(l[:300] for l in open(replay_dst, errors="replace").read().splitlines()[:40]))
        print("VIOLATION property=%s replay=%s" % (pid, replay_dst))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
