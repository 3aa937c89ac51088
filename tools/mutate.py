#!/usr/bin/env python3
"""Mutation campaign over scratch copies of /repo: which small changes do the harnesses not notice?

  mutate.py run OUT.jsonl [--n N] [--seed S] [--files a,b] [--jobs J] [--scale X]

Every mutant is built (all harnesses but C22's configurations, in one program) and run; survivors are listed in OUT.jsonl
for manual triage. Nothing in /repo is touched.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = VERIF + "/harness"
BASE = "/tmp/mutants"
PROPS = ["C%02d" % i for i in range(1, 22)]
CC = ["clang++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-DNDEBUG",
      "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-g0"]

REL = {
    "capability_inquiry": "C17 C18 C19 C20",
    "universal_packet": "C13 C14 C12 C15 C07 C11 C16 C05 C01",
    "stream_message": "C16 C14",
    "types.h": "C08 C09 C10 C12 C11 C20 C21",
    "midi1_byte_stream": "C05 C06 C07",
    "universal_sysex": "C20 C18 C17",
    "midi2_channel": "C12 C14 C11",
    "midi1_channel": "C12 C14 C11 C07",
    "inc/midi/channel_voice": "C12 C14 C11",
    "manufacturer": "C20 C01 C02 C03",
    "flex": "C15 C14",
    "collector": "C03 C04 C01 C02",
    "extended_data": "C15 C14 C02 C03",
    "inc/midi/data_message": "C15 C14 C01 C07",
    "sysex.h": "C20 C01 C02 C03 C05 C17 C18",
    "src/sysex.cpp": "C01 C02 C03 C07 C20",
    "system_message": "C15 C14 C07",
    "utility": "C15 C14 C21",
    "jitter": "C21 C15",
}

SWAPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=])<(?![<=])", ["<="]),
         (r"(?<![>\-])>(?![>=])", [">="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+\w(,=] )(?<!\+)\+(?![+=])", ["-"]),
         (r"(?<=[\w)\]] )-(?= )", ["+"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<![&\w])& ", ["| "]), (r"(?<= )\|(?= )", ["&", "^"]),
         (r"\|=", ["=", "&="]), (r"\+=", ["-=", "="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"\+\+", ["--"]), (r"(?<=\()!(?=\w)", [""]), (r"\bbreak;", [";"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"])]
NUM = re.compile(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|\d+)(?=[uU]?\b)(?![.'])")


def nums(t):
    if t[:2] in ("0x", "0X"):
        d = t[2:].replace("'", "")
        v = int(d, 16)
        c = [v ^ (1 << (v.bit_length() - 1) if v else 1), v ^ 1, v << 1, v + 1]
        return ["0x%X" % x for x in set(c) if x != v and x < 1 << 32]
    v = int(t)
    return [str(x) for x in {v + 1, v - 1, v * 2} if x != v and x >= 0]


def candidates(f, txt):
    out = []
    lines = txt.split("\n")
    off = 0
    comment = False
    for n, l in enumerate(lines):
        code = re.sub(r"//.*", "", l)
        if "/*" in code:
            comment = True
        skip = comment or code.lstrip().startswith("#") or "assert" in code or "reserve" in code or "make_with_payload_size(" in code or re.match(r"\s*constexpr \w+_t \w+ *= *0?x?[0-9A-Fa-f]+;", code) or "template" in code or not code.strip() \
            or code.lstrip().startswith(("using", "namespace", "friend", "operator"))
        if "*/" in code:
            comment = False
        if not skip:
            # blank string literals
            c2 = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "\x00" * (len(m.group(0)) - 2) + '"', code)
            for pat, reps in SWAPS:
                for m in re.finditer(pat, c2):
                    if "operator" in c2 and pat not in (r"&&",):
                        continue
                    if m.group(0) in ("<", ">") and re.search(r"(optional|vector|cast|array|numeric_limits|unique_ptr|is_\w+|enable_if\w*|function)<", c2):
                        continue
                    for r in reps:
                        out.append((n, m.start(), m.end(), r))
            for m in NUM.finditer(c2):
                for r in nums(m.group(1)):
                    out.append((n, m.start(1), m.end(1), r))
            s = code.strip()
            if s.endswith(";") and re.match(r"[\w.\->\[\]():]+(\s*[|&+\-^]?=\s|\(|\+\+)", s) and not re.match(
                    r"(return|const|constexpr|auto|static|std::|bool|u?int\d*|size_t|inline|explicit|case)\b", s) and "(const " not in s:
                out.append((n, len(code) - len(code.lstrip()), len(code.rstrip()), ";"))
            m = re.search(r"\bif \((.*)\)\s*$", c2)
            if m and "constexpr" not in c2 and ";" not in c2:
                out.append((n, m.start(1), m.end(1), "!(" + code[m.start(1):m.end(1)] + ")"))
            m = re.search(r"\breturn ([^;{}]+);", c2)
            if m and m.group(1) not in ("true", "false", "*this"):
                pass
    return [(f,) + c for c in out]


def apply(txt, c):
    _, n, a, b, r = c
    lines = txt.split("\n")
    old = lines[n]
    lines[n] = old[:a] + r + old[b:]
    return "\n".join(lines), old.strip(), lines[n].strip()


def harnesses(f):
    """harness files that can see the file"""
    for k, v in REL.items():
        if k in f:
            return v.split()
    return PROPS


def one(job):
    idx, c, srcs, scale, hs = job
    d = "%s/%d" % (BASE, idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run("cp -a %s/pristine/inc %s/pristine/src %s/" % (BASE, BASE, d), shell=True, check=True)
        txt, old, new = apply(srcs[c[0]], c)
        open(d + "/" + c[0], "w").write(txt)
        res = {"file": c[0], "line": c[1] + 1, "old": old, "new": new}
        inc = ["-I" + d + "/inc", "-I" + H]
        # is it compilable at all?
        r = subprocess.run(CC + inc + ["-fsyntax-only", d + "/src/capability_inquiry.cpp"], capture_output=True)
        objs = []
        todo = [(s, []) for s in sorted(glob.glob(d + "/src/*.cpp"))]
        todo += [(H + "/%s.cpp" % p, ["-Dfacets=facets_" + p, "-Dg_property=g_property_" + p]) for p in hs]
        agg = d + "/agg.cpp"
        open(agg, "w").write('#include "pbt.h"\n#include <cstring>\n#include <cstdlib>\nnamespace pbt {\n' + "".join("std::vector<Facet> facets_%s();\n" % p for p in hs) +
                             'const char* g_property = "ALL";\nstd::vector<Facet> facets() { std::vector<Facet> r;\n' +
                             "".join("if (!strcmp(getenv(\"PROP\"), \"%s\")) for (auto& f : facets_%s()) r.push_back(f);\n" % (p, p) for p in hs) + "return r; }\n}\n")
        todo += [(agg, []), (H + "/pbt_main.cpp", [])]
        for i, (s, defs) in enumerate(todo):
            o = "%s/%d.o" % (d, i)
            pre = "%s/%s.o" % (BASE, os.path.basename(s))
            if s == H + "/pbt_main.cpp":
                if os.path.exists(pre):
                    objs.append(pre)
                    continue
            r = subprocess.run(CC + inc + defs + ["-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                res["result"] = "invalid"
                return res
            objs.append(o)
        exe = d + "/exe"
        r = subprocess.run(CC + objs + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            res["result"] = "invalid"
            return res
        res["by"], res["notby"], res["other"] = [], [], {}
        for p in hs:
            try:
                r = subprocess.run([exe, "--tier", "quick", "--seed", "1", "--workers", "2", "--replay-dir", d, "--out", d + "/out",
                                    "--time-limit", "300", "--scale", str(scale)], capture_output=True, text=True, timeout=600,
                                   env=dict(os.environ, PROP=p))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                res["by"].append(p)
            elif rc == 0:
                res["notby"].append(p)
            else:
                res["other"][p] = rc
        res["result"] = "killed" if res["by"] else "SURVIVED" if not res["other"] else "other"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "list"])
    ap.add_argument("out", nargs="?")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--scale", type=float, default=0.1)
    a = ap.parse_args()
    files = a.files.split(",") if a.files else [os.path.relpath(f, "/repo") for f in sorted(glob.glob("/repo/inc/midi/*.h") + glob.glob("/repo/src/*.cpp"))]
    files = [f for f in files if "stdout" not in f]
    srcs = {f: open("/repo/" + f).read() for f in files}
    cands = []
    for f in files:
        cands += candidates(f, srcs[f])
    if a.cmd == "list":
        from collections import Counter
        print(Counter(c[0] for c in cands), len(cands))
        return
    os.makedirs(BASE, exist_ok=True)
    os.makedirs(BASE + "/pristine", exist_ok=True)
    subprocess.run("git -C /repo archive HEAD inc src | tar x -C %s/pristine" % BASE, shell=True, check=True)
    random.Random(a.seed).shuffle(cands)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    sel = []
    for c in cands:
        _, _, new = apply(srcs[c[0]], c)
        if (c[0], c[1] + 1, new) not in done:
            sel.append(c)
    sel = sel[:a.n]
    subprocess.run(CC + ["-I/repo/inc", "-I" + H, "-c", H + "/pbt_main.cpp", "-o", BASE + "/pbt_main.cpp.o"], check=True)
    cnt = {}
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for r in ex.map(one, [(i, c, srcs, a.scale, harnesses(c[0])) for i, c in enumerate(sel)]):
            cnt[r["result"]] = cnt.get(r["result"], 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(cnt)


main()
