#!/usr/bin/env python3
"""Mutation campaign: small textual changes of the library, one at a time, each in its own copy.

    mutate.py GROUP COUNT SEED WORKERS OUT [FILTER]

For every mutant that compiles, the quick checks of the group are run; those that no check of the group reports
are written to OUT (one JSON object per line, verdict "survived") for inspection.
Works on copies under /tmp/mut; neither /repo nor /verif is touched.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ROOT = "/tmp/mut"
R = "resonanceReconstruction/"
SLICE = re.compile(r"^(src/(penetrationShift|phaseShift|channelRadius|neutronWaveNumber)|rmatrix/src/(calculate|coh3|horner|possible)|rmatrix/ChannelQuantumNumbers|rmatrix/src/make(Penet|Shift|Phase))")


def group_of(path):
    p = path[len(R):] if path.startswith(R) else path
    if SLICE.match(p) and "neutronWaveNumber" not in p and "channelRadius" not in p:
        return "slice"
    if p.startswith("rmatrix/legacy/"):
        return "legacy"
    if p.startswith(("rmatrix/src/", "rmatrix/Reconstructor")):
        return "endf"
    if p.startswith("rmatrix"):
        return "rmat"
    return "old"


DEAD = {"coh3-asympt.hpp": 270, "coh3-extwave.hpp": 122}
RULES = [
    (r"(?<=[\w\)\]\s])\+(?=\s)", ["-"]), (r"(?<=[\w\)\]]\s)-(?=\s)", ["+"]),
    (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]),
    (r"(?<=\s)<(?=\s)", ["<=", ">"]), (r"(?<=\s)<=(?=\s)", ["<"]), (r"(?<=\s)>(?=\s)", [">=", "<"]), (r"(?<=\s)>=(?=\s)", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]),
    (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]),
    (r"\bstd::sqrt\b", [""]), (r"\bstd::abs\b", [""]), (r"\bstd::pow\b", ["std::fmax"]),
    (r"\bstd::sin\b", ["std::cos"]), (r"\bstd::cos\b", ["std::sin"]),
    (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"\bbegin\(\)", ["end()"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"(?<![\w.])(\d+)(?![\w.])", None), (r"(?<![\w.])(\d+\.\d*)(?![\w])", None),
    (r"^\s*(throw\b.*;)", [""]), (r"^(\s*)([\w.\[\]\(\)]+ [*+-]?= [^;]*;|[\w.]+\([^;]*\);)\s*$", ["DELETE"]),
    (r"!(?=\s*[\w(])", [""]), (r"\bcontinue\b", ["break"]),
    (r"\bif\s*\(", ["if ( false && ", "if ( true || "]),
    (r"\bpenetrability\b", ["shiftFactor"]), (r"\bshiftFactor\b", ["penetrability"]),
    (r"\bparticle\(\)", ["residual()"]), (r"\bresidual\(\)", ["particle()"]),
]


def mutants(group, pattern):
    out = []
    base = os.path.join(REPO, "src")
    for root, _, files in os.walk(base):
        if "/test" in root[len(base):]:
            continue
        for f in sorted(files):
            path = os.path.join(root, f)
            rel = os.path.relpath(path, base)
            if not f.endswith(".hpp") or group_of(rel) != group or (pattern and not re.search(pattern, rel)):
                continue
            text = open(path).read()
            clean = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
            clean = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), clean)
            pos = 0
            for number, line in enumerate(clean.split("\n"), 1):
                if number > DEAD.get(f, 10**9):  # functions for closed charged channels, which nothing calls
                    break
                s = line.strip()
                if s and not s.startswith(("#", "namespace", "template", "using", "Log::", "std::string")) and "Log::" not in s:
                    masked = re.sub(r'"[^"]*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', line)
                    for rule, subs in RULES:
                        for m in re.finditer(rule, masked):
                            a, b = m.start(), m.end()
                            old = m.group(0)
                            if subs is None:
                                v = float(old)
                                new = ["%d" % (int(old) + 1), "%d" % max(0, int(old) - 1)] if "." not in old else [repr(v * 1.01) if v else "0.01"]
                                if "." in old and v in (1.0, 2.0, 0.5):
                                    new.append(repr(v + 1))
                            elif subs == ["DELETE"]:
                                new = [m.group(1)]
                            else:
                                new = subs
                            for n in new:
                                if n != old:
                                    out.append((rel, pos + a, pos + b, n, line.strip()))
                pos += len(line) + 1
    return out


def run_one(args):
    k, group, (rel, a, b, new, line), seed = args
    where = os.path.join(ROOT, "%s-%d-%d" % (group, seed, k))
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    res = dict(file=rel, line=line, new=new)
    try:
        subprocess.run(["cp", "-a", os.path.join(REPO, "src"), where], check=True)
        path = os.path.join(where, "src", rel)
        text = open(path).read()
        mutated = text[:a] + new + text[b:]
        open(path, "w").write(mutated)
        la = text.rfind("\n", 0, a) + 1
        res["at"] = text.count("\n", 0, a) + 1
        e = mutated.find("\n", a)
        res["mutated"] = mutated[la:e].strip()
        sys.path.insert(0, VERIF)
        env = dict(os.environ, VERIF_REPO=where)
        code = ("import sys;sys.path.insert(0,%r);import run;import os;w=%r;run.literals(os.path.join(w,'literals'));"
                "e=run.compile_(%r,w);sys.exit(3 if e else 0)" % (VERIF, where, group))
        r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
        if r.returncode:
            res["verdict"] = "no-compile" if r.returncode == 3 else "error " + r.stderr[-300:]
            return res
        import run
        caught = []
        order = run.GROUPS[group]
        for scale, p in [("0.05", p) for p in order] + [("1", p) for p in order]:
            try:
                r = subprocess.run([os.path.join(where, "bin"), "--property", p, "--tier", "quick", "--seed", "1", "--evidence", where + "/ev.json",
                                    "--replay-dir", where + "/rep", "--known", VERIF + "/known-findings.txt", "--literals", where + "/literals", "--scale", scale, "--jobs", "4"],
                                   capture_output=True, text=True, timeout=300, env=dict(env, ASAN_OPTIONS="detect_leaks=0"))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                caught.append((p, rc))
                break
        res["verdict"] = "killed" if caught else "survived"
        res["by"] = caught
        return res
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    group, count, seed, workers, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    pattern = sys.argv[6] if len(sys.argv) > 6 else None
    ms = mutants(group, pattern)
    random.Random(seed).shuffle(ms)
    print(group, len(ms), "possible mutants", flush=True)
    ms = ms[:count]
    os.makedirs(ROOT, exist_ok=True)
    tally = {}
    with concurrent.futures.ProcessPoolExecutor(workers) as pool, open(out, "w") as f:
        for res in pool.map(run_one, [(k, group, m, seed) for k, m in enumerate(ms)]):
            v = res["verdict"].split()[0]
            tally[v] = tally.get(v, 0) + 1
            f.write(json.dumps(res) + "\n")
            f.flush()
    print(tally)


if __name__ == "__main__":
    main()
