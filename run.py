#!/usr/bin/env python3
"""Builds the harness of a property from /repo's current working tree and runs its generated-input search.

    run.py <property> quick|thorough       run the check (VERIF_SEED selects the seed, default 1)
    run.py --replay <file>                 re-run one saved counterexample
    run.py --build-all                     build every harness (setup)

Exit status: 0 the property held on everything explored, 1 a violation (with a VIOLATION line),
2 the harness could not be built or run (no answer).
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")

# harness -> properties it decides
GROUPS = {
    "slice": ["C01", "C02", "C03", "C04", "C05", "C06"],
    "rmat": ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C30"],
    "legacy": ["C15", "C16", "C17"],
    "old": ["C18", "C19"],
    "endf": ["C20", "C21", "C22", "C23", "C24", "C27", "C28", "C29"],
    "threads": ["C25"],
    "objects": ["C26"],
}
SANITIZE = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COMMON = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]  # what is not initialised is garbage, every time
# harness -> include lines of rmatrix.hpp that it does not need (only to save compile time; if the cut
# version does not compile, the complete one is used)
CUT = {group: ["src/make", "src/fromENDF", "Reconstructor"] for group in ("rmat", "legacy", "old", "objects")}
FLAGS = {"slice": SANITIZE}


def group_of(prop):
    for group, props in GROUPS.items():
        if prop in props:
            return group
    sys.exit("unknown property " + prop)


def sources():
    out = []
    for base, _, files in os.walk(SRC):
        if "/test" in base[len(SRC):] or base.endswith("/resources"):
            continue
        out += [os.path.join(base, f) for f in files if f.endswith((".hpp", ".cpp", ".h"))]
    return sorted(out)


def digest(group):
    h = hashlib.sha256()
    names = sources()
    for base in ("harness", "shim", "slice"):
        for root, _, files in os.walk(os.path.join(VERIF, base)):
            names += sorted(os.path.join(root, f) for f in files if not f.endswith(".pyc"))
    names.append(os.path.abspath(__file__))
    for n in names:
        h.update(n.encode() + b"\0")
        with open(n, "rb") as f:
            h.update(f.read() + b"\0")
    h.update(group.encode())
    return h.hexdigest()[:16]


def literals(path):
    """The numeric literals of the code under test, as interesting values for the generators."""
    values = set()
    number = re.compile(r"(?<![\w.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)")
    for n in sources():
        with open(n, errors="replace") as f:
            text = f.read()
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//.*", " ", text)
        text = re.sub(r'"[^"\n]*"', " ", text)
        for m in number.finditer(text):
            try:
                x = float(m.group(1))
            except ValueError:
                continue
            if x != 0 and abs(x) < 1e300:
                values.add(x)
    with open(path, "w") as f:
        f.write("\n".join(repr(x) for x in sorted(values)) + "\n")


def compile_(group, where):
    """Compiles into where/bin; returns an error text or None."""
    source = os.path.join(VERIF, "harness", group + ".cpp")
    flags = FLAGS.get(group, [])
    tail = ["-I", SRC, "-isystem", "/usr/include/eigen3", "-I", os.path.join(VERIF, "harness"), source, "-o", os.path.join(where, "bin")]
    if group == "slice":
        gen = os.path.join(where, "gen")
        r = subprocess.run([sys.executable, os.path.join(VERIF, "slice", "gen.py"), SRC, gen], capture_output=True, text=True)
        if r.returncode:
            return r.stderr
        attempts = [["-I", gen]]
    else:
        shim = ["-I", os.path.join(VERIF, "shim")]
        attempts = [shim]
        if CUT.get(group):
            cut = os.path.join(where, "cut")
            os.makedirs(os.path.join(cut, "resonanceReconstruction"), exist_ok=True)
            shutil.copy(os.path.join(SRC, "resonanceReconstruction.hpp"), cut)
            with open(os.path.join(SRC, "resonanceReconstruction/rmatrix.hpp")) as f:
                lines = f.read().split("\n")
            pattern = re.compile(r'\s*#\s*include\s+"resonanceReconstruction/rmatrix/(%s)' % "|".join(CUT[group]))
            with open(os.path.join(cut, "resonanceReconstruction/rmatrix.hpp"), "w") as f:
                f.write("\n".join("" if pattern.match(line) else line for line in lines))
            attempts.insert(0, ["-I", cut] + shim)
    error = ""
    for a in attempts:
        r = subprocess.run(COMMON + flags + a + tail, capture_output=True, text=True)
        if r.returncode == 0:
            return None
        error = r.stderr
    return error


def build(group):
    """Returns the directory with the harness built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    key = group + "-" + digest(group)
    where = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, group + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(where, "done")):
            return where
        for old in os.listdir(BUILD):
            if old.startswith(group + "-"):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(where)
        literals(os.path.join(where, "literals"))
        error = compile_(group, where)
        if error is not None:
            print("the harness %s does not compile against %s:\n%s" % (group, SRC, error[:6000]), file=sys.stderr)
            sys.exit(2)
        open(os.path.join(where, "done"), "w").close()
    return where


def main():
    args = sys.argv[1:]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0")
    if args == ["--build-all"]:
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            codes = list(pool.map(lambda g: subprocess.run([sys.executable, os.path.abspath(__file__), "--build", g]).returncode, GROUPS))
        sys.exit(1 if any(codes) else 0)
    if len(args) == 2 and args[0] == "--build":
        build(args[1])
        return
    if len(args) == 2 and args[0] == "--replay":
        with open(args[1]) as f:
            prop = re.search(r"^property: (\S+)", f.read(), re.M).group(1)
        where = build(group_of(prop))
        sys.exit(subprocess.run([os.path.join(where, "bin"), "--literals", os.path.join(where, "literals"), "--replay", args[1]], env=env).returncode)
    prop, tier = args[0], args[1]
    extra = args[2:]
    where = build(group_of(prop))
    evidence, replays = os.path.join(VERIF, "evidence"), os.path.join(VERIF, "replays")
    os.makedirs(evidence, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    r = subprocess.run([os.path.join(where, "bin"), "--property", prop, "--tier", tier, "--seed", seed,
                        "--evidence", os.path.join(evidence, prop + ".json"), "--replay-dir", replays,
                        "--known", os.path.join(VERIF, "known-findings.txt"),
                        "--literals", os.path.join(where, "literals")] + extra, env=env)
    sys.exit(r.returncode if r.returncode in (0, 1) else 2)


if __name__ == "__main__":
    main()
