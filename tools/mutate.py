#!/usr/bin/env python3
"""Mutation analysis of the checks: applies small syntactic changes to /repo's headers in a scratch copy, one at a time, and
runs the (plain) harness of the property that owns the header.  Survivors are either equivalent changes or gaps.

usage: mutate.py OUT.jsonl [--files REGEX] [--sample N] [--jobs J] [--seed S] [--repeat OUT.jsonl (only earlier survivors)]
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, H)
from configs import PROPERTIES  # noqa: E402
OWN = {
 "Filtering/FIR.hpp": "P22 P23 P24 P34", "Filtering/FIR/BandTransforms.hpp": "P24 P22", "Filtering/FIR/Descs.hpp": "P34 P22 P23", "Filtering/FIR/Filter.hpp": "P21",
 "Filtering/FIR/LeastSquares.hpp": "P23", "Filtering/FIR/Windowed.hpp": "P22", "Filtering/FilterUtility.hpp": "P34 P32", "Filtering/IIR.hpp": "P19 P34",
 "Filtering/IIR/BandTransforms.hpp": "P17", "Filtering/IIR/Butterworth.hpp": "P19", "Filtering/IIR/Chebyshev.hpp": "P19", "Filtering/IIR/Elliptic.hpp": "P19",
 "Filtering/IIR/Descs.hpp": "P34 P19", "Filtering/IIR/Filter.hpp": "P20", "Filtering/IIR/Realizations.hpp": "P20", "Filtering/MeasureFilter.hpp": "P32",
 "Filtering/Polyphase.hpp": "P25", "Filtering/Resample.hpp": "P26 P27", "Filtering/Windowing.hpp": "P28", "Generators/Spaces.hpp": "P30", "Generators/Waveforms.hpp": "P29",
 "Kernels/Convolution.hpp": "P08 P33", "Kernels/Functors.hpp": "P33 P05 P03", "Kernels/Math.hpp": "P04 P05", "Kernels/Numeric.hpp": "P33 P05", "Kernels/Utility.hpp": "P33 P05 P08",
 "LTISystems/DiscretizationTransforms.hpp": "P16", "LTISystems/Systems.hpp": "P15", "Math/Convolution.hpp": "P08", "Math/DotProduct.hpp": "P07",
 "Math/EllipticFunctions.hpp": "P18", "Math/FFT.hpp": "P10 P11", "Math/Functions.hpp": "P04", "Math/OverlapAdd.hpp": "P09", "Math/Polynomials.hpp": "P14",
 "Math/Rational.hpp": "P12", "Math/RootTransforms.hpp": "P16 P17", "Math/Solvers.hpp": "P31", "Math/Statistics.hpp": "P06 P05", "Primitives/Signal.hpp": "P01",
 "Primitives/SignalArithmetic.hpp": "P03", "Primitives/SignalView.hpp": "P02", "Utility/Interval.hpp": "P13", "Utility/Numbers.hpp": "P29 P12 P13",
}
RULES = [
 (r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
 (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "), (r"(?<=[\w)\]]) \* (?=[\w(\-])", " / "), (r"(?<=[\w)\]]) / (?=[\w(])", " * "),
 (r" % ", " / "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "), (r"/= ", "*= "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bmin\b(?=\()", "max"), (r"\bmax\b(?=\()", "min"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])4(?![\w.])", "3"),
 (r"\+\+(?=\w)", "--"), (r"\bfirst\b", "last"), (r"\bleft\b", "right"), (r"\breal\(", "imag("), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bbegin\(\)", "end()"), (r"(?<![\w.])0\.5f?\b", "0.6"), (r"!(?=[\w(])", ""),
 (r"\bceil\b", "floor"), (r"\bfloor\b", "ceil"), (r"^(\t+)(?!return|using|const|auto|typename|template|static|public|private|std::\w+<|T \w|size_t|break|case|default|struct|throw)[\w:*.\[\](>\-]+.*;$", r"\1;"),
]
SKIP = re.compile(r"^\s*(//|#|template|using|static_assert|assert|\[\[maybe|namespace|typedef|class|struct|friend|public|private|std::enable_if|-> )|enable_if|is_same_v|constexpr auto [dD]omain|noexcept\(|throw ")


def mutants(files):
    diff = subprocess.run(["git", "-C", REPO, "diff", "-U0", "dc62478", "HEAD"], capture_output=True, text=True).stdout
    mine, cur = set(), None
    for l in diff.splitlines():
        if l.startswith("+++ b/"):
            cur = l[6:]
        m = re.match(r"@@ -\S+ \+(\d+)(?:,(\d+))?", l)
        if m:
            mine |= {(cur, int(m[1]) + i) for i in range(int(m[2] or 1))}
    out = []
    for f in OWN:
        if not re.search(files, f):
            continue
        for i, line in enumerate(open(f"{REPO}/include/dspbb/{f}").read().split("\n"), 1):
            if SKIP.search(line) or (f"include/dspbb/{f}", i) in mine:
                continue
            code = line.split("//")[0]
            for r, (pat, rep) in enumerate(RULES):
                for k, m in enumerate(re.finditer(pat, code)):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    out.append({"file": f, "line": i, "rule": r, "k": k, "old": line.strip(), "new": new.strip(), "_new": new})
    return out


def run(mut, d, jobs_each):
    inc = f"{d}/include"
    path = f"{inc}/dspbb/{mut['file']}"
    src = open(f"{REPO}/include/dspbb/{mut['file']}").read().split("\n")
    src[mut["line"] - 1] = mut["_new"]
    open(path, "w").write("\n".join(src))
    res = {k: v for k, v in mut.items() if k != "_new"}
    try:
        for pid in OWN[mut["file"]].split():
            srcf = f"{H}/harness/{PROPERTIES[pid]['src']}"
            c = subprocess.run(["g++", "-std=c++20", "-w", "-O1", "-DPBT_PART=0", "-DPBT_PARTS=1", "-I", inc, "-isystem", "/usr/include/eigen3", "-I", f"{H}/harness", srcf, "-o", f"{d}/t"], capture_output=True, text=True)
            if c.returncode:
                res["result"] = "nocompile"
                return res
            try:
                r = subprocess.run([f"{d}/t", "--seed", "1", "--scale", "0.5", "--workers", "2", "--max-seconds", "30", "--case-cpu", "10"], capture_output=True, text=True, timeout=150, cwd=d)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, "timeout"
            if rc:
                res["result"] = "killed"
                res["by"] = pid
                res["how"] = next((l for l in o.splitlines() if "FAILED" in l), o[:80])[:100]
                return res
        res["result"] = "survived"
        return res
    finally:
        shutil.copy(f"{REPO}/include/dspbb/{mut['file']}", path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=5)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--repeat")
    a = ap.parse_args()
    ms = mutants(a.files)
    if a.repeat:
        keep = {(r["file"], r["old"], r["rule"], r["k"]) for r in map(json.loads, open(a.repeat)) if r["result"] == "survived"}
        ms = [m for m in ms if (m["file"], m["old"], m["rule"], m["k"]) in keep]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["rule"], r["k"]) for r in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m["file"], m["line"], m["rule"], m["k"]) not in done]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    fo = open(a.out, "a")

    def work():
        d = tempfile.mkdtemp(prefix="mutw.", dir="/tmp")
        shutil.copytree(f"{REPO}/include", f"{d}/include")
        try:
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                r = run(m, d, 1)
                with lock:
                    fo.write(json.dumps(r) + "\n")
                    fo.flush()
        finally:
            shutil.rmtree(d)
    ts = [threading.Thread(target=work) for _ in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
