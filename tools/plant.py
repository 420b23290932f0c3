#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turns a list of planted-bug descriptions into /verif/seeded/<id>/ and tries each one.

A spec defines BUGS = [dict(id, prop, edits=[(file, old, new[, nth])], needs, breaks, demo)].
The scratch copy is $SEEDWT (default /tmp/seedwt, with its own build tree _b2).
For every bug: the test suite is built and run with the change, demo.sh is run with and without it,
and the property's check is run against the changed copy. Nothing is kept unless the bug is valid."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

WT = os.environ.get("SEEDWT", "/tmp/seedwt")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero otherwise. Run with the repository's root as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
g++ -std=c++20 -O1 -w -I "$PWD/include" -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$work/demo" || exit 2
"$work/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def clean():
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    clean()
    print(sh(["git", "-C", WT, "pull", "-q", "/repo", "HEAD"]).stdout, end="")
    base = subprocess.run(["git", "-C", "/repo", "diff", "-U0", "dc62478"], stdout=subprocess.PIPE, text=True).stdout
    mine = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
    for b in bugs:
        if only and b["id"] not in only:
            continue
        clean()
        def fail(msg):
            print(f"{b['id']}: INVALID {msg}", flush=True)
        bad = None
        for e in b["edits"]:
            f = os.path.join(WT, "include/dspbb", e[0])
            s = open(f).read()
            n = s.count(e[1])
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None):
                bad = f"{n} matches in {e[0]}: {e[1][:80]!r}"
                break
            if nth is None:
                nth = 0
            parts = s.split(e[1])
            s = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
            open(f, "w").write(s)
        if bad:
            fail(bad)
            continue
        diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
        touched = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for t in touched:
            if t and t in mine:
                bad = f"touches a line of a fix: {t[:100]}"
        if bad:
            fail(bad)
            continue
        r = sh(["ninja", "-C", WT + "/_b2", "UnitTest", "-j%s" % os.environ.get("JOBS", "8")])
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if "error" in l]
            fail("build: " + " | ".join(errs[:2])[:400])
            continue
        r = sh([WT + "/_b2/bin/UnitTest", "--rng-seed", "1", "--order", "decl"], timeout=600, cwd="/tmp")
        if r.returncode:
            names = [l for l in r.stdout.splitlines() if l.strip()][-3:]
            heads = re.findall(r"^-{20,}\n(.+)\n", r.stdout, re.M)
            fail("tests: " + str(heads[:3]) + " ".join(names)[:200])
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.cpp", "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        with tempfile.TemporaryDirectory() as t:
            dd = t + "/elsewhere"
            shutil.copytree(d, dd)
            a = sh(["bash", dd + "/demo.sh"], cwd=WT)
            c = sh(["bash", dd + "/demo.sh"], cwd="/repo")
        if a.returncode in (0, 2) or c.returncode != 0:
            fail(f"demo: with={a.returncode} without={c.returncode} " + (a.stdout + c.stdout)[-600:])
            shutil.rmtree(d)
            continue
        env = dict(os.environ, VERIF_REPO=WT, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick")
        r = sh(["python3", VERIF + "/check.py", b["prop"]], env=env, cwd=VERIF, timeout=1800)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        why = [l for l in r.stdout.splitlines() if "FAILED" in l]
        print(f"{b['id']}: valid, {b['prop']} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {(why or [''])[0][:160]}", flush=True)
    clean()

main()
