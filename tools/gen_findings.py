#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (from /repo's fix: commits) and the open findings listed here."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # commit subject -> property (the first one that sees it)
 "single-precision LGamma": "P04", "even central moments": "P06", "central convolution with an empty": "P08", "FftShift and IfftShift": "P11",
 "multiplying a Rational": "P12", "floor and frac": "P12", "Interval comparison": "P13", "FactoredPolynomial assignment": "P14",
 "growing the real roots": "P14", "a cascade made from": "P15", "CascadedBiquad::order": "P15", "Halfband2Highpass": "P17",
 "Halfband2Bandpass": "P17", "CarlsonRF": "P18", "arithmetic of signals of integers": "P03", "EllipticArcSN": "P18", "EllipticArcCN": "P18", "real Jacobi elliptic": "P18",
 "elliptic designs lost": "P19", "DirectFormII": "P20", "overlap-add with an empty": "P21", "windowed low-pass": "P22",
 "least-squares designs without": "P23", "least-squares designs never": "P23", "least-squares Hilbert designs ignored": "P24",
 "least-squares Hilbert designs without": "P24", "MirrorResponse": "P24", "ShiftResponse left": "P24", "ShiftResponse was": "P24",
 "even length Hilbert": "P24", "Interpolate left": "P26", "returning forms of parametric": "P28", "sawtooth, PWM": "P29", "Bisect lost": "P31",
 "a window function could not replace": "P34",
}
EXTRA = {"Chebyshev1 gain for orders": "P19", "band transforms of systems with more zeros": "P17"}
OPEN = []   # {"property","id","status":"open","what","probe"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
out = list(OPEN)
n = 0
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    what = s[5:]
    ps = [p for k, p in {**PROP, **EXTRA}.items() if what.startswith(k)]
    assert len(ps) == 1, (what, ps)
    n += 1
    out.append({"property": ps[0], "id": f"F{n:02d}", "status": "fixed", "commit": h, "what": what, "entry": f"fixed: property={ps[0]} {h[:12]} {what}"})
json.dump({"findings": out}, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(out))
