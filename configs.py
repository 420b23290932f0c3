"""Build configurations and the harness of each property."""
SAN = ["-O1", "-g1", "-fsanitize=address,signed-integer-overflow,bounds,shift,integer-divide-by-zero,return,float-cast-overflow", "-fno-sanitize-recover=all"]
CONFIGS = {
    # As the repository's own build: optimised, assertions live, baseline SIMD (SSE2).
    "plain": {"cxx": "g++", "flags": ["-O2"], "scale": 1.0, "time_share": 0.55, "case_cpu": 20},
    # Address and undefined-behaviour sanitizers.
    "asan": {"cxx": "g++", "flags": SAN, "scale": 0.12, "time_share": 0.25, "case_cpu": 60},
    # Wider vector registers: another remainder structure in every kernel.
    "avx2": {"cxx": "g++", "flags": ["-O2", "-mavx2", "-ffp-contract=off"], "scale": 0.4, "time_share": 0.2, "case_cpu": 20, "needs_cpu": "avx2"},
    # Race detector (only where there are threads).
    "tsan": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=thread", "-pthread"], "scale": 0.3, "time_share": 0.4, "case_cpu": 120},
    # Other compiler.
    "clang": {"cxx": "clang++", "flags": ["-O2"], "scale": 0.4, "time_share": 0.2, "case_cpu": 20},
    # Fused multiply-add everywhere: other rounding. Not part of a check; guards the oracles' error bounds against false alarms.
    "fma": {"cxx": "g++", "flags": ["-O3", "-mavx2", "-mfma", "-ffp-contract=fast"], "scale": 1.0, "time_share": 0.5, "case_cpu": 20, "needs_cpu": "fma"},
    "o0": {"cxx": "g++", "flags": ["-O0"], "scale": 0.2, "time_share": 0.3, "case_cpu": 60},
    # Coverage-guided search over the same cases (libFuzzer), failures are adopted by the asan or plain build.
    "fuzz": {"cxx": "clang++", "flags": ["-O1", "-g1", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer,address,signed-integer-overflow,bounds,shift,integer-divide-by-zero,return,float-cast-overflow", "-fno-sanitize-recover=all"],
             "scale": 0, "time_share": 0, "case_cpu": 60, "fuzz_seconds": 150},
}
Q2 = ["plain", "asan"]
Q3 = ["plain", "asan", "avx2"]
T = ["plain", "asan", "avx2", "clang", "fuzz"]


def P(src, quick=Q2, **kw):
    d = {"src": src, "quick": quick, "thorough": T}
    d.update(kw)
    return d


PROPERTIES = {}
import glob, os  # noqa: E402
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "p[0-9][0-9]_*.cpp"))):
    _id = "P" + os.path.basename(_f)[1:3]
    PROPERTIES[_id] = P(os.path.basename(_f))
for _id in ("P03", "P05", "P07", "P08", "P33", "P04"):
    if _id in PROPERTIES:
        PROPERTIES[_id]["quick"] = Q3

for _id, _n in (("P01", 2), ("P03", 2), ("P04", 3), ("P08", 2), ("P21", 4), ("P22", 4)):
    if _id in PROPERTIES:
        PROPERTIES[_id]["parts"] = _n

# Mixed element types depend on the compiler's own vector types.
if "P03" in PROPERTIES:
    PROPERTIES["P03"]["quick"] = Q3 + ["clang"]

PROPERTIES["P35"].update(replays_needed=1, quick=["plain", "tsan"], thorough=["plain", "tsan", "asan", "clang"])

# Cases of the quick tier relative to the numbers in the harness, so that every check searches for about ten seconds on eight cores.
_TIMES = {"P01": 1.1, "P02": .5, "P03": 1.6, "P04": 2.8, "P05": 1.3, "P06": 5.9, "P07": .8, "P08": 2.5, "P09": 20, "P10": 4.5, "P11": .5, "P12": .5, "P13": .5,
          "P14": .6, "P15": .8, "P16": .7, "P17": 1.3, "P18": 3.7, "P19": 3.2, "P20": .9, "P21": 3.8, "P22": 1.2, "P23": 2.8, "P24": 1.2, "P25": .6, "P26": .7,
          "P27": .7, "P28": 1.1, "P29": .6, "P30": .7, "P31": .5, "P32": 20, "P33": 1.6, "P34": 2, "P35": 15}
for _id, _t in _TIMES.items():
    if _id in PROPERTIES:
        PROPERTIES[_id]["quick_scale"] = max(1.0, min(16.0, round(10 / _t, 1)))

TECHNIQUE = {
    "P35": "property testing of call histories and thread schedules against the same calls alone, under a race detector",
    "P01": "stateful model-based property testing against std::vector, with shrinking, under sanitizers",
    "P02": "stateful model-based property testing of nested windows and aliasing, with shrinking, under sanitizers",
    "P03": "differential property testing of signal arithmetic against scalar loops, all type/alias combinations",
    "P04": "differential property testing of element functions against the scalar standard library and long double",
    "P05": "differential and metamorphic property testing of reductions against exact sums",
    "P06": "differential property testing of statistics against extended-precision formulas, metamorphic shift/scale relations",
    "P07": "differential property testing of dot products against extended-precision sums",
    "P08": "differential property testing of convolution against the defining sum, algebraic metamorphic relations",
    "P09": "differential property testing of overlap-add against the defining sum over all block sizes and windows",
    "P10": "differential property testing of transforms against the defining sum, round trips, Parseval and shift relations",
    "P11": "property testing of spectrum shifts and bin maps against index arithmetic, round trips",
    "P12": "property testing of rationals against 128-bit integer arithmetic, algebraic laws",
    "P13": "property testing of intervals against explicit point sets",
    "P14": "stateful and differential property testing of polynomials against extended-precision evaluation",
    "P15": "differential property testing across system representations, round trips",
    "P16": "differential property testing of the bilinear transform against substitution, stability invariant",
    "P17": "differential property testing of band transforms against frequency substitution",
    "P18": "differential property testing of elliptic functions against independent quadrature/AGM references and identities",
    "P19": "property testing of designed IIR filters against the specification they were given",
    "P20": "stateful property testing of IIR realisations against the difference equation, over chunkings and resets",
    "P21": "stateful property testing of FIR filtering against convolution, over chunkings, engines and carried state",
    "P22": "differential property testing of windowed designs against the ideal responses, response invariants",
    "P23": "optimality property testing: perturbation search and an independent normal-equation solve",
    "P24": "metamorphic property testing of response transforms, structure and response of Hilbert designs",
    "P25": "property testing of polyphase decompositions against index arithmetic",
    "P26": "stateful and differential property testing of rate changes against expand-and-convolve",
    "P27": "stateful and differential property testing of resampling against exact rational-time interpolation",
    "P28": "differential property testing of windows against published formulas in extended precision",
    "P29": "differential property testing of waveforms against extended-precision phase, turn invariance",
    "P30": "property testing of linear and logarithmic spaces against their definition",
    "P31": "property testing of root finders over generated continuous functions with known sign changes",
    "P32": "differential property testing of responses against transfer functions; synthetic responses with known bands",
    "P33": "differential property testing of kernels against sequential loops, element accounting, guarded buffers",
    "P34": "stateful model-based property testing of setter histories, boundary values, equal-design metamorphic relation",
}
