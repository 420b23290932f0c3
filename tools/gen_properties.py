#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

I = "include/dspbb/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [I + f for f in files],
                    "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                    "observe_at": observe or ["return values and output buffers of the public API"],
                    "hook_needed": None},
    })


prop("P01", "A signal behaves as a plain growable sequence of samples",
     "After any sequence of construction, copy, move, conversion from another sample type, push, append, prepend, insert, erase, resize, clear and front/back extraction, a signal holds exactly the samples an ordinary sequence would hold after the same edits, in order. "
     "Size, indexing, raw data pointer and forward/reverse iteration all agree with each other. Extraction returns exactly the removed samples and leaves the rest, and copies are independent of their source.",
     ["histories", "inputs"], "every edit history, for real, integer and complex sample types and all domains, including empty signals and edits at both ends",
     "The tests run about one hand-written example per member function; interleavings of edits, empty extractions and boundary positions are not combined.",
     ["Primitives/Signal.hpp"], [("BasicSignal", "Primitives/Signal.hpp")])

prop("P02", "A view is an exact, non-owning window onto samples",
     "A view made from a signal, from another view or from an iterator range (or iterator and length) shows exactly those samples: its size, byte size, emptiness, first/last element, indexing and forward/reverse iteration all describe the same range, and sub-views (first n, last n, from offset, offset and count, nested to any depth) show exactly the corresponding sub-range. "
     "Writing through a mutable view changes exactly the addressed sample of the owner, a read-only view observes every later change of the owner, and no copy is ever made.",
     ["inputs", "histories"], "every owner size (including empty), nesting of sub-view operations, and interleaving of writes through owner and views",
     "Tests check one or two fixed offsets on short signals; nesting, empty ranges at the ends and aliasing are not enumerated.",
     ["Primitives/SignalView.hpp"], [("BasicSignalView", "Primitives/SignalView.hpp"), ("AsView/AsConstView", "Primitives/SignalView.hpp")])

prop("P03", "Element-wise arithmetic equals the scalar operation at every index",
     "For every length, memory alignment and combination of sample types the library accepts, adding, subtracting, multiplying or dividing two signals, or a signal and a scalar on either side, gives at each index the value the scalar operation gives on the corresponding operands, whether written as operator, compound assignment or three-operand form. "
     "The result sample type is that of the scalar operation, the output may be one of the inputs and the scalar one of its samples, inputs that are not the output stay unchanged, and only the output range is written.",
     ["inputs", "configurations"], "all four operators, scalar position, real/complex/integer and mixed types, signals and views, lengths 0 to several vector registers plus remainder, all alignments, in-place or not",
     "Tests use one fixed small size per operator and type, so remainder handling, alignment, and in-place aliasing are sampled only at a point.",
     ["Primitives/SignalArithmetic.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"],
     [("three-operand functions and operators", "Primitives/SignalArithmetic.hpp"), ("vectorised transform", "Kernels/Numeric.hpp"), ("scalar-side functors", "Kernels/Functors.hpp")])

prop("P04", "Element-wise math functions equal the scalar function at every index",
     "Applying any of the provided functions (absolute value, argument, real/imaginary part, conjugate, exponentials and logarithms, powers and roots, trigonometric, hyperbolic and inverse functions, error and gamma functions) to a signal gives, at each index, the mathematical function of that sample to near working precision of the sample type. "
     "This holds for every length and position within the signal, for real and complex samples where defined, for the returning and the output-parameter form, and when output and input are the same signal.",
     ["inputs", "configurations"], "every function, float/double/complex, values spread over each function's domain, lengths 0 to several vector registers plus remainder, all alignments, in-place or not",
     "Tests evaluate each function on a single fixed vector; vector/remainder boundaries and value ranges are not swept.",
     ["Math/Functions.hpp", "Kernels/Math.hpp", "Kernels/Numeric.hpp"], [("function wrappers", "Math/Functions.hpp"), ("scalar/SIMD overload set", "Kernels/Math.hpp")])

prop("P05", "Sums, means, norms and extremes are accurate at every length",
     "For a signal of any length, alignment and sample type, the sum and mean (real and complex) and the sum of squares, mean square, root mean square, Euclidean norm, maximum and minimum (real) equal the mathematical value of exactly those samples: integers exactly (means truncated, absent overflow), floating point within the rounding error of a straightforward summation. An empty signal has sum, mean and norm zero. "
     "Every sample is counted exactly once whatever the length.",
     ["inputs", "configurations"], "all lengths from 0/1 through several unrolled vector blocks to tens of thousands, alignments, float/double/complex/integer samples, adversarial magnitudes (large sample among small ones, cancellations)",
     "Tests use a couple of fixed sizes; the kernels branch on the length modulo 8 vector registers, so most remainder classes are never executed.",
     ["Math/Statistics.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"], [("Reduce/TransformReduce", "Kernels/Numeric.hpp"), ("compensated addition", "Kernels/Functors.hpp"), ("statistics functions", "Math/Statistics.hpp")])

prop("P06", "Statistical moments and correlations match their definitions",
     "For every real floating-point signal and every order from one, the central moment is the mean of that power of the deviations from the mean, the standardised moment is that divided by the matching power of the standard deviation, and variance, standard deviation, skewness, kurtosis, covariance and correlation equal their textbook population formulas, and the corrected variants the bias-corrected formulas of the reference cited with them, within rounding. "
     "Central quantities do not change when a constant is added to the signal and scale by the right power when it is multiplied; correlation lies in [-1, 1], is symmetric and is ±1 for affinely related signals.",
     ["inputs"], "all signal lengths and contents for which the formula is defined, moment orders 0 to 9, population and corrected variants, pairs of equally long signals",
     "Each formula is tested on one 8-sample vector.",
     ["Math/Statistics.hpp"], [("CentralMoment..Correlation", "Math/Statistics.hpp")])

prop("P07", "The dot product is the conjugate-correct inner product",
     "The dot product of two equally long signals or views equals the sum over all indices of the first sample times the complex conjugate of the second (plain product for real samples), for every length, alignment and mix of real and complex sample types, within a small rounding bound. "
     "It is conjugate-symmetric, linear in the first argument, and the product of a signal with itself is its sum of squared magnitudes.",
     ["inputs", "configurations"], "all lengths 0..many vector blocks, independent alignment of both operands, real/complex/mixed types",
     "Tests use one size per type combination.",
     ["Math/DotProduct.hpp", "Kernels/Numeric.hpp"], [("DotProduct", "Math/DotProduct.hpp"), ("InnerProduct", "Kernels/Numeric.hpp")])

prop("P08", "Convolution equals its definition for every window of the result",
     "The convolution of two signals equals the mathematical convolution sum at every output position within rounding, for every pair of lengths, real/complex/mixed types, any requested offset and length within the full result, and for the full and central modes; asking for a part gives exactly the matching part of the full result. "
     "It is commutative, and in accumulate mode the output becomes its previous content plus the convolution, otherwise previous content does not matter; nothing outside the output is written.",
     ["inputs", "configurations"], "pairs of lengths from 1 to several hundred samples (all vector remainder classes), all offsets/lengths, accumulate on or off, type mixes, operand order",
     "Tests fix a handful of sizes and one offset; the kernel has separate edge, body and unaligned paths chosen by length, offset and alignment.",
     ["Math/Convolution.hpp", "Kernels/Convolution.hpp"], [("Convolution", "Math/Convolution.hpp"), ("vectorised convolution kernels", "Kernels/Convolution.hpp")])

prop("P09", "Block-FFT convolution equals direct convolution for any block size",
     "Overlap-add convolution yields the same samples as the direct convolution definition, within rounding relative to the largest product, for every pair of lengths, type mix, operand order, requested offset and output length, and every admissible block size (given explicitly or chosen by the library). "
     "In accumulate mode it adds to the previous content of the output, otherwise it replaces it.",
     ["inputs", "configurations"], "pairs of lengths, offsets, output lengths, block sizes from the smallest admissible to larger than the signal, full/central, accumulate on/off",
     "Tests fix one pair of lengths and a few block sizes; the first/last partial block logic depends on all five parameters jointly.",
     ["Math/OverlapAdd.hpp", "Math/FFT.hpp"], [("OverlapAdd block loop", "Math/OverlapAdd.hpp")])

prop("P10", "The FFT is the discrete Fourier transform and inverts exactly",
     "For every length (including primes and length 1) the forward transform of a real or complex signal equals the unnormalised DFT definition within rounding, in full or half form, and the inverse transform returns the original signal; half spectra have length/2+1 bins and are inverted correctly for even and odd lengths. "
     "Linearity, Parseval's identity, and conjugate symmetry for real input hold, and the output buffer and view forms give the same results as the returning form.",
     ["inputs", "configurations"], "all lengths 1..several thousand, real/complex, full/half, float/double",
     "Tests use lengths that are a few fixed composites and compare round trips mostly.",
     ["Math/FFT.hpp"], [("Fft/Ifft", "Math/FFT.hpp")])

prop("P11", "Spectrum shifting and bin/frequency conversion are consistent inverses",
     "Shifting a spectrum moves bin k to the position where zero frequency is centred (index length/2), unshifting restores the original order for odd and even lengths and both are permutations, whether done out-of-place or in place on the same signal. "
     "Converting bin to frequency and back is the identity up to rounding, bin 0 is frequency 0, and frequencies are proportional to bin number and sampling rate.",
     ["inputs"], "all lengths and contents, all bins, arbitrary positive sample rates",
     "Tests use one odd and one even size.",
     ["Math/FFT.hpp"], [("FftShift/IfftShift and bin conversions", "Math/FFT.hpp")])

prop("P12", "Rational numbers compute exactly like mathematical fractions",
     "As long as no intermediate exceeds the integer type, construction, the four operations (between rationals and with integers on either side, including zero and negative values), compound forms, increments and decrements give exactly the mathematical fraction in lowest terms with a positive denominator. "
     "All comparisons agree with the mathematical order, floor, ceiling and fractional part follow the mathematical definitions (floor ≤ x < floor+1, fraction in [0,1)), and conversion to floating point gives the quotient within rounding.",
     ["inputs", "histories"], "all numerators/denominators of moderate size and either sign, integer operands, and chains of operations",
     "Tests use a few positive fractions; signs and zero are hardly combined.",
     ["Math/Rational.hpp"], [("Rational", "Math/Rational.hpp")])

prop("P13", "Intervals obey half-open set algebra",
     "For half-open intervals, intersection, union (present exactly when the intervals share a point, and then covering both), encompassing union (the smallest interval covering the ends of both), disjointness, size and equality agree with the sets of points the intervals denote; shifting by an offset translates every point. "
     "Two intervals are equal exactly when both ends are equal.",
     ["inputs"], "all pairs of ordered intervals over integers and reals, including empty, touching, nested and negative ones",
     "Tests use three fixed intervals.",
     ["Utility/Interval.hpp"], [("Interval", "Utility/Interval.hpp")])

prop("P14", "Polynomials in coefficient and root form denote the same function",
     "Evaluating a coefficient polynomial at any real or complex point gives the polynomial's value; expanding a root-form polynomial gives the monic coefficient polynomial with exactly those real roots and conjugate pairs, so both forms agree at every point within rounding. "
     "A root-form polynomial keeps its real roots and complex pairs intact, in order and separate through any history of construction, copy, move, assignment and resizing, and its counts and degree always describe them.",
     ["inputs", "histories"], "any number of real roots and conjugate pairs, evaluation points real and complex, and sequences of resize/assign/copy/move/write operations",
     "Tests evaluate two or three fixed polynomials and a few resizes.",
     ["Math/Polynomials.hpp"], [("Polynomial, FactoredPolynomial, ExpandPolynomial", "Math/Polynomials.hpp")])

prop("P15", "All representations of an LTI system have the same response",
     "A zero-pole-gain system, the transfer function and the cascade of second-order sections made from it have the same value at every real and complex point where they are defined, within rounding, for any mix of real and conjugate-pair zeros and poles of any count, including more zeros than poles or the reverse. "
     "The gain is carried over exactly once and the reported order of every form is the larger of numerator and denominator degree.",
     ["inputs"], "systems of order 0..12 with arbitrary real/conjugate roots incl. repeated and zero roots, any gain, points on and off the unit circle",
     "Tests build about ten fixed systems, mostly checking pairing details.",
     ["LTISystems/Systems.hpp", "Math/Polynomials.hpp"], [("TransferFunction / CascadedBiquad constructors", "LTISystems/Systems.hpp")])

prop("P16", "The bilinear transform preserves the frequency response",
     "The discrete system obtained from a continuous one satisfies H_d(z) = H_c(s) with s = 2·fs·(z-1)/(z+1) at every z, for any mix of real and conjugate-pair zeros and poles with no more zeros than poles; with a prewarp frequency the analog and digital responses coincide at that frequency. "
     "Left-half-plane poles map inside the unit circle, missing zeros appear at z = -1, and the system order is preserved.",
     ["inputs"], "continuous systems of order 0..10, any positive sample rate, optional prewarp frequency below Nyquist",
     "Tests check one or two fixed systems.",
     ["LTISystems/DiscretizationTransforms.hpp"], [("BilinearTransform", "LTISystems/DiscretizationTransforms.hpp")])

prop("P17", "Frequency-band transforms substitute the frequency axis exactly",
     "Transforming a half-band prototype into a low-pass, high-pass, band-pass or band-stop filter is an all-pass frequency substitution: the new response at any frequency equals the prototype's response at the substituted frequency, with prototype zero frequency, cutoff and Nyquist landing on the band centre/edges demanded. "
     "Stability, gain and the number of zeros and poles (doubled for two-sided bands) are preserved, for any even-or-odd mix of real and conjugate-pair roots.",
     ["inputs"], "prototypes of order 1..10 with arbitrary roots inside the unit circle, any cutoff or band strictly inside (0,1)",
     "Tests check fixed filters at a few frequencies with loose margins.",
     ["Filtering/IIR/BandTransforms.hpp", "Math/RootTransforms.hpp"], [("Halfband2Lowpass/Highpass/Bandpass/Bandstop", "Filtering/IIR/BandTransforms.hpp"), ("root transforms", "Math/RootTransforms.hpp")])

prop("P18", "Elliptic integrals and Jacobi functions satisfy their identities",
     "For every modulus in [0,1] (for real arguments also above one), real and complex arguments, Carlson's RF, the complete elliptic integral, the amplitude and the Jacobi functions sn, cn, dn agree with their mathematical values to near working precision: period values and symmetries, sn²+cn²=1, dn²+k²sn²=1. "
     "The inverse functions give a value in the principal range with function(inverse(x)) = x for real and complex x (right half-plane for arcdn), and at modulus 0 and 1 everything reduces to trigonometric and hyperbolic functions.",
     ["inputs"], "moduli across [0,1) including very near both ends, real and complex arguments, float and double",
     "Tests compare a handful of tabulated values.",
     ["Math/EllipticFunctions.hpp"], [("Landen-transform evaluation", "Math/EllipticFunctions.hpp")])

prop("P19", "Designed IIR filters meet their specification and are stable",
     "Every Butterworth, Chebyshev I, Chebyshev II and elliptic low-pass, high-pass, band-pass and band-stop design of any supported order, cutoff/band and ripple has the requested order, all poles strictly inside the unit circle, gain within [1-ripple, 1] on the passband and at most the stopband ripple on the stopband, and passes exactly the bands asked for. "
     "At the cutoff or band edges the gain is the one the family defines (half power for Butterworth, passband ripple edge for Chebyshev I and elliptic, stopband ripple edge for Chebyshev II), and Butterworth and the non-rippling sides are monotonic.",
     ["inputs", "configurations"], "orders 1..12 (even for two-sided bands), cutoffs/bands across (0,1), ripples 0.001..0.5 (for elliptic designs such that the elliptic modulus is distinguishable from one in the type), float and double",
     "Tests check order 7/8 at one fixed band per family.",
     ["Filtering/IIR.hpp", "Filtering/IIR/Butterworth.hpp", "Filtering/IIR/Chebyshev.hpp", "Filtering/IIR/Elliptic.hpp", "Filtering/IIR/BandTransforms.hpp", "LTISystems/DiscretizationTransforms.hpp"],
     [("DesignFilter", "Filtering/IIR.hpp"), ("analog prototypes", "Filtering/IIR/Butterworth.hpp")])

prop("P20", "IIR realisations compute the system's output, streaming or at once",
     "Filtering through direct form I, direct form II or a cascade of second-order sections computes the system's difference equation from zero initial state: all three agree with each other and with the impulse response within rounding, for real and complex signals, numerators and denominators of equal or different order (the leading coefficient of each weighs the current sample), states as large as the system or larger, and output may alias input. "
     "Feeding a signal in any split of consecutive chunks gives exactly the same samples as feeding it whole, and resetting the state (or using a fresh one) makes the filter forget everything.",
     ["histories", "inputs"], "all designed IIR systems up to order 10, any signal and partition into chunks incl. empty ones, interleaved resets",
     "Tests run one system and compare only a few samples, never split the input in several ways.",
     ["Filtering/IIR/Realizations.hpp", "Filtering/IIR/Filter.hpp"], [("DirectFormI/II, CascadedForm", "Filtering/IIR/Realizations.hpp"), ("Filter", "Filtering/IIR/Filter.hpp")])

prop("P21", "FIR filtering is convolution, and streaming equals one-shot",
     "Filtering a signal with an impulse response yields the (full or central) convolution of the two, the same with the direct and the overlap-add engine and any admissible block size. "
     "With a carried state of length taps-1, feeding the signal in any sequence of chunks (longer or shorter than the filter, mixing both engines) concatenates to exactly the leading part of the full convolution with whatever history the state held, and the state always ends as the last taps-1 input samples.",
     ["histories", "inputs"], "signal and filter lengths, chunk partitions, engines and block sizes chosen per chunk, real/complex types",
     "Tests use one chunk size that is convenient for both engines.",
     ["Filtering/FIR/Filter.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp"], [("stateless and stateful Filter", "Filtering/FIR/Filter.hpp")])

prop("P22", "Windowed FIR designs are linear-phase with the promised response",
     "Every windowed FIR design with an odd number of taps is real, finite and symmetric about its centre (for a symmetric window) for any cutoff, band and window: low-pass taps are the window times the ideal impulse response normalised to unit gain at zero frequency, high-pass and band-stop designs are the complement (centred unit impulse minus) of the low-pass and band-pass of the same edges, and a band-pass is a low-pass of the band's half width shifted to the band's centre. "
     "For tapering windows, passbands are near 1 and stopbands near 0 beyond a few bins from the edges, and an arbitrary-response design is the window times the inverse transform of the requested response sampled evenly from zero to Nyquist on taps/2+1 points.",
     ["inputs", "configurations"], "odd tap counts 3..~200, all bands, all window kinds and user-supplied window samples, float/double",
     "Tests check one length per type.",
     ["Filtering/FIR.hpp", "Filtering/FIR/Windowed.hpp", "Filtering/FIR/BandTransforms.hpp"], [("windowed design", "Filtering/FIR/Windowed.hpp"), ("DesignFilter dispatch", "Filtering/FIR.hpp")])

prop("P23", "Least-squares FIR designs minimise the weighted error",
     "A least-squares FIR design of an odd number of taps is symmetric and minimises, over all symmetric filters of that length, the sum of squares of the weighted deviation of its amplitude response from the requested response on the design's frequency grid: no perturbation of the taps lowers that error. The grid is even from zero to Nyquist inclusive, has the requested number of points but never fewer than the free coefficients, and four times those by default; equal band edges (no transition) are allowed. "
     "Scaling all weights equally does not change the filter, and filters exactly realisable by the length are recovered.",
     ["inputs", "configurations"], "odd tap counts, grids, arbitrary response and weight functions, low/high/band-pass/band-stop bands and transition widths/weights",
     "Optimality is a statement over all competing filters; tests only check a few gains.",
     ["Filtering/FIR/LeastSquares.hpp", "Filtering/FIR.hpp"], [("normal-equation solve", "Filtering/FIR/LeastSquares.hpp")])

prop("P24", "FIR response transforms and Hilbert designs have the stated structure",
     "Mirroring a filter's response maps the gain at frequency f to 1-f, complementing an odd-length symmetric filter gives gain 1-G(f), and shifting moves the response centre to the requested frequency, identically in place and out of place. "
     "Hilbert-transformer designs are antisymmetric with zero even-offset taps for odd length and approximate a -90° phase shift of unit gain over mid band.",
     ["inputs"], "any taps for the transforms (odd length for complement), every tap count and transition for Hilbert designs",
     "Tests check one filter per transform.",
     ["Filtering/FIR/BandTransforms.hpp", "Filtering/FIR.hpp"], [("MirrorResponse/ComplementaryResponse/ShiftResponse", "Filtering/FIR/BandTransforms.hpp")])

prop("P25", "Polyphase decomposition partitions the filter's taps",
     "Splitting a filter into any number of phases distributes every tap to exactly one phase - tap n goes to phase n modulo the phase count, reversed within its phase and scaled by the phase count - in the given buffer without gaps or overlap, for every non-empty filter and phase count. "
     "The recorded sizes are consistent, and normalisation makes every phase of non-zero sum sum to one.",
     ["inputs"], "all filter lengths >= 1 and phase counts >= 1, including more phases than taps and non-divisible sizes",
     "Tests use one divisible and one non-divisible pair.",
     ["Filtering/Polyphase.hpp"], [("PolyphaseDecompose, PolyphaseNormalize", "Filtering/Polyphase.hpp")])

prop("P26", "Decimate, expand and interpolate match the textbook operations",
     "Decimation keeps exactly every rate-th sample starting from the first, expansion inserts rate-1 zeros after each sample (so decimating an expansion returns the signal), and polyphase interpolation equals expanding, convolving with the prototype filter and multiplying by the rate, for any offset and output length within the full result. "
     "Continuing an interpolation from the returned suspension point on the remaining input gives exactly the samples the uninterrupted interpolation would have given.",
     ["inputs", "histories"], "signal/filter lengths, rates, offsets, output lengths, and chains of suspended/resumed interpolations",
     "Tests use rate 5 with three filter sizes and one suspension.",
     ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"], [("Decimate/Expand/Interpolate and suspension point", "Filtering/Resample.hpp")])

prop("P27", "Arbitrary-ratio resampling evaluates the interpolated signal at exact times",
     "Each resampled output sample equals the linear interpolation, at its exact rational time, between the two neighbouring samples of the polyphase-interpolated signal, for any rational rate ratio, start point and output length within the reported length. "
     "Stopping at any output sample and resuming from the returned suspension point on the remaining input continues the same output sequence, and reported lengths and filter delay are consistent with the rate ratio.",
     ["inputs", "histories"], "signal/filter lengths, phase counts, reduced and unreduced rate ratios above and below one, start points, output lengths, chains of suspensions",
     "Tests use a few ratios and one suspension; rational-index corner cases at the signal ends are not covered.",
     ["Filtering/Resample.hpp", "Math/Rational.hpp"], [("Resample and suspension point", "Filtering/Resample.hpp")])

prop("P28", "Window functions follow their formulas and are symmetric",
     "Each window (rectangular, triangular, Hamming, Blackman, Blackman-Harris, flat-top, Gaussian, Kaiser, Lanczos, Dolph-Chebyshev) of any length from 2 up equals its published formula at every sample, is symmetric and finite, peaks at its centre (Dolph-Chebyshev: has a largest sample of one), and is the same in the returning, output-parameter, function-object, real and complex forms. "
     "Dolph-Chebyshev side lobes stay at the requested attenuation, and coherent and energy gain are the mean of the window's samples and of their squares.",
     ["inputs", "configurations"], "all window kinds, lengths 2..several hundred, window parameters, float/double/complex, function-object and function forms",
     "Tests check a couple of sizes against stored values or symmetry only.",
     ["Filtering/Windowing.hpp"], [("window functions", "Filtering/Windowing.hpp")])

prop("P29", "Waveform generators produce exactly periodic, phase-continuous waves",
     "Sine, sawtooth (any tilt), PWM and square generators produce at sample n the unit-amplitude periodic waveform (PWM: 0 or 1) evaluated at phase + 2·pi·frequency·n/sampleRate, for any phase (also negative or many turns) and frequency; chirps evaluate the same waveform at the phase accumulated by the linearly swept frequency. "
     "Adding a full turn to the phase changes nothing, values stay within [-1, 1], and output parameter and returning forms agree.",
     ["inputs"], "lengths, sample rates, frequencies up to Nyquist and of either sign, phases of either sign and many turns, tilt and fill ratios in [0,1]",
     "Tests check a few periods with zero phase.",
     ["Generators/Waveforms.hpp"], [("waveform generators", "Generators/Waveforms.hpp")])

prop("P30", "Linear and logarithmic spaces hit their end points and are even",
     "A linear space of any length has its first sample at the start, equal steps, and ends at the end point (inclusive) or one step before it (exclusive); a logarithmic space is the base raised to the corresponding linear space. "
     "This holds for ascending and descending ranges, every length (a single sample is the start), real and complex outputs, within rounding.",
     ["inputs"], "lengths 1..thousands, arbitrary start/end incl. descending and equal, inclusive or exclusive, bases",
     "Tests use one range.",
     ["Generators/Spaces.hpp"], [("LinSpace/LogSpace", "Generators/Spaces.hpp")])

prop("P31", "Bisection brackets a true root and Newton's iteration converges to one",
     "For any continuous function with a sign change between two points (given in either order), bisection returns a point within the bracketing interval at which the function changes sign within the resolution of the floating-point type, or the exact root if an end point or midpoint is one. "
     "It terminates for every such function and bracket, also when the function's values are tiny or huge; Newton's iteration converges to the root of a convex increasing function from its convex side.",
     ["inputs"], "monotone, oscillating and polynomial functions, brackets of any scale and sign, float and double",
     "Tests check two functions.",
     ["Math/Solvers.hpp"], [("Bisect", "Math/Solvers.hpp")])

prop("P32", "Frequency responses and filter measurements describe the given filter",
     "The frequency response of an impulse response or of a discrete system in any representation equals, at every grid point, the magnitude and phase of its transfer function evaluated on the upper unit half-circle from zero frequency up: on an even grid of the requested size to Nyquist for systems, on the bins of a transform at least as long as the impulse and the requested grid for impulse responses. "
     "Measuring a response whose bands are wider than its transitions reports the filter kind given by its sequence of pass and stop bands, with ordered edges that enclose the transition and the size of the ripple in each band, and rejects a response of another kind.",
     ["inputs"], "impulse lengths, grid hints, systems in all three representations, synthetic band responses of all four kinds and others",
     "Tests measure a few designed filters.",
     ["Filtering/MeasureFilter.hpp"], [("FrequencyResponse, Measure*Filter", "Filtering/MeasureFilter.hpp")])

prop("P33", "Vectorised kernels equal the sequential algorithm",
     "The generic element-wise transform, reduction, transform-reduction and inner-product kernels give for every length, alignment, element type and user-supplied operation the result of the plain sequential loop: exactly for element-wise transforms and for exact associative-commutative operations (integer sums, minima, maxima), within rounding for floating-point sums. "
     "Each element is used exactly once, nothing outside the ranges is read or written, and compensated addition is at least as accurate as plain addition.",
     ["inputs", "configurations"], "lengths 0..several unrolled blocks with all remainders, alignments, types with and without SIMD support, scalar and SIMD capable operations, initial values",
     "Tests run fixed sizes.",
     ["Kernels/Numeric.hpp", "Kernels/Functors.hpp"], [("Transform/Reduce/TransformReduce/InnerProduct", "Kernels/Numeric.hpp")])

prop("P34", "Filter descriptions keep what was set and reject impossible bands",
     "A filter description carries every parameter given to it regardless of the order in which they are set, later settings replacing earlier ones and never disturbing others, so designs made from equal settings in any order are identical. "
     "Normalised frequencies outside the closed interval [0,1] (or not a number) and bands whose edges are out of order are rejected by an exception when set, leaving the description as it was, while every admissible value including equal edges is accepted; setters never change the description they are called on.",
     ["inputs", "histories"], "all orders of builder calls for all FIR and IIR descriptions, admissible and inadmissible parameter values",
     "Tests set parameters in one order and check a few invalid values.",
     ["Filtering/FIR/Descs.hpp", "Filtering/IIR/Descs.hpp", "Filtering/FilterUtility.hpp", "Filtering/IIR.hpp"], [("builder types", "Filtering/FIR/Descs.hpp"), ("builder types", "Filtering/IIR/Descs.hpp"), ("range checks", "Filtering/FilterUtility.hpp")])

prop("P35", "Results depend only on arguments, not on earlier calls or threads",
     "Every library call gives exactly the result it gives when it is the only call in a fresh process, whatever calls were made before it (transforms of other lengths and precisions, designs with other parameters, failed calls) and whatever other library calls run at the same time on other threads. "
     "Concurrent calls that share constant signals, systems, filters or descriptions, or that work on different objects, do not race; internal caches and tables are never observable except by their speed; writing to one signal or state never changes another.",
     ["schedules", "histories", "inputs"], "histories of mixed calls before the observed one, several threads running mixed calls on shared constant and private mutable objects",
     "Tests make each call once, on one thread.",
     ["Math/FFT.hpp", "Math/EllipticFunctions.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp", "Filtering/Polyphase.hpp", "Math/OverlapAdd.hpp"], [("Fft/Ifft plans", "Math/FFT.hpp"), ("elliptic function tables", "Math/EllipticFunctions.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
