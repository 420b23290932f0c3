// P32: frequency responses and filter measurements.
#include "roots.hpp"
#include <dspbb/Filtering/MeasureFilter.hpp>
using namespace h;

/// Magnitude and phase at one grid point.
template <class T>
void CheckBin(Gen& g, T amplitude, T phase, cld want, ld tol, const char* what, size_t i) {
	const ld a = AbsC(want);
	NEAR("magnitude", amplitude, a, tol, what, " bin ", i);
	CHK(std::isfinite((double)phase), "phase", what, " bin ", i, " is not finite");
	if (a > 50 * tol) {
		const ld d = std::remainder((ld)phase - std::arg(want), 2 * PI);
		CHK(std::abs(d) <= 2 * tol / a + 4 * Eps<T>(), "phase", what, " bin ", i, ": got ", phase, " want ", (double)std::arg(want));
	}
	CHK(std::abs((ld)phase) <= PI * (1 + 4 * Eps<T>()), "phase", what, " bin ", i, " is out of range: ", phase);
}

template <class T>
void Impulse(Gen& g) {
	const size_t n = g.length(1, g.chance(1, 4) ? 200 : 30, 6);
	const auto h = Data<T>(g, n, STYLE_SPARSE, "impulse response");
	const size_t hint = g.flag() ? 0 : 1 + g.draw(g.flag() ? 20 : 500);
	g.note("grid ", hint);
	g.nontrivial(n >= 2);
	g.labelIf(hint == 0, "default grid");
	g.labelIf(hint && 2 * hint <= n, "grid finer than asked for");
	const auto sig = Sig(h);
	const Guarded<T> buf(h, g.draw(5), 3);
	const auto [amplitude, phase] = g.flag() ? (hint ? FrequencyResponse(sig, hint) : FrequencyResponse(sig)) : FrequencyResponse(buf.cview(), hint);
	CHK(buf.untouched(), "input-changed", "");
	const size_t grid = hint ? hint : 10 * n;
	CHK(amplitude.size() == phase.size() && amplitude.size() >= grid, "grid size", amplitude.size(), " for ", grid);
	// The grid follows from the length of the transform.
	const size_t len = std::max(n, 2 * grid - 1);
	CHK(amplitude.size() == len / 2 + 1, "grid size", amplitude.size(), " for a transform of ", len);
	ld energy = 0;
	for (const auto& v : h) energy += (ld)v * (ld)v;
	const ld tol = Eps<T>() * (8 + 2 * std::log2((ld)len)) * std::sqrt(energy) * 3 + 1e-36L;
	for (size_t i = 0; i < amplitude.size(); ++i) {
		cld want = 0;
		for (size_t k = 0; k < n; ++k) want += (ld)h[k] * std::polar(1.0L, -2 * PI * (ld)((i * k) % len) / (ld)len);
		CheckBin(g, amplitude[i], phase[i], want, tol, "impulse response", i);
	}
}
PROP("impulse-response", 8000, "impulse responses of length 1..200, grid hints 0..500; magnitude and phase of every bin against the defining sum, grid sizes; non-trivial = 2 taps or more") {
	if (g.flag()) Impulse<float>(g);
	else Impulse<double>(g);
}

template <class T>
void System(Gen& g) {
	DiscreteZeroPoleGain<T> zpk;
	const auto make = [&](double maxMag) {
		Roots r;
		r.real.resize(g.draw(3));
		r.pairs.resize(g.draw(3));
		for (auto& v : r.real) v = g.nice(-maxMag, maxMag);
		for (auto& v : r.pairs) v = std::polar(g.nice(0.0625, maxMag), g.nice(0.0625, 3.0));
		return r;
	};
	Roots z = make(1.0), p = make(0.9375);
	Fill(zpk.zeros, z);
	Fill(zpk.poles, p);
	zpk.gain = T((g.flag() ? 1 : -1) * g.nice(0.125, 4));
	const size_t hint = g.flag() ? 0 : 1 + g.draw(60), order = std::max(z.count(), p.count());
	const int form = (int)g.draw(2);
	g.note(TypeName<T>(), form == 0 ? " zero-pole-gain" : form == 1 ? " cascade" : " transfer function", " grid ", hint, " gain ", zpk.gain, " zeros real ", Show(z.real), " pairs ", Show(z.pairs), " poles real ", Show(p.real), " pairs ", Show(p.pairs));
	g.label(form == 0 ? "zero-pole-gain" : form == 1 ? "cascade" : "transfer function");
	g.nontrivial(z.count() + p.count() >= 2);
	const auto [amplitude, phase] = !hint && g.flag() ? (form == 0 ? FrequencyResponse(zpk) : form == 1 ? FrequencyResponse(CascadedBiquad<T>(zpk)) : FrequencyResponse(DiscreteTransferFunction<T>(zpk))) : form == 0 ? FrequencyResponse(zpk, hint) : form == 1 ? FrequencyResponse(CascadedBiquad<T>(zpk), hint) : FrequencyResponse(DiscreteTransferFunction<T>(zpk), hint);
	CHK(amplitude.size() == phase.size(), "grid size", amplitude.size(), " and ", phase.size());
	if (hint) CHK(amplitude.size() >= hint, "grid size", amplitude.size(), " for ", hint);
	else CHK(amplitude.size() >= order + 1, "grid size", amplitude.size(), " for order ", order);
	const size_t count = amplitude.size();
	for (size_t i = 0; i < count; ++i) {
		const ld w = count > 1 ? PI * (ld)i / (ld)(count - 1) : 0;
		const cld x = std::polar(1.0L, w);
		ld mz, mp;
		const cld nz = EvalRoots(z, x, mz) * (ld)zpk.gain, np = EvalRoots(p, x, mp);
		// The grid point itself is rounded, too.
		const ld e = Eps<T>() * (24 + 16 * (ld)order);
		const ld tn = e * mz * std::abs((ld)zpk.gain), tp = e * mp, ap = AbsC(np);
		if (!(ap > 8 * tp)) continue;
		const cld want = nz / np;
		CheckBin(g, amplitude[i], phase[i], want, (tn + AbsC(want) * tp) / (ap - tp), "system", i);
	}
}
PROP("system-response", 20000, "discrete systems with up to 9 zeros and poles inside the unit circle in three representations, grid hints 0..60; magnitude and phase of every bin against the product of root distances on an even grid from 0 to Nyquist; non-trivial = 2 roots or more") {
	if (g.flag()) System<float>(g);
	else System<double>(g);
}

/// A magnitude response made of pass and stop bands.
template <class T>
struct Response {
	std::vector<bool> bands;
	std::vector<double> crossings; // in samples
	std::vector<double> widths;    // erf parameter of each transition, in samples
	std::vector<double> ripples;   // per band, 0 = none
	std::vector<int> bias;         // per pass band: ripples below (-1), around (0) or above (1) unit gain
	double period = 12, offset = 0;
	bool noisy = false;
	uint64_t noiseSeed = 1;
	std::vector<T> h;

	void build(size_t n) {
		h.resize(n);
		uint64_t s = noiseSeed;
		for (size_t i = 0; i < n; ++i) {
			double v = bands[0] ? 1 : 0;
			for (size_t c = 0; c < crossings.size(); ++c) {
				const double step = 0.5 + 0.5 * std::erf(((double)i - crossings[c]) / widths[c]);
				v += bands[c + 1] ? step : -step;
			}
			// Ripples fade towards the transitions.
			size_t b = 0;
			while (b < crossings.size() && (double)i > crossings[b]) ++b;
			double fade = 1;
			for (size_t c = 0; c < crossings.size(); ++c) fade = std::min(fade, std::max(0.0, (std::abs((double)i - crossings[c]) - 3 * widths[c]) / widths[c]));
			const double r = ripples[b] * std::cos(6.283185307179586 * ((double)i + offset) / period) * fade;
			v += bands[b] ? r + bias[b] * ripples[b] * fade : r + ripples[b] * fade; // stop bands cannot go below zero
			if (noisy && std::abs(v - 0.5) < 0.05) v += 0.0004 * (2 * U01(s) - 1);
			h[i] = T(std::max(0.0, v));
		}
	}
};

template <class P>
std::vector<double> Edges(const P& p) {
	if constexpr (requires { p.lowerStopbandEdge; }) return { (double)p.lowerStopbandEdge, (double)p.passbandLowerEdge, (double)p.passbandUpperEdge, (double)p.upperStopbandEdge };
	else if constexpr (requires { p.lowerPassbandEdge; }) return { (double)p.lowerPassbandEdge, (double)p.stopbandLowerEdge, (double)p.stopbandUpperEdge, (double)p.upperPassbandEdge };
	else if constexpr (std::is_same_v<P, std::monostate>) return {};
	else if constexpr (std::is_same_v<P, LowpassParameters<float>> || std::is_same_v<P, LowpassParameters<double>>) return { (double)p.passbandEdge, (double)p.stopbandEdge };
	else return { (double)p.stopbandEdge, (double)p.passbandEdge };
}
template <class P>
std::vector<double> Ripples(const P& p) {
	if constexpr (requires { p.lowerStopbandEdge; }) return { (double)p.lowerStopbandAtten, (double)p.passbandRipple, (double)p.upperStopbandAtten };
	else if constexpr (requires { p.lowerPassbandEdge; }) return { (double)p.lowerPassbandRipple, (double)p.stopbandAtten, (double)p.upperPassbandRipple };
	else if constexpr (std::is_same_v<P, std::monostate>) return {};
	else if constexpr (std::is_same_v<P, LowpassParameters<float>> || std::is_same_v<P, LowpassParameters<double>>) return { (double)p.passbandRipple, (double)p.stopbandAtten };
	else return { (double)p.stopbandAtten, (double)p.passbandRipple };
}

template <class T>
void Measure(Gen& g) {
	Response<T> r;
	const size_t numBands = 1 + g.draw(4);
	const bool firstPass = g.flag();
	const double width = 0.5 + g.nice(0.0, 12);
	const bool rippled = g.flag();
	r.noisy = !rippled && g.chance(1, 4);
	r.noiseSeed = g.draw(0xffff);
	r.period = g.range(8, 24);
	r.offset = (double)g.draw(24);
	double at = 0;
	for (size_t i = 0; i < numBands; ++i) {
		r.bands.push_back(firstPass == (i % 2 == 0));
		r.ripples.push_back(rippled && g.flag() ? 0.002 + 0.1 * g.unit() : 0);
		r.bias.push_back((int)g.draw(2) - 1);
		at += 12 * width + 3 * r.period + g.nice(0.0, 60);
		if (i + 1 < numBands) r.crossings.push_back(at), r.widths.push_back(width * (0.7 + 0.3 * g.unit()));
	}
	const size_t n = (size_t)at + 1;
	r.build(n);
	g.note(TypeName<T>(), " ", n, " samples, bands");
	for (size_t i = 0; i < numBands; ++i) {
		g.note(r.bands[i] ? "pass" : "stop", r.ripples[i] > 0 ? " rippled" : "");
		if (i + 1 < numBands) g.note("| ", r.crossings[i], " ~", r.widths[i]);
	}
	const int want = numBands == 2 ? (firstPass ? 1 : 2) : numBands == 3 ? (firstPass ? 4 : 3) : 0;
	static const char* kinds[] = { "none of the four", "low-pass", "high-pass", "band-pass", "band-stop" };
	g.label(kinds[want]);
	g.labelIf(r.noisy, "noisy transitions");
	g.labelIf(rippled, "ripples");
	g.nontrivial(want != 0);

	const Spectrum<T> spectrum(r.h.begin(), r.h.end());
	const auto result = MeasureFilter(spectrum);
	CHK((int)result.index() == want, "kind", "measured as ", kinds[result.index()], " instead of ", kinds[want]);
	const auto edges = std::visit([](const auto& p) { return Edges(p); }, result);
	const auto ripples = std::visit([](const auto& p) { return Ripples(p); }, result);

	// The specific measurements agree, and reject the other kinds.
	const auto specific = [&](int kind, auto&& measure) {
		bool thrown = false;
		std::vector<double> e, rp;
		try {
			const auto p = measure();
			e = Edges(p);
			rp = Ripples(p);
		}
		catch (const std::invalid_argument&) {
			thrown = true;
		}
		CHK(thrown == (kind != want), "specific measurement", kinds[kind], thrown ? " rejected" : " accepted");
		if (!thrown) CHK(e == edges && rp == ripples, "specific measurement", kinds[kind], " differs from the general one");
	};
	specific(1, [&] { return MeasureLowpassFilter(spectrum); });
	specific(2, [&] { return MeasureHighpassFilter(spectrum); });
	specific(3, [&] { return MeasureBandpassFilter(spectrum); });
	specific(4, [&] { return MeasureBandstopFilter(AsConstView(spectrum)); });
	if (want == 0) return;

	for (size_t i = 0; i < edges.size(); ++i) {
		CHK(edges[i] >= 0 && edges[i] <= 1, "edges", "edge ", i, " is ", edges[i]);
		if (i) CHK(edges[i] >= edges[i - 1], "edges", "edge ", i, " at ", edges[i] * n, " comes before ", edges[i - 1] * n);
	}
	for (size_t c = 0; c < r.crossings.size(); ++c) {
		const double below = edges[2 * c] * n, above = edges[2 * c + 1] * n, slack = r.noisy ? 2 : 1.01;
		CHK(below <= r.crossings[c] + slack && above >= r.crossings[c] - slack, "edges", "the transition at ", r.crossings[c], " is not between ", below, " and ", above);
		// An error function transition is what the measurement fits.
		const bool clean = r.ripples[c] == 0 && r.ripples[c + 1] == 0 && !r.noisy;
		if (clean && r.widths[c] >= 1) {
			NEAR("fitted edge", below, r.crossings[c] - 1.5 * r.widths[c], 2.5 + 0.04 * r.widths[c], "before transition ", c);
			NEAR("fitted edge", above, r.crossings[c] + 1.5 * r.widths[c], 2.5 + 0.04 * r.widths[c], "after transition ", c);
		}
		CHK(above - below <= 16 * r.widths[c] + 4 * r.period, "edges", "the transition between ", below, " and ", above, " is too wide");
	}
	for (size_t b = 0; b < numBands; ++b) {
		const double size = r.bands[b] ? (1 + std::abs(r.bias[b])) * r.ripples[b] : 2 * r.ripples[b];
		const bool crisp = r.period >= 8;
		if (r.ripples[b] == 0) {
			if (!r.noisy) CHK(ripples[b] <= 1e-3, "ripple", "band ", b, " has none but measures ", ripples[b]);
		}
		else if (crisp) CHK(ripples[b] <= size * 1.001 + 1e-3 && ripples[b] >= size * 0.85, "ripple", "band ", b, " ripples by ", size, " but measures ", ripples[b]);
	}
}
PROP("measure", 20000, "responses of 1..5 alternating bands with error-function transitions of random place and width, ripples around, above or below unit gain, noise inside the hysteresis; kind, specific and general measurement, edge order and enclosure, fitted edge places, ripple sizes; non-trivial = one of the four kinds") {
	if (g.flag()) Measure<float>(g);
	else Measure<double>(g);
}
