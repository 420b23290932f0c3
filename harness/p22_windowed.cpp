// P22: windowed FIR designs.
#include "firdesign.hpp"
using namespace h;

template <class T, class Param>
void Bands(Gen& g) {
	const size_t n = 2 * g.length(1, g.chance(1, 8) ? 150 : 40, 6) + 1;
	const int kind = (int)g.draw(3);
	const auto edge = [&] { return Param(g.flag() ? g.pick({ 0.5, 0.25, 0.75, 0.0, 1.0, 0.1, 0.9 }) : g.real(0, 1)); };
	Param f1 = edge(), f2 = edge();
	if (f1 > f2) std::swap(f1, f2);
	static const char* names[] = { "low-pass", "high-pass", "band-pass", "band-stop" };
	g.note(TypeName<T>(), " ", names[kind], " taps ", n, " edges ", f1, " ", f2);
	g.label(names[kind]);
	g.labelIf(f1 == Param(0), "edge at zero");
	g.nontrivial(n >= 5);
	WithWindow<T>(g, n, [&](const auto& window, const std::vector<T>& w) {
		std::vector<T> got;
		const ld eParam = std::max(Eps<T>(), Eps<Param>());
		Taps ref;
		if (kind < 2) {
			got = kind == 0 ? RunDesign<T>(g, n, g.flag() ? Fir.Lowpass.Windowed.Cutoff(f1).Window(window) : Fir.Lowpass.Windowed.Window(window).Cutoff(f1))
							: RunDesign<T>(g, n, Fir.Highpass.Windowed.Cutoff(f1).Window(window));
			ref = RefLowpass(w, f1);
		}
		else {
			got = kind == 2 ? RunDesign<T>(g, n, g.flag() ? Fir.Bandpass.Windowed.Band(f1, f2).Window(window) : Fir.Bandpass.Windowed.Window(window).Band(f1, f2))
							: RunDesign<T>(g, n, Fir.Bandstop.Windowed.Band(f1, f2).Window(window));
			ref = RefLowpass(w, ((ld)f2 - (ld)f1) / 2);
			// The half width is computed in the parameter's type.
			for (size_t i = 0; i < n; ++i) ref.tol[i] += eParam * std::abs((ld)w[i]) * 8;
			RefShift(ref, ((ld)f1 + (ld)f2) / 2, eParam);
		}
		if (kind % 2) RefComplement(ref, Eps<T>());
		CHK(got.size() == n, "size", "taps ", got.size());
		if (!ref.usable) return; // the window all but cancels the zero-frequency gain
		for (size_t i = 0; i < n; ++i) NEAR("taps", got[i], ref.t[i], ref.tol[i] + 1e-30L, "tap ", i);
		bool symmetric = true;
		for (size_t i = 0; i < n; ++i) symmetric = symmetric && w[i] == w[n - 1 - i];
		ld tolSum = 1e-30L;
		for (auto t : ref.tol) tolSum += t;
		if (symmetric)
			for (size_t i = 0; i < n / 2; ++i) NEAR("symmetry", got[i], got[n - 1 - i], 8 * (ref.tol[i] + ref.tol[n - 1 - i]), "tap ", i);
		if (kind < 2) NEAR("gain at zero", CenteredResponse(got, 0), kind == 0 ? 1 : 0, 2 * tolSum, "");
	});
}
#define RULE "type, parameter type, band kind, 3..301 taps, edges in [0,1] incl. 0, 1 and equal edges, 10 window functions, user function, user samples; taps against the windowed ideal response; non-trivial = 5 taps or more"
#if PBT_IN_PART(0)
PROP("taps-double", 20000, RULE) { Bands<double, double>(g); }
#endif
#if PBT_IN_PART(1)
PROP("taps-float", 20000, RULE) { Bands<float, float>(g); }
#endif
#if PBT_IN_PART(2)
PROP("taps-mixed", 10000, RULE) { Bands<double, float>(g); }
#endif

template <class T>
void Selective(Gen& g) {
	// End to end: pass bands near one, stop bands near zero, away from the edges by several main lobe widths.
	const size_t n = 2 * g.range<size_t>(20, 100) + 1;
	const double margin = 12.0 / double(n); // main lobe half width of the widest window here, with reserve
	const int kind = (int)g.draw(3);
	T f1 = T(g.real(0.05, 0.95)), f2 = T(g.real(0.05, 0.95));
	if (f1 > f2) std::swap(f1, f2);
	if (kind >= 2 && f2 - f1 < T(2.5 * margin)) g.discard();
	g.note(TypeName<T>(), " kind ", kind, " taps ", n, " edges ", f1, " ", f2);
	const auto run = [&](const auto& w, const char* name) {
		g.label(name);
		switch (kind) {
			case 0: return DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(f1).Window(w));
			case 1: return DesignFilter<T, TIME_DOMAIN>(n, Fir.Highpass.Windowed.Cutoff(f1).Window(w));
			case 2: return DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandpass.Windowed.Band(f1, f2).Window(w));
			default: return DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandstop.Windowed.Band(f1, f2).Window(w));
		}
	};
	BasicSignal<T, TIME_DOMAIN> taps;
	switch (g.draw(5)) {
		case 0: taps = run(windows::hamming, "hamming"); break;
		case 1: taps = run(windows::blackman, "blackman"); break;
		case 2: taps = run(windows::blackmanHarris, "blackman-harris"); break;
		case 3: taps = run(windows::flattop, "flattop"); break;
		case 4: taps = run(windows::lanczos, "lanczos"); break;
		default: taps = run(windows::kaiser.alpha(2.0), "kaiser"); break;
	}
	if (kind < 2 && (f1 < T(1.5 * margin))) g.discard(); // no room for a lobe below the edge
	int looked = 0;
	for (int i = 0; i <= 24; ++i) {
		const ld f = i / 24.0L;
		const ld away = std::min(std::abs(f - (ld)f1), kind < 2 ? 1.0L : std::abs(f - (ld)f2));
		if (away < margin) continue;
		++looked;
		const bool inside = kind < 2 ? f < (ld)f1 : f > (ld)f1 && f < (ld)f2;
		const bool pass = kind == 0 || kind == 2 ? inside : !inside;
		NEAR("response", CenteredResponse(taps, f), pass ? 1 : 0, 0.04L, pass ? "pass band" : "stop band", " at ", (double)f);
	}
	g.nontrivial(looked >= 5);
}
#if PBT_IN_PART(2)
PROP("bands", 3000, "41..201 taps, six windows: response within 0.04 of 1 or 0 on 25 frequencies more than 12/taps away from the edges; non-trivial = 5 or more such frequencies") {
	if (g.flag()) Selective<float>(g);
	else Selective<double>(g);
}
#endif

template <class T>
void Arbitrary(Gen& g) {
	const size_t n = 2 * g.length(1, g.chance(1, 8) ? 150 : 40, 6) + 1, bins = n / 2 + 1;
	const int order = (int)g.draw(4);
	std::vector<double> c(order + 1);
	for (auto& v : c) v = g.nice(-1, 1);
	const bool complexResponse = g.flag();
	const double delay = complexResponse ? g.nice(-2, 2) : 0;
	g.note(TypeName<T>(), " taps ", n, " response ", Show(c), " delay ", delay);
	g.label(complexResponse ? "complex response" : "real response");
	g.nontrivial(n >= 5 && order >= 1);
	const auto poly = [c](double f) {
		double v = 0;
		for (size_t i = c.size(); i-- > 0;) v = v * f + c[i];
		return v;
	};
	WithWindow<T>(g, n, [&](const auto& window, const std::vector<T>& w) {
		std::vector<T> got;
		if (complexResponse) {
			const auto response = [poly, delay](auto f) {
				using F = decltype(f);
				return std::complex<F>(std::polar(1.0, -3.14159265358979323846 * delay * (double)f) * poly((double)f));
			};
			got = RunDesign<T>(g, n, Fir.Arbitrary.Windowed.Response(response).Window(window), false);
		}
		else {
			const auto response = [poly](auto f) { return decltype(f)(poly((double)f)); };
			got = RunDesign<T>(g, n, g.flag() ? Fir.Arbitrary.Windowed.Response(response).Window(window) : Fir.Arbitrary.Windowed.Window(window).Response(response), false);
		}
		CHK(got.size() == n, "size", "taps ", got.size());
		ld mag = 0;
		std::vector<cld> r(bins);
		for (size_t j = 0; j < bins; ++j) {
			const ld f = (ld)j / (ld)(bins - 1);
			r[j] = std::polar(1.0L, -PI * (ld)delay * f) * (ld)poly((double)f);
			mag += AbsC(r[j]);
		}
		for (auto v : c) mag += std::abs(v) * c.size();
		const ld m = n / 2;
		const size_t stride = n > 61 ? 7 : 1;
		for (size_t i = 0; i < n; i += stride) {
			const ld k = (ld)i - m;
			ld t = r[0].real();
			for (size_t j = 1; j < bins; ++j) t += 2 * (r[j] * std::polar(1.0L, 2 * PI * k * j / n)).real();
			t /= n;
			NEAR("taps", got[i], (ld)w[i] * t, Eps<T>() * 40 * mag * (std::abs((ld)w[i]) + Eps<T>()) + 1e-36L, "tap ", i);
		}
	});
}
#if PBT_IN_PART(3)
PROP("arbitrary", 12000, "3..301 taps, polynomial responses with optional linear phase, all windows; taps against the window times the inverse transform of the response on a uniform grid; non-trivial = 5 taps and non-constant response") {
	if (g.flag()) Arbitrary<float>(g);
	else Arbitrary<double>(g);
}
#endif
