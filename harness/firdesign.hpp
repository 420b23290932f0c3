// Shared by the FIR design checks: any window with its samples, reference designs, amplitude responses.
#pragma once
#include "common.hpp"
#include <dspbb/Filtering/Resample.hpp>

#include <dspbb/Filtering/FIR.hpp>

namespace h {

/// A user-written window function (not one of the library's).
struct WelchWindow {
	template <class SignalR>
	auto operator()(SignalR&& out) const -> std::enable_if_t<is_mutable_signal_v<SignalR>> {
		using R = typename signal_traits<std::decay_t<SignalR>>::type;
		const double m = (double(out.size()) - 1) / 2;
		for (size_t i = 0; i < out.size(); ++i) {
			const double x = (double(i) - m) / (m + 1);
			out[i] = R(remove_complex_t<R>(1 - x * x));
		}
	}
};

/// Calls f(window, samples) with a window function object or a signal of samples; the samples are what the window holds at length n.
template <class T, class F>
void WithWindow(Gen& g, size_t n, F&& f) {
	const auto func = [&](const auto& w, const char* name) {
		BasicSignal<T, TIME_DOMAIN> s(n);
		w(s);
		g.note("window ", name);
		g.label(name);
		f(w, Vec(s));
	};
	switch (g.draw(11)) {
		case 0: func(windows::hamming, "hamming"); break;
		case 1: func(windows::rectangular, "rectangular"); break;
		case 2: func(windows::flattop, "flattop"); break;
		case 3: func(windows::triangular, "triangular"); break;
		case 4: func(windows::blackman, "blackman"); break;
		case 5: func(windows::blackmanHarris, "blackman-harris"); break;
		case 6: func(windows::gaussian.sigma(g.nice(0.2, 1.5)), "gaussian"); break;
		case 7: func(windows::kaiser.alpha(g.nice(0.25, 3)), "kaiser"); break;
		case 8: func(windows::lanczos, "lanczos"); break;
		case 9: func(windows::dolphChebyshev.attenuation(g.pick({ 0.1, 0.01, 0.001 })), "dolph-chebyshev"); break;
		case 10: func(WelchWindow{}, "user function"); break;
		default: {
			BasicSignal<T, TIME_DOMAIN> s(n);
			uint64_t seed = g.draw(0xffff) * 31 + 5;
			const bool symmetric = g.flag();
			for (size_t i = 0; i < n; ++i) s[i] = T(0.1 + U01(seed));
			if (symmetric)
				for (size_t i = 0; i < n / 2; ++i) s[n - 1 - i] = s[i];
			g.note("window samples", symmetric ? " symmetric" : "");
			g.label("window samples");
			f(s, Vec(s));
		}
	}
}

inline ld Sinc(ld x) { return x == 0 ? 1 : std::sin(x) / x; }

struct Taps {
	std::vector<ld> t, tol;
	bool usable = true;
};
/// Windowed ideal low-pass normalised to unit gain at zero frequency.
template <class T>
Taps RefLowpass(const std::vector<T>& w, ld cutoff) {
	const size_t n = w.size(), m = n / 2;
	Taps r{ std::vector<ld>(n), std::vector<ld>(n) };
	ld sum = 0, mag = 0;
	for (size_t i = 0; i < n; ++i) {
		r.t[i] = (ld)w[i] * Sinc(PI * cutoff * ((ld)i - (ld)m));
		sum += r.t[i];
		mag += std::abs((ld)w[i]);
	}
	r.usable = std::abs(sum) > 0.02L * mag;
	for (size_t i = 0; i < n; ++i) {
		r.t[i] /= sum;
		r.tol[i] = 2 * Eps<T>() * (6 * std::abs((ld)w[i] / sum) + std::abs(r.t[i]) * (n + 8) * mag / std::abs(sum)) + (ld)std::numeric_limits<T>::min();
	}
	return r;
}
/// Modulation by twice a cosine: the response moves to +-center.
inline void RefShift(Taps& r, ld center, ld e) {
	const ld m = ((ld)r.t.size() - 1) / 2;
	for (size_t i = 0; i < r.t.size(); ++i) {
		const ld k = (ld)i - m, c = 2 * std::cos(PI * center * k);
		r.tol[i] = 2 * r.tol[i] + std::abs(r.t[i]) * e * (8 + 8 * std::abs(k));
		r.t[i] *= c;
	}
}
inline void RefComplement(Taps& r, ld e) {
	for (auto& v : r.t) v = -v;
	r.t[r.t.size() / 2] += 1;
	r.tol[r.t.size() / 2] += 4 * e * (1 + std::abs(r.t[r.t.size() / 2]));
}

/// Response about the centre tap: sum of taps times exp(-i pi f (k - (n-1)/2)).
template <class V>
cld CenteredResponse(const V& taps, ld f) {
	cld h = 0;
	const ld m = ((ld)taps.size() - 1) / 2;
	for (size_t i = 0; i < taps.size(); ++i) h += ToC(taps[i]) * std::polar(1.0L, -PI * f * ((ld)i - m));
	return h;
}

/// Either the returning form, or designing into a signal or view that holds something else already.
template <class T, class Desc>
std::vector<T> RunDesign(Gen& g, size_t n, const Desc& desc, bool viewAllowed = true) {
	switch (g.draw(viewAllowed ? 2 : 1)) {
		case 0: return Vec(DesignFilter<T, TIME_DOMAIN>(n, desc));
		case 1: {
			BasicSignal<T, TIME_DOMAIN> s(n, T(7));
			DesignFilter(s, desc);
			return Vec(s);
		}
		default: {
			Guarded<T> b(std::vector<T>(n, T(7)), g.draw(3), 4);
			if constexpr (requires { DesignFilter(b.view(), desc); }) {
				auto v = b.view();
				DesignFilter(v, desc);
			}
			CHK(b.padIntact(), "stray-write", "design wrote outside the taps");
			return b.vec();
		}
	}
}

} // namespace h
