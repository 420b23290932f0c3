// P28: window functions against their formulas.
#include "common.hpp"
#include <dspbb/Filtering/Windowing.hpp>
using namespace h;

enum eKind { HAMMING, RECTANGULAR, FLATTOP, TRIANGULAR, BLACKMAN, BLACKMANHARRIS, LANCZOS, GAUSSIAN, KAISER, DOLPHCHEBYSHEV, NUM_KINDS };
const char* const kNames[] = { "hamming", "rectangular", "flat-top", "triangular", "blackman", "blackman-harris", "lanczos", "gaussian", "kaiser", "dolph-chebyshev" };

ld BesselI0(ld x) {
	ld sum = 1, term = 1;
	for (int k = 1; k < 4000; ++k) {
		term *= (x / (2 * k)) * (x / (2 * k));
		sum += term;
		if (term < sum * 1e-22L) break;
	}
	return sum;
}
ld Cheb(size_t n, ld x) {
	if (std::abs(x) <= 1) return std::cos((ld)n * std::acos(x));
	const ld v = std::cosh((ld)n * std::acosh(std::abs(x)));
	return x < 0 && n % 2 ? -v : v;
}

/// Published values and the rounding a straightforward evaluation in precision eps is entitled to.
void Reference(eKind kind, size_t n, ld param, ld eps, std::vector<ld>& w, std::vector<ld>& tol) {
	w.assign(n, 0);
	tol.assign(n, 24 * eps);
	const ld last = (ld)n - 1;
	for (size_t i = 0; i < n; ++i) {
		const ld a = 2 * PI * (ld)i / last, u = 2 * (ld)i / last - 1; // angle, position in [-1,1]
		switch (kind) {
			case HAMMING: w[i] = 0.54L - 0.46L * std::cos(a); break;
			case RECTANGULAR: w[i] = 1, tol[i] = 0; break;
			case FLATTOP:
				w[i] = 0.21557895L - 0.41663158L * std::cos(a) + 0.277263158L * std::cos(2 * a) - 0.083578947L * std::cos(3 * a) + 0.006947368L * std::cos(4 * a);
				break;
			case TRIANGULAR: w[i] = 1 - std::abs(u); break;
			case BLACKMAN: w[i] = 0.42L - 0.5L * std::cos(a) + 0.08L * std::cos(2 * a); break;
			case BLACKMANHARRIS: w[i] = 0.35875L - 0.48829L * std::cos(a) + 0.14128L * std::cos(2 * a) - 0.01168L * std::cos(3 * a); break;
			case LANCZOS: w[i] = u == 0 ? 1 : std::sin(PI * u) / (PI * u); break;
			case GAUSSIAN: {
				const ld e = std::abs(u) / param;
				w[i] = std::exp(-0.5L * e * e);
				tol[i] = w[i] * eps * (16 + 4 * e * e + 4 * e / param) + eps * 1e-3L;
				break;
			}
			case KAISER:
				w[i] = BesselI0(PI * param * std::sqrt(std::max(0.0L, 1 - u * u))) / BesselI0(PI * param);
				tol[i] = eps * w[i] * (64 + 8 * PI * param * (1 + PI * param)) + eps * 1e-3L;
				break;
			default: break;
		}
	}
	if (kind == DOLPHCHEBYSHEV) {
		const size_t m = n - 1;
		const ld beta = std::cosh(std::acosh(1 / param) / (ld)m);
		std::vector<ld> s(n);
		for (size_t k = 0; k < n; ++k) s[k] = Cheb(m, beta * std::cos(PI * (ld)k / (ld)n));
		ld big = 0;
		for (size_t i = 0; i < n; ++i) {
			for (size_t k = 0; k < n; ++k) w[i] += s[k] * std::cos(2 * PI * (ld)k * ((ld)i - (ld)m / 2) / (ld)n);
			big = std::max(big, std::abs(w[i]));
		}
		ld spread = 0;
		for (size_t k = 0; k < n; ++k) spread += std::abs(s[k]);
		for (size_t i = 0; i < n; ++i) w[i] /= big, tol[i] = eps * (16 + 2 * (ld)(m * m)) * spread / big;
	}
}

template <class Obj, class T, eSignalDomain D>
concept HasMaker = requires(Obj& o) { o.template operator()<T, D>(size_t(1)); };

template <class T, class R, eSignalDomain D>
std::vector<T> Make(Gen& g, eKind kind, size_t n, R param, int form) {
	const auto into = [&](auto&& out, auto obj, auto func) {
		if (form == 1) func(out);
		else obj(out);
	};
	const auto run = [&](auto obj, auto func, auto ret) -> std::vector<T> {
		if (form == 0) return Vec(ret());
		if (form == 3) {
			if constexpr (HasMaker<decltype(obj), T, D>) return Vec(obj.template operator()<T, D>(n));
		}
		if (form == 4) {
			BasicSignal<T, D> s(n, T(R(9)));
			obj(s);
			return Vec(s);
		}
		Guarded<T> b(std::vector<T>(n, T(R(9))), g.draw(3), 3);
		auto v = b.template view<D>();
		into(v, obj, func);
		CHK(b.padIntact(), "stray-write", "");
		return b.vec();
	};
	switch (kind) {
		case HAMMING: return run(windows::hamming, [](auto& o) { HammingWindow(o); }, [&] { return HammingWindow<T, D>(n); });
		case RECTANGULAR: return run(windows::rectangular, [](auto& o) { RectangularWindow(o); }, [&] { return RectangularWindow<T, D>(n); });
		case FLATTOP: return run(windows::flattop, [](auto& o) { FlatTopWindow(o); }, [&] { return FlatTopWindow<T, D>(n); });
		case TRIANGULAR: return run(windows::triangular, [](auto& o) { TriangularWindow(o); }, [&] { return TriangularWindow<T, D>(n); });
		case BLACKMAN: return run(windows::blackman, [](auto& o) { BlackmanWindow(o); }, [&] { return BlackmanWindow<T, D>(n); });
		case BLACKMANHARRIS: return run(windows::blackmanHarris, [](auto& o) { BlackmanHarrisWindow(o); }, [&] { return BlackmanHarrisWindow<T, D>(n); });
		case LANCZOS: return run(windows::lanczos, [](auto& o) { LanczosWindow(o); }, [&] { return LanczosWindow<T, D>(n); });
		case GAUSSIAN: {
			// The default width is one.
			if (param == R(1) && form >= 2) return run(windows::gaussian, [](auto&) {}, [] { return std::vector<T>(); });
			return run(windows::gaussian.sigma(param), [=](auto& o) { GaussianWindow(o, param); }, [&] { return GaussianWindow<T, D>(n, param); });
		}
		case KAISER: {
			if (param == R(1) && form >= 2) return run(windows::kaiser, [](auto&) {}, [] { return std::vector<T>(); });
			return run(windows::kaiser.alpha(param), [=](auto& o) { KaiserWindow(o, param); }, [&] { return KaiserWindow<T, D>(n, param); });
		}
		default:
			if constexpr (D == TIME_DOMAIN) {
				return run(windows::dolphChebyshev.attenuation(param), [=](auto& o) { DolphChebyshevWindow(o, param); }, [&] { return DolphChebyshevWindow<T, D>(n, param); });
			}
			return {};
	}
}

template <class T, eSignalDomain D>
void Window(Gen& g) {
	using R = real_of_t<T>;
	eKind kind = (eKind)g.draw(D == TIME_DOMAIN ? NUM_KINDS - 1 : NUM_KINDS - 2);
	size_t n = g.size(2, g.chance(1, 4) ? 400 : 40);
	if (kind != DOLPHCHEBYSHEV && g.chance(1, 60)) n = g.range<size_t>(1000, 6000);
	if (kind == DOLPHCHEBYSHEV) n = std::min<size_t>(n, 200);
	R param = 1;
	if (kind == GAUSSIAN) param = R(g.flag() ? g.pick({ 1.0, 0.5, 0.25, 2.0, 10.0 }) : g.chance(1, 6) ? g.nice(3.0, 40.0) : g.nice(0.05, 3));
	if (kind == KAISER) {
		// The Bessel functions themselves overflow where exp(pi alpha) does.
		const double top = sizeof(R) == 4 ? 26 : 200;
		param = R(g.flag() ? g.pick({ 1.0, 0.0, 0.5, 2.0, 3.0, 10.0, 20.0 }) : g.chance(1, 4) ? g.nice(8.0, top) : g.nice(0.0, 8));
	}
	if (kind == DOLPHCHEBYSHEV) param = R(g.flag() ? g.pick({ 0.1, 0.01, 0.001 }) : std::pow(10.0, -g.real(0.3, 5)));
	int form = (int)g.draw(4);
	g.note(kNames[kind], " ", TypeName<T>(), " length ", n, " parameter ", param, " form ", form);
	g.label(kNames[kind]);
	g.label(n % 2 ? "odd length" : "even length");
	g.nontrivial(n >= 3);
	std::vector<ld> want, tol;
	Reference(kind, n, (ld)param, Eps<T>(), want, tol);
	const auto got = Make<T, R, D>(g, kind, n, param, form);
	CHK(got.size() == n, "size", got.size());
	ld big = -1e9L, maxTol = 0, sum = 0, energy = 0;
	for (size_t i = 0; i < n; ++i) {
		CHK(Finite(got[i]), "finite", "sample ", i);
		NEAR("formula", got[i], want[i], tol[i], kNames[kind], " sample ", i, " of ", n);
		NEAR("symmetry", got[i], ToC(got[n - 1 - i]), tol[i] + tol[n - 1 - i], kNames[kind], " sample ", i, " of ", n);
		big = std::max(big, ToC(got[i]).real());
		maxTol = std::max(maxTol, tol[i]);
		sum += ToC(got[i]).real();
		energy += std::norm(ToC(got[i]));
	}
	if (kind != DOLPHCHEBYSHEV) CHK(ToC(got[n / 2]).real() >= big - 2 * maxTol, "peak", "the centre is ", (double)ToC(got[n / 2]).real(), ", the peak ", (double)big);
	else NEAR("peak", big, 1, maxTol);

	// Gains.
	const BasicSignal<T, D> s(got.begin(), got.end());
	const ld gtol = Eps<T>() * (ld)(8 + n);
	NEAR("coherent gain", CoherentGain(s), sum / n, gtol);
	NEAR("energy gain", EnergyGain(s), energy / n, gtol);
	NEAR("coherent gain of a view", CoherentGain(AsConstView(s)), sum / n, gtol);
	NEAR("energy gain of a view", EnergyGain(AsConstView(s)), energy / n, gtol);

	if (kind == DOLPHCHEBYSHEV) {
		// Side lobes.
		const ld beta = std::cosh(std::acosh(1 / (ld)param) / (ld)(n - 1));
		uint64_t seed = g.draw(0xffff) + 1;
		const auto gain = [&](ld f) {
			cld h = 0;
			for (size_t i = 0; i < n; ++i) h += ToC(got[i]) * std::polar(1.0L, -2 * PI * f * (ld)i);
			return AbsC(h);
		};
		const ld dc = gain(0);
		for (int i = 0; i < 8; ++i) {
			const ld f = 0.5L * U01(seed);
			if (beta * std::cos(PI * f) <= 1) CHK(gain(f) <= dc * (ld)param + 2 * maxTol * n, "side lobes", "gain at ", (double)f, " is ", (double)(gain(f) / dc), " of the main lobe, requested ", param);
		}
	}
}
PROP("windows", 40000, "ten windows, length 2..400 (rarely 6000), random parameters, real and complex, time and frequency domain, five call forms into junk; every sample against the published formula in long double, symmetry, peak, gains, side lobes of Dolph-Chebyshev; non-trivial = 3 samples or more") {
	switch (g.draw(5)) {
		case 0: Window<double, TIME_DOMAIN>(g); break;
		case 1: Window<float, TIME_DOMAIN>(g); break;
		case 2: Window<cf, TIME_DOMAIN>(g); break;
		case 3: Window<cd, TIME_DOMAIN>(g); break;
		case 4: Window<float, FREQUENCY_DOMAIN>(g); break;
		default: Window<double, FREQUENCY_DOMAIN>(g); break;
	}
}
template <class T>
void Gains(Gen& g) {
	const size_t n = g.length(1, 200);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "window");
	g.nontrivial(n >= 2);
	cld sum = 0, squares = 0;
	ld mag = 0, energy = 0;
	for (const auto& v : x) sum += ToC(v), squares += ToC(v) * ToC(v), mag += AbsL(v), energy += std::norm(ToC(v));
	const auto s = Sig(x);
	NEAR("coherent gain", CoherentGain(s), sum / (ld)n, Eps<T>() * (8 + n) * mag / n);
	NEAR("energy gain", EnergyGain(s), squares / (ld)n, Eps<T>() * (8 + n) * energy / n);
}
PROP("gains", 10000, "arbitrary real sample windows 1..200: mean and mean square; non-trivial = 2 samples or more") {
	if (g.flag()) Gains<float>(g);
	else Gains<double>(g);
}
