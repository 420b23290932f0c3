// P04: element-wise math functions equal the scalar function at every index.
#include "common.hpp"

#include <dspbb/Math/Functions.hpp>
using namespace h;

// Value generator: a random value in [lo, hi] of the function's domain: linear, log-magnitude, or special points.
template <class R>
R DomainValue(uint64_t& s, double lo, double hi) {
	const double u = U01(s);
	double v;
	switch (pbt::SplitMix(s) % 6) {
		case 0: v = lo + (hi - lo) * u; break;
		case 4: v = 20 * u - 10; break;
		case 5: v = std::round(16 * (20 * u - 10)) / 16; break;
		case 1: {
			const double m = std::max(std::abs(lo), std::abs(hi));
			v = m * std::pow(10.0, (m > 1e6 ? -40 : -6) * u);
			if (lo < 0 && pbt::SplitMix(s) % 2) v = -v;
			break;
		}
		case 2: v = std::round(lo + (hi - lo) * u); break;
		default: v = std::round(8 * (lo + (hi - lo) * u)) / 8; break;
	}
	v = std::min(std::max(v, lo), hi);
	R r = R(v);
	if (double(r) < lo) r = std::nextafter(r, R(hi));
	if (double(r) > hi) r = std::nextafter(r, R(lo));
	return r + R(0); // no negative zeros: the sign of zero selects the side of a branch cut
}

template <class T>
std::vector<T> Values(Gen& g, size_t n, double lo, double hi, double ilo = 0, double ihi = 0) {
	uint64_t s = g.draw(0xffffff) * 0x9E3779B97F4A7C15ull + 99;
	std::vector<T> v(n);
	for (auto& x : v) {
		if constexpr (is_cplx_v<T>) {
			const auto re = DomainValue<real_of_t<T>>(s, lo, hi);
			x = T(re, DomainValue<real_of_t<T>>(s, ilo, ihi));
		}
		else {
			x = DomainValue<T>(s, lo, hi);
		}
	}
	return v;
}

// cond(x): extra tolerance from the conditioning of the function at x (|x f'(x)| * eps etc.).
template <class T, class R, class Out, class Ret, class Ref, class Tol>
void Run(Gen& g, const char* name, const std::vector<T>& x, Out&& out, Ret&& ret, Ref&& ref, Tol&& tol) {
	const size_t n = x.size();
	const int form = (int)g.draw(3);
	g.note(name, " ", TypeName<T>(), " n=", n, " form ", form, " x=", Show(x, 5));
	g.label(std::string("fn ") + name);
	g.label("form " + std::to_string(form));
	g.nontrivial(n >= 5);
	auto verify = [&](const auto& r, const char* what) {
		CHK(r.size() == n, "size", name, " ", what, ": size ", r.size(), " want ", n);
		for (size_t i = 0; i < n; ++i) {
			NEAR("value", R(r[i]), ToC(ref(ToC(x[i]))), tol(ToC(x[i])), name, " ", what, " index ", i, " of ", n, " x=", CStr(ToC(x[i])));
		}
	};
	Guarded<T> gx(x, g.draw(7), 3);
	const auto vx = gx.cview();
	if (form == 0) {
		const BasicSignal<T, TIME_DOMAIN> s(x.begin(), x.end());
		const auto r = ret(s);
		static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, R>);
		verify(r, "returning");
	}
	else if (form == 1) {
		auto mv = gx.view();
		const auto r = ret(mv);
		verify(r, "returning(view)");
		CHK(gx.untouched(), "input-changed", "input modified");
	}
	else if (form == 2 || !std::is_same_v<T, R>) {
		Guarded<R> gr(n, g.draw(7), 11);
		auto vr = gr.view();
		out(vr, vx);
		verify(vr, "output parameter");
		CHK(gr.padIntact(), "stray-write", name, " wrote outside the output");
		CHK(gx.untouched(), "input-changed", "input modified");
	}
	else {
		if constexpr (std::is_same_v<T, R>) {
			auto mv = gx.view();
			out(mv, mv);
			verify(mv, "in place");
			CHK(gx.padIntact(), "stray-write", name, " wrote outside the output");
		}
	}
}

// Real function: few-ulp tolerance plus conditioning with respect to one ulp of the argument.
#define REALFN(T, NAME, LO, HI, REF, DERIV, ULPS)                                                                                      \
	[](Gen& g) {                                                                                                                      \
		const auto x = Values<T>(g, g.length(0, 120), LO, HI);                                                                          \
		Run<T, T>(                                                                                                                    \
			g, #NAME, x, [](auto&& o, const auto& i) { NAME(o, i); }, [](const auto& s) { return NAME(s); },                          \
			[](const cld& c) -> ld { const ld v = c.real(); return REF; },                                                           \
			[](const cld& c) -> ld { const ld v = c.real(); const ld f = REF; const ld d = DERIV; return Eps<T>() * (ULPS == 0 ? 0.0L : 48 * std::abs(f) + 8 * std::abs(v * d)) + (ld)std::numeric_limits<T>::min(); }); \
	}

template <class T>
constexpr double big = std::is_same_v<T, float> ? 85 : 700;
using Fn = void (*)(Gen&);
template <class T>
void RealCase(Gen& g) {
	const Fn fns[] = {
		REALFN(T, Abs, -1e30, 1e30, std::abs(v), 0.0L, 0.0L),
		REALFN(T, Log, 1e-30, 1e30, std::log(v), 1.0L / v, 4.0L),
		REALFN(T, Log2, 1e-30, 1e30, std::log2(v), 1.5L / v, 4.0L),
		REALFN(T, Log10, 1e-30, 1e30, std::log10(v), 0.5L / v, 4.0L),
		REALFN(T, Exp, -big<T>, big<T>, std::exp(v), 1.0L * std::exp(v), 4.0L),
		REALFN(T, Sqrt, 0.0, 1e30, std::sqrt(v), 0.0L, 1.0L),
		REALFN(T, Cbrt, -1e30, 1e30, std::cbrt(v), 0.0L, 4.0L),
		REALFN(T, Sin, -1e4, 1e4, std::sin(v), std::cos(v), 4.0L),
		REALFN(T, Cos, -1e4, 1e4, std::cos(v), std::sin(v), 4.0L),
		REALFN(T, Tan, -20.0, 20.0, std::tan(v), (1 + std::tan(v) * std::tan(v)), 5.0L),
		REALFN(T, Asin, -1.0, 1.0, std::asin(v), 1.0L / std::sqrt(1 - v * v + 1e-30L), 4.0L),
		REALFN(T, Acos, -1.0, 1.0, std::acos(v), 1.0L / std::sqrt(1 - v * v + 1e-30L), 4.0L),
		REALFN(T, Atan, -1e30, 1e30, std::atan(v), 1.0L / (1 + v * v), 4.0L),
		REALFN(T, Sinh, -big<T>, big<T>, std::sinh(v), std::cosh(v), 5.0L),
		REALFN(T, Cosh, -big<T>, big<T>, std::cosh(v), std::sinh(v), 5.0L),
		REALFN(T, Tanh, -big<T>, big<T>, std::tanh(v), 1.0L / std::cosh(v) / std::cosh(v), 5.0L),
		REALFN(T, Asinh, -1e15, 1e15, std::asinh(v), 1.0L / std::sqrt(1 + v * v), 5.0L),
		REALFN(T, Acosh, 1.0, 1e15, std::acosh(v), (v > 1 ? 1.0L / std::sqrt(v * v - 1) : 0.0L), 5.0L),
		REALFN(T, Atanh, -0.9999, 0.9999, std::atanh(v), 1.0L / (1 - v * v), 5.0L),
		REALFN(T, Erf, -30.0, 30.0, std::erf(v), 1.13L * std::exp(-v * v), 5.0L),
		REALFN(T, Erfc, -5.0, 5.0, std::erfc(v), 40 * std::exp(-std::abs(v)) * (v < 3.2L ? 1.0L : std::exp(-v * (v - 3.2L))) / std::max(0.4L, std::abs(v)), 8.0L),
		REALFN(T, TGamma, 0.05, 30.0, std::tgamma(v), (std::tgamma(v) * (std::log(std::abs(v) + 2) + 1 / (std::abs(v - std::round(v)) + 1e-15L))), 10.0L),
		REALFN(T, LGamma, 0.05, 1e6, std::lgamma(v), (std::abs(std::log(v)) + 1 / v + 1), 10.0L),
		REALFN(T, Real, -1e30, 1e30, v, 0.0L, 0.0L),
		REALFN(T, Imag, -1e30, 1e30, 0.0L * v, 0.0L, 0.0L),
	};
	fns[g.draw(std::size(fns) - 1)](g);
}

template <class T>
void PowCase(Gen& g) {
	auto x = Values<T>(g, g.length(0, 120), 0.01, 50.0);
	T p = T(g.nice(-3, 4));
	// Negative bases have real powers only for integer exponents; a zero base only for positive ones.
	if (g.flag()) {
		p = T(g.range(-5, 6));
		uint64_t s = g.draw(0xffff) * 77 + 5;
		for (auto& v : x) {
			const int r = (int)(pbt::SplitMix(s) % 8);
			if (r < 4) v = -v;
			if (r == 4 && p > 0) v = 0;
		}
		g.label("integer exponent, bases of either sign");
	}
	Run<T, T>(
		g, "Pow", x, [p](auto&& o, const auto& i) { Pow(o, i, p); },
		[p](const auto& s) { if constexpr (is_signal_v<std::remove_cvref_t<decltype(s)>>) { return Pow(s, p); } else { Signal<T> r(s.size()); Pow(r, s, p); return r; } },
		[p](const cld& c) -> ld { return std::pow(c.real(), (ld)p); },
		[p](const cld& c) -> ld { const ld f = std::abs(std::pow(c.real(), (ld)p)); return c.real() == 0 ? 0 : Eps<T>() * f * (6 + std::abs((ld)p) * (2 + 2 * std::abs(std::log(std::abs(c.real()))))); });
	g.note("power ", p);
}

// Complex functions: relative to the magnitude of the result plus conditioning |z f'(z)|.
#define CPLXFN(T, NAME, RLO, RHI, REF, COND)                                                                                          \
	[](Gen& g) {                                                                                                                      \
		const auto x = Values<T>(g, g.length(0, 120), RLO, RHI, RLO, RHI);                                                              \
		using R = real_of_t<T>;                                                                                                       \
		Run<T, T>(                                                                                                                    \
			g, #NAME, x, [](auto&& o, const auto& i) { NAME(o, i); }, [](const auto& s) { return NAME(s); },                          \
			[](const cld& z) -> cld { return REF; },                                                                                  \
			[](const cld& z) -> ld { const cld f = REF; return Eps<R>() * (12 * AbsC(f) + 8 * (COND)) + 1e-30L; });                   \
	}
#define CPLXRFN(T, NAME, RLO, RHI, REF, COND)                                                                                         \
	[](Gen& g) {                                                                                                                      \
		const auto x = Values<T>(g, g.length(0, 120), RLO, RHI, RLO, RHI);                                                              \
		using R = real_of_t<T>;                                                                                                       \
		Run<T, R>(                                                                                                                    \
			g, #NAME, x, [](auto&& o, const auto& i) { NAME(o, i); }, [](const auto& s) { return NAME(s); },                          \
			[](const cld& z) -> cld { return cld(REF); },                                                                             \
			[](const cld& z) -> ld { return Eps<R>() * (COND); });                                                                    \
	}

template <class T>
void ComplexCase(Gen& g) {
	const Fn fns[] = {
		CPLXRFN(T, Abs, -1e3, 1e3, std::abs(z), 4 * std::abs(z)),
		CPLXRFN(T, Arg, -1e3, 1e3, std::arg(z), 16.0L),
		CPLXRFN(T, Real, -1e3, 1e3, z.real(), 0.0L),
		CPLXRFN(T, Imag, -1e3, 1e3, z.imag(), 0.0L),
		CPLXFN(T, Conj, -1e3, 1e3, std::conj(z), 0.0L),
		CPLXFN(T, Exp, -10.0, 10.0, std::exp(z), AbsC(z) * AbsC(f)),
		CPLXFN(T, Log, 0.01, 100.0, std::log(z), 1.0L),
		CPLXFN(T, Sqrt, -100.0, 100.0, std::sqrt(z), AbsC(f)),
		CPLXFN(T, Sin, -5.0, 5.0, std::sin(z), AbsC(z) * AbsC(std::cos(z)) + std::exp(std::abs(z.imag()))),
		CPLXFN(T, Cos, -5.0, 5.0, std::cos(z), AbsC(z) * AbsC(std::sin(z)) + std::exp(std::abs(z.imag()))),
		CPLXFN(T, Sinh, -5.0, 5.0, std::sinh(z), AbsC(z) * AbsC(std::cosh(z)) + std::exp(std::abs(z.real()))),
		CPLXFN(T, Cosh, -5.0, 5.0, std::cosh(z), AbsC(z) * AbsC(std::sinh(z)) + std::exp(std::abs(z.real()))),
		CPLXFN(T, Tan, 0.1, 1.2, std::tan(z), (1 + AbsC(z) * (1 + AbsC(f) * AbsC(f)))),
		CPLXFN(T, Asin, 0.05, 0.9, std::asin(z), 1 + 1 / AbsC(std::sqrt(1.0L - z * z))),
		CPLXFN(T, Acos, 0.05, 0.9, std::acos(z), 1 + 1 / AbsC(std::sqrt(1.0L - z * z))),
		CPLXFN(T, Atan, 0.05, 0.7, std::atan(z), 1 + 1 / AbsC(1.0L + z * z)),
		CPLXFN(T, Asinh, 0.05, 0.9, std::asinh(z), 1 + 1 / AbsC(std::sqrt(1.0L + z * z))),
		CPLXFN(T, Acosh, 0.05, 0.9, std::acosh(z), 2 + 1 / AbsC(std::sqrt(1.0L - z * z))),
		CPLXFN(T, Atanh, 0.05, 0.7, std::atanh(z), 1 + 1 / AbsC(1.0L - z * z)),
		CPLXFN(T, Log10, 0.01, 100.0, std::log10(z), 1.0L),
		CPLXFN(T, Tanh, 0.1, 2.0, std::tanh(z), (1 + AbsC(z) * (1 + AbsC(f) * AbsC(f)))),
	};
	fns[g.draw(std::size(fns) - 1)](g);
}

#if PBT_IN_PART(0)
PROP("real-functions-double", 60000, "function, length 0..120, values over the domain, form (returning, view, output parameter, in place); non-trivial = at least 5 samples") { RealCase<double>(g); }
#endif
#if PBT_IN_PART(1)
PROP("real-functions-float", 60000, "as real-functions-double") { RealCase<float>(g); }
#endif
#if PBT_IN_PART(2)
PROP("power", 10000, "positive bases with real exponents, bases of either sign and zero with integer exponents -5..6; non-trivial = at least 5 samples") {
	if (g.flag()) {
		PowCase<double>(g);
	}
	else {
		PowCase<float>(g);
	}
}
template <class T>
void ComplexPowCase(Gen& g) {
	using R = real_of_t<T>;
	const auto x = Values<T>(g, g.length(0, 120), 0.05, 20.0, 0.05, 20.0);
	const T p = T(R(g.nice(-2, 3)), R(g.flag() ? 0 : g.nice(-1, 1)));
	const cld pe = ToC(p);
	Run<T, T>(
		g, "complex Pow", x, [p](auto&& o, const auto& i) { Pow(o, i, p); },
		[p](const auto& s) { if constexpr (is_signal_v<std::remove_cvref_t<decltype(s)>>) { return Pow(s, p); } else { Signal<T> r(s.size()); Pow(r, s, p); return r; } },
		[pe](const cld& z) -> cld { return std::pow(z, pe); },
		[pe](const cld& z) -> ld { return Eps<R>() * AbsC(std::pow(z, pe)) * (16 + AbsC(pe) * (8 + 8 * AbsC(std::log(z)))); });
	g.note("power ", CStr(pe));
}
PROP("complex-power", 10000, "complex bases in the first quadrant, real and complex exponents; non-trivial = at least 5 samples") {
	if (g.flag()) {
		ComplexPowCase<std::complex<double>>(g);
	}
	else {
		ComplexPowCase<std::complex<float>>(g);
	}
}
PROP("complex-functions", 60000, "function, type, length, values over the domain, form; non-trivial = at least 5 samples") {
	if (g.flag()) {
		ComplexCase<cd>(g);
	}
	else {
		ComplexCase<cf>(g);
	}
}
#endif
