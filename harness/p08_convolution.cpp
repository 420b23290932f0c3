// P08: convolution equals its definition for every window of the result.
#include "common.hpp"

#include <dspbb/Kernels/Convolution.hpp>
#include <dspbb/Math/Convolution.hpp>
using namespace h;

// Definition in extended precision plus the sum of magnitudes for the rounding bound.
struct Point {
	cld v = 0;
	ld mag = 0;
	size_t terms = 0;
};
template <class T, class U>
Point Definition(const std::vector<T>& u, const std::vector<U>& v, size_t n) {
	Point p;
	const size_t lo = n + 1 > v.size() ? n + 1 - v.size() : 0;
	const size_t hi = std::min(u.size(), n + 1);
	for (size_t m = lo; m < hi; ++m) {
		const cld t = ToC(u[m]) * ToC(v[n - m]);
		p.v += t;
		p.mag += AbsL(u[m]) * AbsL(v[n - m]);
		++p.terms;
	}
	return p;
}

template <class T, class U, class R, class Out>
void Verify(Gen& g, const Out& out, const std::vector<T>& u, const std::vector<U>& v, size_t offset, const std::vector<R>* prev, const char* what) {
	for (size_t i = 0; i < out.size(); ++i) {
		Point p = Definition(u, v, offset + i);
		if (prev) {
			p.v += ToC((*prev)[i]);
			p.mag += AbsL((*prev)[i]);
		}
		NEAR("value", out[i], p.v, Eps<R>() * (10 + (ld)p.terms / 2) * p.mag, what, " u[", u.size(), "] v[", v.size(), "] offset ", offset, " length ", out.size(), " at ", i);
	}
}

inline void Lengths(Gen& g, size_t& nu, size_t& nv, size_t minLen) {
	nu = g.size(minLen, 200);
	switch (g.draw(3)) {
		case 0: nv = g.size(minLen, 40); break;
		case 1: nv = 31 + g.draw(4); break; // engine switch at 32
		case 2: nv = g.size(minLen, 200); break;
		default: nv = nu; break;
	}
	if (g.chance(1, 12)) {
		nu = g.size(minLen, 1400);
	}
	if (g.flag()) {
		std::swap(nu, nv);
	}
}

template <class T, class U>
void Case(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<U>());
	size_t nu, nv;
	Lengths(g, nu, nv, 0);
	const int maxStyle = g.flag() ? STYLE_WIDE : STYLE_SMALLINT;
	const auto u = Data<T>(g, nu, maxStyle, "u");
	const auto v = Data<U>(g, nv, maxStyle, "v");
	const size_t full = nu && nv ? nu + nv - 1 : 0;
	const size_t central = nu && nv ? std::max(nu, nv) - std::min(nu, nv) + 1 : 0;
	const size_t centralOffset = nu && nv ? std::min(nu, nv) - 1 : 0;
	CHK(ConvolutionLength(nu, nv, CONV_FULL) == full && ConvolutionLength(nu, nv, CONV_CENTRAL) == central, "length", "ConvolutionLength ", nu, ",", nv);
	Guarded<T> gu(u, g.draw(7), 3);
	Guarded<U> gv(v, g.draw(7), 4);
	const auto a = gu.cview();
	const auto b = gv.cview();
	const int mode = (int)g.draw(5);
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.label("mode " + std::to_string(mode));
	g.label(std::min(nu, nv) <= 32 ? "short engine" : "long engine");
	g.nontrivial(nu >= 2 && nv >= 2);
	g.note("mode ", mode, " lengths ", nu, ",", nv);
	if (mode == 0) {
		const auto r = Convolution(a, b, CONV_FULL);
		static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, R>);
		CHK(r.size() == full, "size", "full result size ", r.size());
		Verify<T, U, R>(g, r, u, v, 0, nullptr, "full");
		const auto q = Convolution(b, a, CONV_FULL);
		for (size_t i = 0; i < full; ++i) {
			const Point p = Definition(u, v, i);
			NEAR("commutative", q[i], p.v, Eps<R>() * (10 + (ld)p.terms / 2) * p.mag, "v*u at ", i);
		}
	}
	else if (mode == 1) {
		const auto r = Convolution(a, b, CONV_CENTRAL);
		CHK(r.size() == central, "size", "central result size ", r.size());
		Verify<T, U, R>(g, r, u, v, centralOffset, nullptr, "central");
	}
	else if (mode == 2) {
		const size_t offset = g.draw(full);
		const size_t len = g.size(0, full - offset);
		g.note("offset ", offset, " length ", len);
		const auto r = Convolution(a, b, offset, len);
		CHK(r.size() == len, "size", "result size ", r.size());
		Verify<T, U, R>(g, r, u, v, offset, nullptr, "part");
	}
	else {
		// Output parameter forms, overwriting or accumulating over previous content.
		size_t offset = 0, len = full;
		const int sub = (int)g.draw(2);
		if (sub == 1) {
			offset = centralOffset;
			len = central;
		}
		else if (sub == 2) {
			offset = g.draw(full);
			len = g.size(0, full - offset);
		}
		const bool accumulate = mode >= 4;
		const auto prev = Data<R>(g, len, maxStyle, "previous");
		g.note(accumulate ? "accumulate" : "overwrite", " sub ", sub, " offset ", offset, " length ", len);
		Guarded<R> go(prev, g.draw(7), 9);
		auto out = go.view();
		if (sub == 0) Convolution(out, a, b, CONV_FULL, !accumulate);
		else if (sub == 1) Convolution(out, a, b, CONV_CENTRAL, !accumulate);
		else Convolution(out, a, b, offset, !accumulate);
		Verify<T, U, R>(g, go, u, v, offset, accumulate ? &prev : nullptr, accumulate ? "accumulate" : "overwrite");
		CHK(go.padIntact(), "stray-write", "write outside the output");
	}
	CHK(gu.untouched() && gv.untouched(), "input-changed", "inputs modified");
}

// The individual engines on their own, over all size relations.
template <class T, class U>
void EngineCase(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<U>());
	size_t nu, nv;
	Lengths(g, nu, nv, 1);
	if (g.chance(1, 40)) {
		nu = 500 + g.draw(40);
		nv = 500 + g.draw(40);
	}
	const auto u = Data<T>(g, nu, STYLE_UNIFORM, "u");
	const auto v = Data<U>(g, nv, STYLE_UNIFORM, "v");
	const size_t full = nu + nv - 1;
	const size_t offset = g.draw(full);
	const size_t len = nu + nv > 900 ? g.size(0, std::min<size_t>(full - offset, 60)) : g.size(0, full - offset);
	const int engine = (int)g.draw(4);
	const bool accumulate = engine != 2 && engine != 4 && g.flag();
	const auto prev = Data<R>(g, len, STYLE_UNIFORM);
	g.label("engine " + std::to_string(engine));
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.nontrivial(nu >= 2 && nv >= 2 && len >= 1);
	g.note("engine ", engine, " lengths ", nu, ",", nv, " offset ", offset, " length ", len, accumulate ? " accumulate" : "");
	Guarded<T> gu(u, g.draw(7), 3);
	Guarded<U> gv(v, g.draw(7), 4);
	Guarded<R> go(prev, g.draw(7), 9);
	const T* uf = gu.data();
	const U* vf = gv.data();
	R* of = go.data();
	switch (engine) {
		case 0: kernels::ConvolutionSlide(uf, uf + nu, vf, vf + nv, of, of + len, (ptrdiff_t)offset, accumulate); break;
		case 1: kernels::ConvolutionReduceVec(uf, uf + nu, vf, vf + nv, of, of + len, (ptrdiff_t)offset, accumulate, plus_compensated<>{}); break;
		case 2: kernels::ConvolutionReduceVec(uf, uf + nu, vf, vf + nv, of, of + len, (ptrdiff_t)offset, accumulate, std::plus<>{}); break;
		case 4: kernels::ConvolutionReduce(uf, uf + nu, vf, vf + nv, of, of + len, (ptrdiff_t)offset); break;
		default: kernels::ConvolutionNaive(uf, uf + nu, vf, vf + nv, of, of + len, (ptrdiff_t)offset, accumulate); break;
	}
	Verify<T, U, R>(g, go, u, v, offset, accumulate ? &prev : nullptr, "engine");
	CHK(go.padIntact() && gu.untouched() && gv.untouched(), "stray-write", "write outside the output");
}

#define PAIRS(F)                                                                                                                        \
	switch (g.draw(12)) {                                                                                                               \
		case 0: F<float, float>(g); break;                                                                                             \
		case 1: F<double, double>(g); break;                                                                                           \
		case 2: F<cf, cf>(g); break;                                                                                                   \
		case 3: F<cd, cd>(g); break;                                                                                                   \
		case 4: F<float, cf>(g); break;                                                                                                \
		case 5: F<cf, float>(g); break;                                                                                                \
		case 6: F<double, cd>(g); break;                                                                                               \
		case 7: F<cd, double>(g); break;                                                                                               \
		case 8: F<float, double>(g); break;                                                                                            \
		case 9: F<int32_t, float>(g); break;                                                                                           \
		case 10: F<float, int32_t>(g); break;                                                                                          \
		case 11: F<double, int64_t>(g); break;                                                                                         \
		default: F<double, float>(g); break;                                                                                           \
	}
#if PBT_IN_PART(0)
PROP("windows", 16000, "type pair (13), two lengths 0..200 (some to 1400, many at the engine switch), form and offset/length, overwrite or accumulate; non-trivial = both lengths at least 2") { PAIRS(Case) }
#endif
#if PBT_IN_PART(1)
PROP("engines", 12000, "each convolution engine directly: type pair, lengths, window, accumulate; non-trivial = both lengths at least 2 and a non-empty window") { PAIRS(EngineCase) }
#endif
