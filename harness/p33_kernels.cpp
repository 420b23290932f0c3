// P33: vectorised kernels against the plain sequential loop.
#include "common.hpp"

#include <dspbb/Kernels/Math.hpp>
#include <dspbb/Kernels/Convolution.hpp>
#include <dspbb/Kernels/Numeric.hpp>
using namespace h;
namespace k = dspbb::kernels;

// ---- Transform -------------------------------------------------------------------------------------------------
template <class T, class Op>
void Unary(Gen& g, Op op, const char* name) {
	using U = std::remove_cvref_t<decltype(op(std::declval<T>()))>;
	const size_t n = g.length(0, 200);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	g.note("unary ", name, " n=", n);
	g.label(std::string("unary ") + name + " " + TypeName<T>());
	g.nontrivial(n >= 3);
	Guarded<T> gx(x, g.draw(9), 3);
	const bool inplace = std::is_same_v<T, U> && g.flag();
	if (inplace) {
		if constexpr (std::is_same_v<T, U>) {
			T* const ret = k::Transform(gx.data(), gx.data() + n, gx.data(), op);
			CHK(ret == gx.data() + n, "return", "returned iterator is not out+count");
			for (size_t i = 0; i < n; ++i) CHK(Same(gx[i], U(op(x[i]))), "value", name, " index ", i, " of ", n, " in place");
			CHK(gx.padIntact(), "stray-write", "write outside the range");
		}
	}
	else {
		Guarded<U> go(n, g.draw(9), 7);
		U* const ret = k::Transform(gx.data(), gx.data() + n, go.data(), op);
		CHK(ret == go.data() + n, "return", "returned iterator is not out+count");
		for (size_t i = 0; i < n; ++i) CHK(Same(go[i], U(op(x[i]))), "value", name, " index ", i, " of ", n);
		CHK(go.padIntact() && gx.untouched(), "stray-write", "write outside the range");
	}
}
template <class T, class T2, class Op>
void Binary(Gen& g, Op op, const char* name) {
	using U = std::remove_cvref_t<decltype(op(std::declval<T>(), std::declval<T2>()))>;
	const size_t n = g.length(0, 200);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	const auto y = Data<T2>(g, n, STYLE_SPARSE, "y");
	g.note("binary ", name, " n=", n);
	g.label(std::string("binary ") + name + " " + TypeName<T>() + "," + TypeName<T2>());
	g.nontrivial(n >= 3);
	Guarded<T> gx(x, g.draw(9), 3);
	Guarded<T2> gy(y, g.draw(9), 4);
	Guarded<U> go(n, g.draw(9), 7);
	U* const ret = k::Transform(gx.data(), gx.data() + n, gy.data(), go.data(), op);
	CHK(ret == go.data() + n, "return", "returned iterator is not out+count");
	for (size_t i = 0; i < n; ++i) CHK(Same(go[i], U(op(x[i], y[i]))), "value", name, " index ", i, " of ", n);
	CHK(go.padIntact() && gx.untouched() && gy.untouched(), "stray-write", "write outside the range");
}

PROP("transform", 50000, "element type(s), operation, length 0..200, alignments, in place or not; non-trivial = at least 3 elements") {
	// Every operation here is exact per element, whatever the evaluation width.
	const auto dbl = [](const auto& v) { return v + v; };
	const auto sq = [](const auto& v) { return v * v; };
	const auto neg = [](const auto& v) { return -v; };
	const auto add = [](const auto& a, const auto& b) { return a + b; };
	const auto sub = [](const auto& a, const auto& b) { return a - b; };
	const auto minf = [](const auto& a, const auto& b) { return k::math_functions::min(a, b); };
	switch (g.draw(13)) {
		case 0: Unary<float>(g, dbl, "x+x"); break;
		case 1: Unary<double>(g, sq, "x*x"); break;
		case 2: Unary<cf>(g, neg, "-x"); break;
		case 3: Unary<cd>(g, dbl, "x+x"); break;
		case 4: Unary<int32_t>(g, sq, "x*x"); break;
		case 5: Unary<int64_t>(g, neg, "-x"); break;
		case 6: Unary<float>(g, [](float v) { return v * 3 + 1; }, "scalar-only lambda"); break;
		case 7: Binary<float, float>(g, add, "+"); break;
		case 8: Binary<double, double>(g, sub, "-"); break;
		case 9: Binary<cf, cf>(g, add, "+"); break;
		case 10: Binary<int32_t, int32_t>(g, sub, "-"); break;
		case 11: Binary<float, double>(g, [](const auto& a, const auto& b) -> decltype(a - b) { return a - b; }, "-"); break;
		case 12: Binary<double, double>(g, minf, "min"); break;
		default: Binary<int16_t, int16_t>(g, [](const auto& a, const auto& b) { return std::remove_cvref_t<decltype(a)>(a + b); }, "+"); break;
	}
}

// ---- Reductions with exact operations --------------------------------------------------------------------------
// Small integers stored in any type: sums and products of pairs are exact in every association.
template <class T>
std::vector<T> Ints(Gen& g, size_t n) {
	uint64_t s = g.draw(0xffffff) * 77 + 5;
	std::vector<T> v(n);
	for (auto& x : v) {
		const auto r = [&] { return real_of_t<T>(int64_t(pbt::SplitMix(s) % 41) - 20); };
		if constexpr (is_cplx_v<T>) {
			const auto a = r();
			x = T(a, r());
		}
		else {
			x = r();
		}
	}
	return v;
}

template <class T>
T InitOf(Gen& g) { return T(real_of_t<T>(g.sym(100))); }

template <class T>
void ReduceCase(Gen& g) {
	const size_t n = g.length(0, 400);
	const auto x = Ints<T>(g, n);
	const auto y = Ints<T>(g, n);
	const T init = InitOf<T>(g);
	Guarded<T> gx(x, g.draw(9), 3);
	Guarded<T> gy(y, g.draw(9), 4);
	const T* f = gx.data();
	const T* l = f + n;
	g.note(TypeName<T>(), " n=", n, " init ", CStr(ToC(init)), " ", Show(x, 5));
	g.label(TypeName<T>());
	g.label("n mod 16=" + std::to_string(n % 16));
	g.nontrivial(n >= 3);
	cld sum = ToC(init), sumsq = ToC(init), dot = ToC(init), diff = ToC(init);
	for (size_t i = 0; i < n; ++i) {
		sum += ToC(x[i]);
		sumsq += ToC(x[i]) * ToC(x[i]);
		dot += ToC(x[i]) * ToC(y[i]);
		diff += ToC(x[i]) - ToC(y[i]);
	}
	const auto plus = [](const auto& a, const auto& b) { return a + b; };
	const auto square = [](const auto& a) { return a * a; };
	const auto prod = [](const auto& a, const auto& b) { return a * b; };
	const auto minus = [](const auto& a, const auto& b) { return a - b; };
	const int op = (int)g.draw(3);
	g.label("op " + std::to_string(op));
	const auto eq = [&](const T& got, const cld& want, const char* what) {
		CHK(ToC(got) == want, "value", what, " n=", n, " got ", CStr(ToC(got)), " want ", CStr(want));
	};
	if (op == 0) {
		eq(k::Reduce(f, l, init, plus), sum, "Reduce lambda +");
		eq(k::TransformReduce(f, l, init, plus, square), sumsq, "TransformReduce lambda +");
		eq(k::InnerProduct(f, l, gy.data(), init, plus, prod), dot, "InnerProduct lambda + *");
		eq(k::InnerProduct(f, l, gy.data(), init, plus, minus), diff, "InnerProduct lambda + -");
	}
	else if (op == 1) {
		eq(k::Reduce(f, l, init, std::plus<>{}), sum, "Reduce std::plus");
		eq(k::TransformReduce(f, l, init, std::plus<>{}, square), sumsq, "TransformReduce std::plus");
		eq(k::InnerProduct(f, l, gy.data(), init, std::plus<>{}, std::multiplies<>{}), dot, "InnerProduct std::plus");
	}
	else if (op == 2) {
		eq(k::Reduce(f, l, init, plus_compensated<>{}), sum, "Reduce compensated");
		eq(k::TransformReduce(f, l, init, plus_compensated<>{}, square), sumsq, "TransformReduce compensated");
		eq(k::InnerProduct(f, l, gy.data(), init, plus_compensated<>{}, std::multiplies<>{}), dot, "InnerProduct compensated");
	}
	else if constexpr (!is_cplx_v<T>) {
		const auto mx = [](const auto& a, const auto& b) { return k::math_functions::max(a, b); };
		const auto mn = [](const auto& a, const auto& b) { return k::math_functions::min(a, b); };
		T rmx = init, rmn = init, rmxs = init, rmnp = init;
		for (size_t i = 0; i < n; ++i) {
			rmx = std::max(rmx, x[i]);
			rmn = std::min(rmn, x[i]);
			rmxs = std::max(rmxs, T(x[i] * x[i]));
			rmnp = std::min(rmnp, T(x[i] * y[i]));
		}
		eq(k::Reduce(f, l, init, mx), ToC(rmx), "Reduce max");
		eq(k::Reduce(f, l, init, mn), ToC(rmn), "Reduce min");
		eq(k::TransformReduce(f, l, init, mx, square), ToC(rmxs), "TransformReduce max");
		eq(k::InnerProduct(f, l, gy.data(), init, mn, prod), ToC(rmnp), "InnerProduct min");
		// A scalar-only operation.
		const auto splus = [](T a, T b) { return T(a + b); };
		eq(k::Reduce(f, l, init, splus), sum, "Reduce scalar lambda");
	}
	CHK(gx.untouched() && gy.untouched(), "input-changed", "inputs modified");
}
PROP("reductions-exact", 50000, "element type, length 0..400, integer-valued data and initial value, operation; non-trivial = at least 3 elements") {
	WithType<float, double, int32_t, int64_t, cf, cd>(g, [&](auto t) { ReduceCase<typename decltype(t)::type>(g); });
}

PROP("reductions-mixed-types", 20000, "accumulator wider than, or different from, the element type; non-trivial = at least 3 elements") {
	const size_t n = g.length(0, 300);
	g.nontrivial(n >= 3);
	const auto plus = [](const auto& a, const auto& b) -> decltype(a + b) { return a + b; };
	const auto prod = [](const auto& a, const auto& b) -> decltype(a * b) { return a * b; };
	g.note("n=", n);
	if (g.flag()) {
		const auto x = Ints<float>(g, n);
		const auto y = Ints<double>(g, n);
		Guarded<float> gx(x, g.draw(9), 3);
		Guarded<double> gy(y, g.draw(9), 3);
		double s = 5, d = 7;
		for (size_t i = 0; i < n; ++i) {
			s += x[i];
			d += x[i] * y[i];
		}
		CHK(k::Reduce(gx.data(), gx.data() + n, 5.0, plus) == s, "value", "Reduce float->double");
		CHK(k::InnerProduct(gx.data(), gx.data() + n, gy.data(), 7.0, plus, prod) == d, "value", "InnerProduct float,double->double");
		CHK(k::InnerProduct(gy.data(), gy.data() + n, gx.data(), 7.0, plus, prod) == d, "value", "InnerProduct double,float->double");
	}
	else {
		const auto x = Ints<float>(g, n);
		const auto y = Ints<cf>(g, n);
		Guarded<float> gx(x, g.draw(9), 3);
		Guarded<cf> gy(y, g.draw(9), 3);
		cf d = { 1, 2 };
		for (size_t i = 0; i < n; ++i) d += x[i] * y[i];
		CHK(k::InnerProduct(gx.data(), gx.data() + n, gy.data(), cf(1, 2), plus, prod) == d, "value", "InnerProduct float,cfloat");
		CHK(k::InnerProduct(gy.data(), gy.data() + n, gx.data(), cf(1, 2), plus, prod) == d, "value", "InnerProduct cfloat,float");
	}
}

// ---- Rounding: plain and compensated sums ------------------------------------------------------------------------
PROP("sum-accuracy", 4000, "float or double data of length up to 60000, plain and compensated; non-trivial = at least 1000 elements") {
	WithType<float, double>(g, [&](auto t) {
		using T = typename decltype(t)::type;
		const size_t n = g.chance(1, 3) ? g.size(1000, 60000) : g.size(0, 3000);
		auto x = Data<T>(g, n, STYLE_UNIFORM);
		const bool positive = g.flag();
		for (auto& v : x) v = positive ? std::abs(v) : v;
		// Equal samples: every rounding goes the same way, so that only a working compensation stays within its bound.
		if (g.chance(1, 3)) std::fill(x.begin(), x.end(), T(g.nice(0.05, 3)));
		g.nontrivial(n >= 1000);
		g.note(TypeName<T>(), " n=", n, positive ? " positive" : "");
		ld ref = 0, mag = 0, dref = 0, dmag = 0;
		for (auto v : x) {
			ref += v;
			mag += std::abs((ld)v);
			dref += (ld)v * v;
			dmag += (ld)v * v;
		}
		const T* f = x.data();
		const T* l = f + n;
		const auto plus = [](const auto& a, const auto& b) { return a + b; };
		const ld plain = Eps<T>() * (8 + (ld)n / 6);
		// Blocks of eight are summed plainly, the running total is compensated: no growth with length
		// beyond the first-order compensated bound.
		const ld comp = Eps<T>() * (24 + 2 * (ld)n * Eps<T>());
		NEAR("plain-sum", k::Reduce(f, l, T(0), plus), ref, plain * mag, "Reduce lambda");
		NEAR("plain-sum", k::TransformReduce(f, l, T(0), plus, [](const auto& a) { return a * a; }), dref, plain * dmag, "TransformReduce lambda");
		NEAR("compensated-sum", k::Reduce(f, l, T(0), plus_compensated<>{}), ref, comp * mag, "Reduce compensated");
		NEAR("compensated-sum", k::InnerProduct(f, l, f, T(0), plus_compensated<>{}, std::multiplies<>{}), dref, comp * dmag, "InnerProduct compensated");
		NEAR("compensated-sum", k::TransformReduce(f, l, T(0), plus_compensated<>{}, [](const auto& a) { return a * a; }), dref, comp * dmag, "TransformReduce compensated");
		// The same without vector registers: an operation on scalars only, and an element type that has none.
		NEAR("compensated-sum", k::TransformReduce(f, l, T(0), plus_compensated<>{}, [](const T& a) { return a * a; }), dref, comp * dmag, "TransformReduce compensated, scalar");
		NEAR("compensated-sum", k::InnerProduct(f, l, f, T(0), plus_compensated<>{}, [](const T& a, const T& b) { return a * b; }), dref, comp * dmag, "InnerProduct compensated, scalar");
		if (n >= 1) {
			// A compensated convolution, where every product is rounded once before the (compensated) addition.
			const std::vector<T> w(n + g.size(0, 9), x[n / 2]);
			const size_t extra = w.size() - n, len = std::min<size_t>(extra + 1, 5);
			std::vector<T> out(len);
			k::ConvolutionReduceVec(f, l, w.data(), w.data() + w.size(), out.data(), out.data() + len, (ptrdiff_t)(n - 1), false, plus_compensated<>{});
			for (auto o : out) NEAR("compensated-sum", o, ref * w[0], comp * mag * std::abs((ld)w[0]), "ConvolutionReduceVec compensated");
		}
		std::vector<ld> wide(x.begin(), x.end());
		__float128 exact = 0, total = 0;
		for (auto& v : wide) {
			v /= 3;
			exact += v;
			total += std::abs(v);
		}
		const ld sum = k::Reduce(wide.data(), wide.data() + n, ld(0), plus_compensated<>{});
		const ld leps = std::numeric_limits<ld>::epsilon();
		CHK(std::abs((ld)(sum - exact)) <= leps * 24 * (ld)total, "compensated-sum", "Reduce compensated, long double: error ", (ld)(sum - exact), " allowed ", leps * 24 * (ld)total);
	});
}
