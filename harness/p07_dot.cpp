// P07: conjugate-correct inner product.
#include "common.hpp"

#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
using namespace h;

template <class T, class U>
void Case(Gen& g) {
	const size_t n = g.size(0, g.chance(1, 25) ? 8000 : 300);
	const int maxStyle = std::is_integral_v<T> || std::is_integral_v<U> ? STYLE_SPARSE : STYLE_WIDE;
	const auto x = Data<T>(g, n, maxStyle, "x");
	const auto y = Data<U>(g, n, maxStyle, "y");
	g.note("n=", n);
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.label("n mod 16=" + std::to_string(n % 16));
	g.nontrivial(n >= 3);
	cld ref = 0;
	ld mag = 0;
	for (size_t i = 0; i < n; ++i) {
		ref += ToC(x[i]) * std::conj(ToC(y[i]));
		mag += AbsL(x[i]) * AbsL(y[i]);
	}
	using R = decltype(x[0] * y[0]);
	const ld eps = Eps<R>();
	const ld tol = eps * (10 + (ld)n / 6) * mag;
	if (g.flag()) {
		const Signal<T> a(x.begin(), x.end());
		Guarded<U> gy(y, g.draw(9), 4);
		NEAR("value", DotProduct(a, gy.cview()), ref, tol, "DotProduct(signal, view) n=", n);
		CHK(gy.untouched(), "input-changed", "input modified");
	}
	else {
		Guarded<T> gx(x, g.draw(9), 3);
		Guarded<U> gy(y, g.draw(9), 4);
		NEAR("value", DotProduct(gx.cview(), gy.view()), ref, tol, "DotProduct(view, view) n=", n);
		CHK(gx.untouched() && gy.untouched(), "input-changed", "input modified");
	}
	if constexpr (std::is_floating_point_v<real_of_t<T>> || std::is_same_v<T, U>) {
		const Signal<T> a(x.begin(), x.end());
		const Signal<U> b(y.begin(), y.end());
		NEAR("conjugate-symmetry", DotProduct(b, a), std::conj(ToC(DotProduct(a, b))), 2 * tol, "DotProduct(b,a) != conj(DotProduct(a,b))");
		// Product with itself: sum of squared magnitudes.
		ld sq = 0;
		for (const auto& v : x) sq += std::norm(ToC(v));
		NEAR("self", DotProduct(a, a), sq, Eps<T>() * (10 + (ld)n / 6) * sq, "DotProduct(a,a)");
	}
}

// Position sensitivity: unit vector picks exactly one (conjugated) sample.
template <class T, class U>
void UnitCase(Gen& g) {
	const size_t n = g.length(1, 200);
	const size_t pos = g.draw(n - 1);
	auto y = Data<U>(g, n, STYLE_RAMP);
	Guarded<T> gx(std::vector<T>(n, T(0)), g.draw(9), 3);
	Guarded<U> gy(y, g.draw(9), 4);
	gx[pos] = T(1);
	g.note("n=", n, " pos ", pos);
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.nontrivial(n >= 3);
	const cld got = ToC(DotProduct(gx.cview(), gy.cview()));
	CHK(got == std::conj(ToC(y[pos])), "position", "unit vector at ", pos, " of ", n, " gives ", CStr(got), " want conj of ", CStr(ToC(y[pos])));
}

template <class T>
void LinearCase(Gen& g) {
	const size_t n = sizeof(real_of_t<T>) == 4 ? g.size(1, 200) : g.length(1, 200); // exact in either type
	const auto x = Data<T>(g, n, STYLE_SMALLINT), z = Data<T>(g, n, STYLE_SMALLINT), y = Data<T>(g, n, STYLE_SMALLINT);
	const T c = [&] { if constexpr (is_cplx_v<T>) { return T(real_of_t<T>(g.sym(5)), real_of_t<T>(g.sym(5))); } else { return T(g.sym(5)); } }();
	std::vector<T> w(n);
	for (size_t i = 0; i < n; ++i) w[i] = c * x[i] + z[i];
	g.note(TypeName<T>(), " n=", n, " c=", CStr(ToC(c)), " x ", Show(x, 4), " z ", Show(z, 4), " y ", Show(y, 4));
	g.label(TypeName<T>());
	g.nontrivial(n >= 3);
	const Signal<T> sx(x.begin(), x.end()), sz(z.begin(), z.end()), sy(y.begin(), y.end()), sw(w.begin(), w.end());
	// Everything is a small integer: exact.
	const cld lhs = ToC(DotProduct(sw, sy));
	const cld rhs = ToC(c) * ToC(DotProduct(sx, sy)) + ToC(DotProduct(sz, sy));
	CHK(lhs == rhs, "linearity", "<c x + z, y> = ", CStr(lhs), " but c<x,y>+<z,y> = ", CStr(rhs));
}

#define PAIRS(F)                                                                                                                        \
	switch (g.draw(15)) {                                                                                                              \
		case 0: F<float, float>(g); break;                                                                                             \
		case 1: F<double, double>(g); break;                                                                                           \
		case 2: F<cf, cf>(g); break;                                                                                                   \
		case 3: F<cd, cd>(g); break;                                                                                                   \
		case 4: F<float, cf>(g); break;                                                                                                \
		case 5: F<cf, float>(g); break;                                                                                                \
		case 6: F<double, cd>(g); break;                                                                                               \
		case 7: F<cd, double>(g); break;                                                                                               \
		case 8: F<float, double>(g); break;                                                                                            \
		case 9: F<double, float>(g); break;                                                                                            \
		case 10: F<int32_t, int32_t>(g); break;                                                                                        \
		case 11: F<int32_t, float>(g); break;                                                                                          \
		case 12: F<float, int32_t>(g); break;                                                                                          \
		case 13: F<int64_t, double>(g); break;                                                                                         \
		case 14: F<double, int32_t>(g); break;                                                                                         \
		default: F<int64_t, int64_t>(g); break;                                                                                        \
	}

PROP("definition", 50000, "type pair (16), length 0..300 (some to 8000), data styles, alignments; non-trivial = at least 3 samples") { PAIRS(Case) }
PROP("position", 40000, "type pair, length, position of the unit sample; non-trivial = at least 3 samples") { PAIRS(UnitCase) }
PROP("linearity", 20000, "type, three integer-valued signals and an integer scalar; non-trivial = at least 3 samples") {
	WithType<float, double, cf, cd>(g, [&](auto t) { LinearCase<typename decltype(t)::type>(g); });
}
