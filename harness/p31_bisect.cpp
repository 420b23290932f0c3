// P31: bisection.
#include "common.hpp"
#include <dspbb/Math/Solvers.hpp>
#include <optional>
using namespace h;

/// Functions with a known set of sign changes on the line; evaluated in T.
template <class T>
struct Func {
	int kind;
	double a, b, scale;
	mutable size_t calls = 0;
	T operator()(T x) const {
		++calls;
		const T s = T(scale);
		switch (kind) {
			case 0: return s * (x - T(a));
			case 1: return s * (x - T(a)) * (x - T(a)) * (x - T(a));
			case 2: return s * (std::exp(x * T(0.1)) - T(std::exp(a * 0.1)));
			case 3: return s * std::tanh((x - T(a)) * T(b));
			case 4: return s * (x < T(a) ? (x - T(a)) * T(b) : x - T(a));
			case 5: return s * std::sin((x - T(a)) * T(b));
			case 6: return s * (x - T(a)) * (x - T(a) - T(b)) * (x - T(a) + T(b));
			default: return s * std::cbrt(x - T(a));
		}
	}
};

template <class T>
void Root(Gen& g) {
	Func<T> f{ (int)g.draw(7), 0, 1, 1 };
	f.a = g.flag() ? (double)g.sym(20) : g.real(-50, 50);
	f.b = std::exp2((double)g.sym(4));
	// Function values down to the smallest the type can hold: their product must not matter.
	f.scale = (g.flag() ? 1 : -1) * (g.flag() ? 1.0 : std::pow(10.0, g.real(std::is_same_v<T, float> ? -36 : -280, std::is_same_v<T, float> ? 30 : 280)));
	T lo, hi;
	switch (g.draw(3)) {
		case 0: lo = T(f.a - 1 - (double)g.draw(20)), hi = T(f.a + 1 + (double)g.draw(20)); break;
		case 1: lo = T(f.a - g.real(0, 100)), hi = T(f.a + g.real(0, 100)); break;
		case 2: lo = T(g.real(-100, 100)), hi = T(g.real(-100, 100)); break;
		default: lo = T(f.a), hi = T(f.a + g.real(0, 100)); break; // an end point is the root
	}
	if (g.flag()) std::swap(lo, hi);
	const T flo = f(lo), fhi = f(hi);
	if (!std::isfinite(flo) || !std::isfinite(fhi) || lo == hi) g.discard();
	const auto sign = [](T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; };
	const bool swapped = lo > hi;
	if (sign(flo) * sign(fhi) > 0) g.discard();
	static const char* kinds[] = { "line", "cube", "exponential", "tanh", "kink", "sine", "cubic", "cube root" };
	g.note(TypeName<T>(), " ", kinds[f.kind], " root near ", f.a, " parameter ", f.b, " scale ", f.scale, " between ", lo, " and ", hi);
	g.label(kinds[f.kind]);
	g.labelIf(swapped, "reversed bracket");
	g.labelIf(std::abs(f.scale) < 1e-20, "tiny values");
	g.labelIf(std::abs(f.scale) > 1e20, "huge values");
	g.labelIf(flo == 0 || fhi == 0, "root at an end point");
	g.nontrivial(flo != 0 && fhi != 0);
	const std::optional<T> tol = g.chance(1, 3) ? std::optional<T>(T(std::pow(10.0, -g.real(0, 6)))) : std::nullopt;
	if (tol) g.note(" tolerance ", *tol);
	f.calls = 0;
	const T c = tol ? Bisect(std::ref(f), lo, hi, *tol) : Bisect(std::ref(f), lo, hi);
	CHK(f.calls <= 8200, "termination", f.calls, " evaluations");
	const T a = std::min(lo, hi), b = std::max(lo, hi);
	CHK(c >= a && c <= b, "bracket", "result ", c, " is outside");
	// A sign change (or a zero) within the resolution around the result.
	ld res = 4 * Eps<T>() * std::max(std::abs((ld)a), std::abs((ld)b));
	if (tol) res = std::max(res, (ld)*tol);
	res += (ld)std::numeric_limits<T>::denorm_min();
	const T left = std::max<T>(a, T((ld)c - res)), right = std::min<T>(b, T((ld)c + res));
	bool change = f(c) == 0 || f(left) == 0 || f(right) == 0 || sign(f(left)) != sign(f(c)) || sign(f(right)) != sign(f(c));
	if (!change) {
		// Several sign changes may be that close: scan.
		const int s = sign(f(c));
		T x = left;
		for (int i = 0; i < 64 && !change; ++i, x = left + (right - left) * T(i) / T(64)) change = sign(f(x)) != s;
	}
	CHK(change, "root", "no sign change within ", (double)res, " of ", c, ": values ", f(left), ", ", f(c), ", ", f(right));
}
PROP("bisect", 60000, "eight families of continuous functions with roots in +-50 (flat, steep, kinked, several roots), scales 1e-280..1e280, brackets in either order, end points that are roots, tolerances; result inside the bracket, sign change within the resolution, bounded evaluations; non-trivial = neither end point is a root") {
	if (g.flag()) Root<float>(g);
	else Root<double>(g);
}

template <class T>
void Newton(Gen& g) {
	// Convex increasing functions started on the convex side: Newton converges from anywhere there.
	const T root = T(g.real(-3, 3)), rate = T(g.real(0.2, 2));
	const T x0 = root + T(g.real(0.01, 3));
	g.note(TypeName<T>(), " exp(", rate, "(x-", root, "))-1 from ", x0);
	g.nontrivial();
	const auto f = [&](T x) { return std::expm1(rate * (x - root)); };
	const auto d = [&](T x) { return rate * std::exp(rate * (x - root)); };
	const T x = NewtonRaphson(f, d, x0);
	NEAR("newton", x, (ld)root, Eps<T>() * (16 + 8 / rate));
}
PROP("newton", 10000, "exponentials with known roots from starting points on the convex side: converges to the root; every case non-trivial") {
	if (g.flag()) Newton<float>(g);
	else Newton<double>(g);
}
