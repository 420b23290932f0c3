// P23: least-squares FIR designs minimise the weighted squared error on their grid.
#include "firdesign.hpp"
using namespace h;

/// Gradient of sum (w (A x - d))^2 at the taps must vanish (the objective is convex, so that is optimality).
template <class T, class R, class W>
void CheckOptimal(Gen& g, const std::vector<T>& taps, size_t grid, const R& response, const W& weight) {
	const size_t n = taps.size(), L = (n + 1) / 2;
	if (grid == 0) grid = 4 * L;
	for (size_t i = 0; i < n; ++i) CHK(std::isfinite(taps[i]), "finite", "tap ", i, " is ", taps[i]);
	for (size_t i = 0; i < n / 2; ++i) CHK(taps[i] == taps[n - 1 - i], "symmetry", "taps ", i, " and ", n - 1 - i, ": ", taps[i], " ", taps[n - 1 - i]);
	std::vector<ld> x(L), resid(grid), w(grid);
	for (size_t k = 0; k < L; ++k) x[k] = taps[L - 1 + k];
	ld normX = 0, normR = 0, wMax = 0, dMax = 0, A = 0;
	for (auto v : x) normX += v * v;
	const auto basis = [&](size_t i, size_t k) { return k == 0 ? 1.0L : 2 * std::cos(PI * k * i / (grid - 1)); };
	for (size_t i = 0; i < grid; ++i) {
		const T f = T(i) / T(grid - 1);
		const ld d = response(f);
		w[i] = weight(f);
		wMax = std::max(wMax, std::abs(w[i]));
		dMax = std::max(dMax, std::abs(d));
		ld v = 0;
		for (size_t k = 0; k < L; ++k) {
			const ld b = basis(i, k);
			A += b * b;
			v += b * x[k];
		}
		resid[i] = v - d;
		normR += resid[i] * resid[i];
	}
	normX = std::sqrt(normX);
	normR = std::sqrt(normR);
	A = std::sqrt(A);
	const ld tol = Eps<T>() * (4 * (ld)L + 60) * wMax * wMax * A * (normR + A * normX + dMax * std::sqrt((ld)grid)) + 1e-36L;
	for (size_t k = 0; k < L; ++k) {
		ld grad = 0;
		for (size_t i = 0; i < grid; ++i) grad += w[i] * w[i] * basis(i, k) * resid[i];
		NEAR("optimality", grad, 0, tol, "error derivative with respect to the tap pair at distance ", k);
	}
}

inline double Smooth(double x) {
	x = std::clamp(x, 0.0, 1.0);
	return 3 * x * x - 2 * x * x * x;
}
/// Rises from 0 at a to 1 at b; a step where they coincide.
inline double Rise(double f, double a, double b) { return f <= a ? 0 : f >= b ? 1 : Smooth((f - a) / (b - a)); }

/// Grid positions that rounding could put on either side of a band edge make the specification ambiguous.
template <class T>
void RequireClear(Gen& g, size_t grid, std::initializer_list<double> edges) {
	const size_t steps = grid - 1;
	const bool exact = (steps & (steps - 1)) == 0; // all positions representable
	if (exact) return;
	for (double e : edges) {
		const double pos = e * steps, off = std::abs(pos - std::round(pos));
		if (e != 0 && e != 1 && off < 1e-3) g.discard();
		if (e == 1 && std::is_same_v<T, float>) continue;
	}
}

template <class T>
struct Spec {
	size_t n = 0, grid = 0;
};
template <class T>
Spec<T> Sizes(Gen& g, size_t maxHalf) {
	Spec<T> s;
	const size_t L = g.size(1, maxHalf);
	s.n = 2 * L - 1;
	switch (g.draw(3)) {
		case 0: break; // the default
		case 1: s.grid = std::max<size_t>(2, L + g.draw(6 * L)); break;
		case 2: s.grid = 4 * L + g.draw(40); break;
		default: {
			size_t p = 1;
			while (p + 1 < 2 * L) p *= 2;
			s.grid = (p << g.draw(2)) + 1;
			break;
		}
	}
	if (s.grid) g.note("grid ", s.grid);
	g.labelIf(s.grid != 0, "grid given");
	return s;
}

template <class T>
void Split(Gen& g) {
	using P = T;
	const auto s = Sizes<T>(g, g.chance(1, 6) ? 40 : 12);
	const auto edge = [&] { return g.flag() ? g.pick({ 0.5, 0.25, 0.75, 0.125, 0.0, 1.0 }) : g.real(0, 1); };
	double a = P(edge()), b = g.chance(1, 4) ? a : (double)P(edge());
	if (a > b) std::swap(a, b);
	const double wl = P(g.nice(0.0, 3)), wt = P(g.nice(0, 2)), wh = P(g.nice(0.0, 3));
	const size_t grid = s.grid ? s.grid : 4 * ((s.n + 1) / 2);
	RequireClear<T>(g, grid, { a, b });
	const bool high = g.flag(), weighted = g.flag();
	g.note(TypeName<T>(), high ? " high-pass" : " low-pass", " taps ", s.n, " edges ", a, " ", b, " weights ", wl, " ", wt, " ", wh, weighted ? "" : " (default)");
	g.label(high ? "high-pass" : "low-pass");
	g.labelIf(a == b, "no transition band");
	g.nontrivial(s.n >= 5);
	const auto make = [&](const auto& kind) {
		auto d = kind.Cutoff(P(a), P(b));
		if (weighted) d = d.Weight(P(wl), P(wt), P(wh));
		if (s.grid) d = d.Grid(s.grid);
		return RunDesign<T>(g, s.n, d);
	};
	const auto taps = high ? make(Fir.Highpass.LeastSquares) : make(Fir.Lowpass.LeastSquares);
	CheckOptimal(
		g, taps, s.grid, [&](T f) { return high ? Rise(f, a, b) : 1 - Rise(f, a, b); },
		[&](T f) { return weighted ? (f <= a ? wl : f <= b ? wt : wh) : (f <= a || f > b ? 1.0 : 0.0); });
}

template <class T>
void Band(Gen& g) {
	using P = T;
	const auto s = Sizes<T>(g, g.chance(1, 6) ? 40 : 12);
	double e[4];
	for (auto& v : e) v = P(g.flag() ? g.pick({ 0.25, 0.5, 0.75, 0.375, 0.0, 1.0 }) : g.real(0, 1));
	std::sort(e, e + 4);
	if (g.chance(1, 6)) e[1] = e[0];
	if (g.chance(1, 6)) e[2] = e[3];
	// The two transitions meet nowhere, so that the middle is unambiguous.
	if (!(e[2] - e[1] > 0.01)) g.discard();
	double w[5];
	for (auto& v : w) v = P(g.nice(0.0, 3));
	const bool stop = g.flag(), weighted = g.flag();
	const size_t grid = s.grid ? s.grid : 4 * ((s.n + 1) / 2);
	RequireClear<T>(g, grid, { e[0], e[1], e[2], e[3] });
	g.note(TypeName<T>(), stop ? " band-stop" : " band-pass", " taps ", s.n, " edges ", e[0], " ", e[1], " ", e[2], " ", e[3], weighted ? " weighted " : " ", w[0], " ", w[1], " ", w[2], " ", w[3], " ", w[4]);
	g.label(stop ? "band-stop" : "band-pass");
	g.labelIf(e[0] == e[1] || e[2] == e[3], "no transition band");
	g.nontrivial(s.n >= 5);
	const auto make = [&](const auto& kind) {
		auto d = kind.Band(P(e[0]), P(e[1]), P(e[2]), P(e[3]));
		if (weighted) d = d.Weight(P(w[0]), P(w[1]), P(w[2]), P(w[3]), P(w[4]));
		if (s.grid) d = d.Grid(s.grid);
		return RunDesign<T>(g, s.n, d);
	};
	const auto taps = stop ? make(Fir.Bandstop.LeastSquares) : make(Fir.Bandpass.LeastSquares);
	CheckOptimal(
		g, taps, s.grid, [&](T f) { const double v = Rise(f, e[0], e[1]) - Rise(f, e[2], e[3]); return stop ? 1 - v : v; },
		[&](T f) {
			if (!weighted) return f <= e[0] || (f > e[1] && f <= e[2]) || f > e[3] ? 1.0 : 0.0;
			return f <= e[0] ? w[0] : f <= e[1] ? w[1] : f <= e[2] ? w[2] : f <= e[3] ? w[3] : w[4];
		});
}
#define SPLIT_RULE "type, low/high-pass, 1..79 taps, default or given grid, edges in [0,1] incl. no transition band, default or given weights incl. 0; symmetry and vanishing derivative of the weighted squared error; non-trivial = 5 taps or more"
PROP("low-high-pass", 15000, SPLIT_RULE) {
	if (g.flag()) Split<float>(g);
	else Split<double>(g);
}
PROP("band-pass-stop", 15000, "type, band-pass/stop, 1..79 taps, grids, four edges in [0,1], five weights; symmetry and vanishing derivative of the weighted squared error; non-trivial = 5 taps or more") {
	if (g.flag()) Band<float>(g);
	else Band<double>(g);
}

template <class T>
void Arbitrary(Gen& g) {
	const auto s = Sizes<T>(g, g.chance(1, 6) ? 40 : 12);
	std::vector<double> c(1 + g.draw(4)), v(1 + g.draw(2));
	for (auto& x : c) x = g.nice(-1, 1);
	for (auto& x : v) x = g.nice(-1, 1);
	const auto poly = [](const std::vector<double>& c, double f) {
		double r = 0;
		for (size_t i = c.size(); i-- > 0;) r = r * f + c[i];
		return r;
	};
	const auto response = [=](auto f) { return (decltype(f))poly(c, f); };
	const auto weight = [=](auto f) { return (decltype(f))(0.25 + std::abs(poly(v, f))); };
	const bool weighted = g.flag();
	g.note(TypeName<T>(), " taps ", s.n, " response ", Show(c), weighted ? " weight " : " unweighted ", Show(v));
	g.nontrivial(s.n >= 5);
	const auto d = Fir.Arbitrary.LeastSquares.Response(response);
	const auto taps = weighted ? (s.grid ? RunDesign<T>(g, s.n, d.Weight(weight).Grid(s.grid)) : RunDesign<T>(g, s.n, d.Weight(weight)))
							   : (s.grid ? RunDesign<T>(g, s.n, d.Grid(s.grid)) : RunDesign<T>(g, s.n, d));
	CheckOptimal(g, taps, s.grid, response, [&](T f) { return weighted ? (double)weight(f) : 1.0; });
	// Only the ratio of the weights matters.
	if (weighted) {
		const double scale = g.pick({ 0.5, 2.0, 3.0, 10.0 });
		const auto scaled = [=](auto f) { return (decltype(f))(scale * weight(f)); };
		const auto other = s.grid ? RunDesign<T>(g, s.n, d.Weight(scaled).Grid(s.grid)) : RunDesign<T>(g, s.n, d.Weight(scaled));
		const bool dense = s.grid == 0 || s.grid >= 2 * s.n;
		if (dense)
			for (size_t i = 0; i < s.n; ++i) NEAR("weight scale", other[i], taps[i], Eps<T>() * 2000 * (ld)s.n * 4, "tap ", i, " with all weights times ", scale);
	}
}
PROP("arbitrary", 12000, "polynomial responses and weights, 1..79 taps, grids; optimality, and invariance to scaling all weights; non-trivial = 5 taps or more") {
	if (g.flag()) Arbitrary<float>(g);
	else Arbitrary<double>(g);
}

template <class T>
void Realisable(Gen& g) {
	const size_t L = g.size(1, 30), n = 2 * L - 1, keep = 1 + g.draw(L - 1);
	std::vector<double> x(keep);
	for (auto& v : x) v = g.nice(-1, 1);
	const auto response = [x](auto f) {
		double r = x[0];
		for (size_t k = 1; k < x.size(); ++k) r += 2 * x[k] * std::cos(3.14159265358979323846 * k * (double)f);
		return (decltype(f))r;
	};
	const double slope = g.nice(-0.8, 0.8);
	const auto weight = [=](auto f) { return (decltype(f))(1 + slope * f); };
	const size_t grid = g.flag() ? 0 : 2 * L + g.draw(60);
	g.note(TypeName<T>(), " taps ", n, " wanted half ", Show(x), " grid ", grid);
	g.nontrivial(L >= 3);
	const auto d = Fir.Arbitrary.LeastSquares.Response(response).Weight(weight).Grid(grid);
	const auto taps = RunDesign<T>(g, n, d);
	for (size_t k = 0; k < L; ++k) NEAR("recovery", taps[L - 1 + k], k < keep ? x[k] : 0, Eps<T>() * 400 * (ld)L * (ld)L, "tap at distance ", k);
}
PROP("realisable", 8000, "responses of random symmetric filters no longer than the design, smooth positive weights, grids; the filter itself is recovered; non-trivial = 5 taps or more") {
	if (g.flag()) Realisable<float>(g);
	else Realisable<double>(g);
}
