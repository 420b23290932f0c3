// P24: FIR response transforms and Hilbert designs.
#include "firdesign.hpp"
using namespace h;

template <class T>
void Transforms(Gen& g) {
	using R = real_of_t<T>;
	const int op = (int)g.draw(2); // mirror, complement, shift
	size_t n = g.length(1, g.chance(1, 6) ? 200 : 40);
	if (op == 1) n |= 1;
	const bool symmetric = g.flag(), inPlace = g.flag(), intoView = g.flag();
	auto h = Data<T>(g, n, STYLE_SPARSE, "filter");
	if (symmetric)
		for (size_t i = 0; i < n / 2; ++i) h[n - 1 - i] = h[i];
	const R center = op == 2 ? R(g.flag() ? g.pick({ 0.5, 0.25, 0.0, 1.0, 0.75 }) : g.real(0, 1)) : R(0);
	static const char* names[] = { "mirror", "complement", "shift" };
	g.note(names[op], " length ", n, inPlace ? " in place" : "", " centre ", center);
	g.label(names[op]);
	g.label(n % 2 ? "odd length" : "even length");
	g.labelIf(inPlace, "in place");
	g.nontrivial(n >= 3);

	Guarded<T> src(h, g.draw(5), 3), dst(std::vector<T>(n, T(R(17))), g.draw(5), 5);
	BasicSignal<T, TIME_DOMAIN> sigDst(n, T(R(17))), sigSrc(h.begin(), h.end());
	const auto run = [&](auto& out, const auto& in) {
		switch (op) {
			case 0: fir::MirrorResponse(out, in); break;
			case 1: fir::ComplementaryResponse(out, in); break;
			default: fir::ShiftResponse(out, in, center); break;
		}
	};
	std::vector<T> got;
	if (intoView) {
		auto v = dst.view();
		auto s = src.view();
		if (inPlace) run(s, s);
		else run(v, src.cview());
		got = inPlace ? src.vec() : dst.vec();
		CHK(src.padIntact() && dst.padIntact(), "stray-write", "outside the taps");
		CHK(inPlace || src.untouched(), "input-changed", "");
	}
	else {
		if (inPlace) run(sigSrc, sigSrc);
		else run(sigDst, sigSrc);
		got = inPlace ? Vec(sigSrc) : Vec(sigDst);
	}
	ld sum = 0;
	for (const auto& v : h) sum += AbsL(v);
	// Taps.
	const ld m = ((ld)n - 1) / 2;
	for (size_t i = 0; i < n; ++i) {
		cld want = ToC(h[i]);
		ld tol = 0;
		if (op == 0) want *= i % 2 ? -1 : 1;
		else if (op == 1) {
			want = (i == n / 2 ? 1.0L : 0.0L) - want;
			tol = 4 * Eps<T>() * (1 + AbsC(want));
		}
		else {
			tol = AbsC(want) * Eps<T>() * (8 + 8 * std::abs((ld)i - m));
			want *= 2 * std::cos(PI * (ld)center * ((ld)i - m));
		}
		NEAR("taps", got[i], want, tol + 1e-36L, names[op], inPlace ? " in place" : "", " tap ", i, " of ", n);
	}
	// Responses, which is what the transforms are for.
	uint64_t s = g.draw(0xffff) + 3;
	const ld tol = Eps<T>() * (20 + 10 * (ld)n) * (sum + 1);
	for (int i = 0; i < 3; ++i) {
		const ld f = U01(s);
		const cld r = CenteredResponse(got, f);
		if (op == 0) NEAR("response", AbsC(r), AbsC(CenteredResponse(h, 1 + f)), tol, "mirrored gain at ", (double)f);
		else if (op == 1) NEAR("response", r, 1.0L - CenteredResponse(h, f), tol, "complementary response at ", (double)f);
		else NEAR("response", r, CenteredResponse(h, f - (ld)center) + CenteredResponse(h, f + (ld)center), tol, "shifted response at ", (double)f);
	}
	if (op == 0 && !is_cplx_v<T>) {
		const ld f = U01(s);
		NEAR("response", AbsC(CenteredResponse(got, f)), AbsC(CenteredResponse(h, 1 - f)), tol, "mirrored gain at ", (double)f);
	}
}
PROP("transforms", 40000, "real and complex taps of length 1..200 (odd for complement), symmetric or not, mirror/complement/shift by [0,1], in place or not, signals and views; every tap and the response at random frequencies; non-trivial = 3 taps or more") {
	WithType<double, float, cf, cd>(g, [&](auto t) { Transforms<typename decltype(t)::type>(g); });
}

/// Checks that taps are the half-band filter turned into a Hilbert transformer.
template <class T, class H>
void CheckHilbert(Gen& g, const std::vector<T>& got, const H& half, size_t n, const std::vector<ld>& tolHalf) {
	CHK(got.size() == n, "size", "taps ", got.size());
	for (size_t i = 0; i < n; ++i) {
		// Offset from the centre in half-band samples.
		const size_t j = n % 2 ? i : 2 * i, c = half.size() / 2;
		const long k = (long)j - (long)c;
		const ld s = k % 2 == 0 ? 0 : ((k % 4 + 4) % 4 == 1 ? 2 : -2);
		if (n % 2 && k % 2 == 0) CHK(got[i] == T(0), "zero taps", "tap ", i, " of ", n, " at an even offset is ", got[i]);
		NEAR("taps", got[i], s * (ld)half[j], 2 * tolHalf[j] + 1e-36L, "tap ", i, " of ", n);
		NEAR("antisymmetry", got[i], -(ld)got[n - 1 - i], 2 * tolHalf[j] + 2 * tolHalf[half.size() - 1 - j] + 1e-36L, "tap ", i, " of ", n);
	}
}

template <class T>
void WindowedHilbert(Gen& g) {
	const size_t n = g.length(2, g.chance(1, 3) ? 140 : 40, 6);
	const size_t half = n % 2 ? n : 2 * n - 1;
	g.note(TypeName<T>(), " taps ", n);
	g.label(n % 2 ? "odd length" : "even length");
	g.labelIf(half > 31, "longer than the internal block");
	g.nontrivial(n >= 5);
	WithWindow<T>(g, half, [&](const auto& window, std::vector<T> w) {
		Taps ref = RefLowpass(w, 0.5L);
		if (!ref.usable) g.discard();
		bool symmetric = true;
		for (size_t i = 0; i < half; ++i) symmetric = symmetric && w[i] == w[half - 1 - i];
		const auto got = RunDesign<T>(g, n, Fir.Hilbert.Windowed.Window(window));
		if (symmetric) CheckHilbert(g, got, ref.t, n, ref.tol);
		else
			for (size_t i = 0; i < n; ++i) {
				const size_t j = n % 2 ? i : 2 * i;
				const long k = (long)j - (long)(half / 2);
				const ld s = k % 2 == 0 ? 0 : ((k % 4 + 4) % 4 == 1 ? 2 : -2);
				NEAR("taps", got[i], s * ref.t[j], 2 * ref.tol[j] + 1e-36L, "tap ", i, " of ", n);
			}
	});
}
PROP("hilbert-windowed", 15000, "2..140 taps odd and even, all windows; taps against the half-band reference, antisymmetry, zero taps; non-trivial = 5 taps or more") {
	if (g.flag()) WindowedHilbert<float>(g);
	else WindowedHilbert<double>(g);
}

template <class T>
void LeastSquaresHilbert(Gen& g) {
	const size_t n = g.size(2, g.chance(1, 6) ? 60 : 24);
	const size_t half = n % 2 ? n : 2 * n - 1;
	const T width = T(g.flag() ? g.pick({ 0.05, 0.25, 0.125, 0.02 }) : g.real(0.01, 0.45)), weight = T(g.nice(0.0, 1.5));
	const size_t grid = g.flag() ? 0 : half + g.draw(80);
	const bool setWidth = g.flag(), setWeight = !setWidth || g.flag();
	g.note(TypeName<T>(), " taps ", n, " width ", setWidth ? width : T(0), " weight ", setWeight ? weight : T(1), " grid ", grid);
	g.label(n % 2 ? "odd length" : "even length");
	g.labelIf(!setWidth, "default width");
	g.nontrivial(n >= 5);
	auto desc = setWidth ? Fir.Hilbert.LeastSquares.TransitionWidth(width) : Fir.Hilbert.LeastSquares.TransitionWeight(weight);
	if (setWidth && setWeight) desc = desc.TransitionWeight(weight);
	desc = desc.Grid(grid);
	const auto got = RunDesign<T>(g, n, desc);
	// The half-band design behind it (its optimality is the subject of another property).
	const T d = desc.transitionWidth;
	const auto low = DesignFilter<T, TIME_DOMAIN>(half, Fir.Lowpass.LeastSquares.Cutoff(T(0.5) - d, T(0.5) + d).Weight(T(1), setWeight ? weight : T(1), T(1)).Grid(grid));
	std::vector<ld> tol(half, 0);
	ld big = 0;
	for (auto v : low) big = std::max(big, std::abs((ld)v));
	for (auto& t : tol) t = 4 * Eps<T>() * big;
	CheckHilbert(g, got, Vec(low), n, tol);
}
PROP("hilbert-least-squares", 4000, "2..60 taps odd and even, transition widths and weights (default and given), grids; taps against the half-band design, antisymmetry, zero taps; non-trivial = 5 taps or more") {
	if (g.flag()) LeastSquaresHilbert<float>(g);
	else LeastSquaresHilbert<double>(g);
}

template <class T>
void Phase(Gen& g) {
	const size_t n = g.range<size_t>(41, 120);
	BasicSignal<T, TIME_DOMAIN> taps;
	ld margin = 12.0L / n;
	switch (g.draw(3)) {
		case 0: taps = DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed); break;
		case 1: taps = DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed.Window(windows::blackman)); break;
		case 2: taps = DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.LeastSquares.TransitionWidth(T(0.1)).TransitionWeight(T(0.1))); margin += n % 2 ? 0.1L : 0.2L; break;
		default: taps = DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed.Window(windows::kaiser.alpha(2))); break;
	}
	g.note(TypeName<T>(), " taps ", n);
	g.nontrivial();
	for (int i = 1; i < 24; ++i) {
		const ld f = i / 24.0L;
		if (f < margin || (n % 2 && f > 1 - margin)) continue;
		NEAR("phase shift", CenteredResponse(taps, f), cld(0, -1), 0.05L, "response at ", (double)f);
	}
}
PROP("hilbert-response", 1500, "41..120 taps odd and even, four designs: response within 0.05 of -i more than 12/taps inside the band (plus the transition band of the least squares design); every case non-trivial") {
	if (g.flag()) Phase<float>(g);
	else Phase<double>(g);
}
