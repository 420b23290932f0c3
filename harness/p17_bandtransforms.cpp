// P17: IIR band transforms are exact all-pass frequency substitutions.
#include "roots.hpp"

#include <dspbb/Filtering/IIR/BandTransforms.hpp>
using namespace h;

template <class T>
void Case(Gen& g) {
	const int kind = (int)g.draw(3); // low-pass, high-pass, band-pass, band-stop
	static const char* names[] = { "low-pass", "high-pass", "band-pass", "band-stop" };
	// Cutoffs include 1/2 and half-width bands, where the mapping degenerates.
	const auto edge = [&](double lo, double hi) {
		switch (g.draw(2)) {
			case 0: return (double)g.pick({ 0.5, 0.25, 0.75, 0.125, 0.3, 0.7, 0.9, 0.05 });
			case 1: return g.real(lo, hi);
			default: { // close to 1/2
				const double d = g.logu(1e-9, 0.1);
				return g.flag() ? 0.5 + d : 0.5 - d;
			}
		}
	};
	T f1 = T(edge(0.02, 0.98)), f2 = 0;
	if (kind >= 2) {
		if (g.flag()) f2 = f1 + T(g.pick({ 0.5, 0.25, 0.125, 0.03125 }));
		else f2 = T(edge(0.02, 0.98));
		if (f1 > f2) std::swap(f1, f2);
		if (!(f1 >= T(0.02) && f2 <= T(0.98) && f2 - f1 >= T(0.01))) g.discard();
		g.labelIf(std::abs((double)(f2 - f1) - 0.5) < 1e-3, "band of half width");
	}
	else {
		g.labelIf(std::abs((double)f1 - 0.5) < 1e-3, "cutoff at one half");
	}
	g.label(names[kind]);

	Roots z, p;
	const bool big = g.chance(1, 4);
	p.real.resize(g.draw(big ? 4 : 2));
	p.pairs.resize(g.draw(big ? 4 : 2));
	const size_t np = p.count();
	// Missing zeros sit at infinity, which the mapping sends to -a1/a0 or the roots of the opposite quadratic: finite only
	// when the a0 coefficient is not (nearly) zero.
	const ld w1 = PI * (ld)f1, w2 = PI * (ld)f2;
	const ld x = (w1 - w2) / 2;
	const ld a0 = kind < 2 ? std::cos(w1) / (1 + std::sin(w1)) : (1 + std::tan(x)) / (1 - std::tan(x));
	const bool missing = std::abs(a0) > 0.1L && g.chance(1, 3);
	g.labelIf(missing, "may have fewer zeros");
	z.pairs.resize(g.draw(np / 2));
	const size_t restReal = np - 2 * z.pairs.size();
	const bool extra = missing && g.chance(1, 3); // more zeros than poles: the poles at infinity get padded instead
	g.labelIf(extra, "may have more zeros than poles");
	z.real.resize(extra ? restReal + g.draw(3) : missing ? g.draw(restReal) : restReal);
	const size_t nz = z.count(), top = std::max(np, nz);
	for (auto& v : p.real) v = g.flag() ? g.nice(0, 0.96) : -g.nice(0, 0.96);
	for (auto& v : p.pairs) v = std::polar(g.nice(0.05, 0.96), g.nice(0.05, 3.0));
	for (auto& v : z.real) v = g.flag() ? -1.0 : g.chance(1, 4) ? 1.0 : g.nice(-1, 1);
	for (auto& v : z.pairs) v = std::polar(g.flag() ? 1.0 : g.nice(0.05, 1), g.nice(0.05, 3.0));
	DiscreteZeroPoleGain<T> sys;
	Fill(sys.zeros, z);
	Fill(sys.poles, p);
	sys.gain = T((g.flag() ? 1 : -1) * g.nice(0.125, 4));
	g.note(TypeName<T>(), " ", names[kind], " ", f1, " ", f2, " gain ", sys.gain, " zeros ", Show(z.real), Show(z.pairs), " poles ", Show(p.real), Show(p.pairs));
	g.nontrivial(np >= 1);

	DiscreteZeroPoleGain<T> out;
	switch (kind) {
		case 0: out = Halfband2Lowpass(sys, f1); break;
		case 1: out = Halfband2Highpass(sys, f1); break;
		case 2: out = Halfband2Bandpass(sys, f1, f2); break;
		default: out = Halfband2Bandstop(sys, f1, f2); break;
	}
	const Roots oz = Read(out.zeros), op = Read(out.poles);
	const size_t mul = kind >= 2 ? 2 : 1;
	CHK(op.count() == mul * top, "count", "poles ", op.count(), " want ", mul * top);
	CHK(oz.count() == mul * top, "count", "zeros ", oz.count(), " want ", mul * top);

	const BandMap map(kind, w1, w2);
	const ld cond = 6;
	for (const auto& r : Expand(op)) {
		CHK(std::isfinite((double)r.real()) && std::isfinite((double)r.imag()), "finite", "pole ", CStr(r));
		// A pole at infinity is outside the unit circle and stays outside.
		if (nz <= np) CHK(AbsC(r) < 1 + 20 * std::sqrt(Eps<T>()), "stability", "pole outside the unit circle: ", CStr(r), " |.| ", (double)AbsC(r));
	}
	const auto error = [&](const Roots& r, cld zz) {
		ld e = 0;
		for (const cld a : Expand(r)) e += map.FactorError(a, zz);
		return e * Eps<T>() * 8 * cond;
	};
	ld padErr = 0;
	if (nz != np) padErr = (ld)(nz < np ? np - nz : nz - np) * Eps<T>() * 200 / (a0 * a0);
	uint64_t s = g.draw(0xffff) * 91 + 7;
	int compared = 0;
	for (int i = 0; i < 10; ++i) {
		ld th;
		switch (i) {
			case 0: th = w1; break;
			case 1: th = kind >= 2 ? w2 : 0; break;
			case 2: th = 0; break;
			case 3: th = PI; break;
			default: th = PI * (ld)U01(s);
		}
		const ld phi = map.Substitute(th);
		const cld zt = std::polar(1.0L, th), zp = std::polar(1.0L, phi);
		ld nMag;
		const cld wantNum = (ld)sys.gain * EvalRoots(z, zp, nMag), wantDen = EvalRoots(p, zp);
		const cld want = wantNum / wantDen;
		const cld got = (ld)out.gain * EvalRoots(oz, zt) / EvalRoots(op, zt);
		// Zeros that lie on the unit circle: bound the absolute error by perturbing off the zero.
		ld tol;
		const ld eP = error(p, zt) + padErr + (ld)(top + 2) * 8 * Eps<T>();
		const ld eZ = error(z, zt);
		if (!(eP < 0.05L)) continue;
		if (eZ < 0.05L) {
			tol = 2 * (eP + eZ) * AbsC(want);
		}
		else {
			continue;
		}
		++compared;
		NEAR(i < 2 ? "edge" : "response", got, want, tol + 1e-25L, "theta/pi=", (double)(th / PI), " phi/pi=", (double)(phi / PI), " relative tolerance ", (double)(tol / (AbsC(want) + 1e-300L)));
	}
	g.label(compared >= 4 ? "4+ points compared" : compared ? "1-3 points compared" : "nothing compared");
}
PROP("substitution", 80000, "type, band kind, edges (special values, uniform, within 1e-9 of 1/2, bands of half width), prototype with 0..12 poles inside 0.96 and as many, fewer or (up to 3) more zeros inside or on the unit circle; response at the band edges, DC, Nyquist and 6 random frequencies; non-trivial = at least one pole") {
	if (g.flag()) Case<float>(g);
	else Case<double>(g);
}
