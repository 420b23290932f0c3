// P16: the bilinear transform substitutes s = k (z-1)/(z+1) exactly.
#include "roots.hpp"

#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
using namespace h;

template <class T>
void Case(Gen& g) {
	const T fs = g.flag() ? T(std::pow(2.0, double((int)g.range(-4, 20)))) : T(g.logu(0.05, 1e6));
	std::optional<T> prewarp;
	if (g.flag()) {
		prewarp = T(fs * PI * g.nice(0.01, 0.96)); // below Nyquist, in rad/s
		g.label("prewarp");
	}
	const ld k = prewarp ? (ld)*prewarp / std::tan((ld)*prewarp / (ld)fs / 2) : 2 * (ld)fs;
	Roots z, p;
	const bool big = g.chance(1, 4);
	p.real.resize(g.draw(big ? 4 : 3));
	p.pairs.resize(g.draw(big ? 4 : 2));
	const size_t np = p.count();
	const size_t maxPairs = np / 2;
	z.pairs.resize(g.draw(maxPairs));
	z.real.resize(g.draw(np - 2 * z.pairs.size()));
	const bool anyHalf = g.chance(1, 3); // roots anywhere, or poles in the left half plane
	g.label(anyHalf ? "unstable allowed" : "stable");
	const auto real = [&](bool left) {
		double v = g.nice(0.03125, 4);
		if (left || g.flag()) v = -v;
		if (std::abs(v - 1) < 0.05) v = -v;
		return v * (double)k;
	};
	const auto pair = [&](bool left) {
		const double m = g.nice(0.03125, 4), a = g.nice(0.03125, 3.0);
		double re = m * std::cos(a);
		if (left && re > 0) re = -re;
		double im = m * std::sin(a);
		if (std::abs(re - 1) + std::abs(im) < 0.05) re = -re;
		return cd(re, im) * (double)k;
	};
	for (auto& v : p.real) v = real(!anyHalf);
	for (auto& v : p.pairs) v = pair(!anyHalf);
	for (auto& v : z.real) v = g.chance(1, 4) ? 0.0 : real(false);
	for (auto& v : z.pairs) v = pair(false);
	ContinuousZeroPoleGain<T> sys;
	// Keep the overall gain near one so that nothing leaves the range of the type.
	sys.gain = T((g.flag() ? 1 : -1) * g.nice(0.25, 4) * std::pow((double)k, (double)np - (double)z.count()));
	if (!(std::abs((ld)sys.gain) < 1e30L && std::abs((ld)sys.gain) > 1e-30L && std::pow(8 * k, (ld)np) < 1e30L && std::pow(k / 32, (ld)np) > 1e-25L)) {
		g.discard();
	}
	Fill(sys.zeros, z);
	Fill(sys.poles, p);
	g.note(TypeName<T>(), " fs ", fs, " prewarp ", prewarp ? (double)*prewarp : 0.0, " gain ", sys.gain, " zeros ", Show(z.real), Show(z.pairs), " poles ", Show(p.real), Show(p.pairs));
	g.label(np == 0 ? "gain only" : z.count() == np ? "zeros = poles" : z.count() == 0 ? "no zeros" : "some zeros missing");
	g.nontrivial(np >= 2 && np != z.count());

	const DiscreteZeroPoleGain<T> dis = prewarp ? BilinearTransform(sys, fs, prewarp) : BilinearTransform(sys, fs);
	const Roots dz = Read(dis.zeros), dp = Read(dis.poles);
	CHK(dis.order() == np && dp.count() == np && dz.count() == np, "order", "discrete system has ", dz.count(), " zeros and ", dp.count(), " poles, want ", np);
	size_t atMinusOne = 0;
	for (auto v : dz.real) atMinusOne += v == -1.0;
	size_t expectAtMinusOne = np - z.count();
	CHK(atMinusOne >= expectAtMinusOne, "padding", "zeros at -1: ", atMinusOne, " want at least ", expectAtMinusOne);
	if (!anyHalf) {
		for (const auto& r : Expand(dp)) CHK(AbsC(r) < 1 + 4 * Eps<T>(), "stability", "left half plane pole mapped to ", CStr(r));
	}

	const ld u = prewarp ? (ld)*prewarp / (ld)fs / 2 : 0;
	const ld condK = prewarp ? 4 + 2 * u / std::sin(2 * u) : 1;
	const auto error = [&](const Roots& r, cld zz) { // relative error of the discrete factors belonging to r
		ld e = 0;
		for (const cld a : Expand(r)) {
			const cld zr = (k + a) / (k - a);
			const ld abs = condK * (k + AbsC(a)) / AbsC(k - a) * (1 + AbsC(zr));
			e += abs / AbsC(zz - zr) + condK * (k + AbsC(a)) / AbsC(k - a);
		}
		return e * Eps<T>() * 8;
	};
	uint64_t s = g.draw(0xffff) * 77 + 5;
	int compared = 0;
	for (int i = 0; i < 8; ++i) {
		cld zz;
		if (i == 0 && prewarp) zz = std::polar(1.0L, (ld)*prewarp / (ld)fs);
		else if (i < 4) zz = std::polar(1.0L, PI * (ld)(0.98 * U01(s)));
		else zz = cld(4 * U01(s) - 2, 4 * U01(s) - 2);
		if (AbsC(zz + 1.0L) < 0.02L) continue;
		const cld ss = k * (zz - 1.0L) / (zz + 1.0L);
		if (i == 0 && prewarp) NEAR("prewarp", ss, cld(0, (ld)*prewarp), 1e-12L * (ld)*prewarp + 1e-15L, "oracle consistency");
		const cld want = (ld)sys.gain * EvalRoots(z, ss) / EvalRoots(p, ss);
		const cld got = (ld)dis.gain * EvalRoots(dz, zz) / EvalRoots(dp, zz);
		const ld rel = error(z, zz) + error(p, zz) + (ld)(np + 2) * 8 * Eps<T>() * condK;
		if (!(rel < 0.05L)) continue;
		++compared;
		NEAR(i == 0 && prewarp ? "prewarp" : "response", got, want, 2 * rel * AbsC(want) + 1e-30L, "at z=", CStr(zz), " s=", CStr(ss), " relative tolerance ", (double)rel);
	}
	g.labelIf(compared == 0, "nothing compared");
}
PROP("bilinear", 60000, "type, sample rate 0.05..1e6, optional prewarp up to 0.96 Nyquist, 0..12 poles (real and paired, left half plane or anywhere), no more zeros than poles, gain; 8 points on and off the unit circle; non-trivial = two or more poles and at least one zero at infinity") {
	if (g.flag()) Case<float>(g);
	else Case<double>(g);
}
