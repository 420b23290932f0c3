// P19: designed IIR filters follow the squared-magnitude formula of their family, are stable and have the right order.
#include "elliptic_ref.hpp"
#include "roots.hpp"

#include <dspbb/Filtering/IIR.hpp>
using namespace h;

enum eFamily { BUTTER,
			   CHEB1,
			   CHEB2,
			   ELLIP };
static const char* familyNames[] = { "butterworth", "chebyshev1", "chebyshev2", "elliptic" };
static const char* kindNames[] = { "low-pass", "high-pass", "band-pass", "band-stop" };

template <class T>
DiscreteZeroPoleGain<T> Design(eFamily f, int kind, size_t order, T f1, T f2, T rp, T rs) {
	const auto split = [&](const auto& band) {
		switch (f) {
			case BUTTER: return DesignFilter<T>(order, band.Butterworth.Cutoff(f1));
			case CHEB1: return DesignFilter<T>(order, band.Chebyshev1.Cutoff(f1).PassbandRipple(rp));
			case CHEB2: return DesignFilter<T>(order, band.Chebyshev2.Cutoff(f1).StopbandRipple(rs));
			default: return DesignFilter<T>(order, band.Elliptic.Cutoff(f1).PassbandRipple(rp).StopbandRipple(rs));
		}
	};
	const auto two = [&](const auto& band) {
		switch (f) {
			case BUTTER: return DesignFilter<T>(order, band.Butterworth.Band(f1, f2));
			case CHEB1: return DesignFilter<T>(order, band.Chebyshev1.Band(f1, f2).PassbandRipple(rp));
			case CHEB2: return DesignFilter<T>(order, band.Chebyshev2.Band(f1, f2).StopbandRipple(rs));
			default: return DesignFilter<T>(order, band.Elliptic.Band(f1, f2).PassbandRipple(rp).StopbandRipple(rs));
		}
	};
	switch (kind) {
		case 0: return split(Iir.Lowpass);
		case 1: return split(Iir.Highpass);
		case 2: return two(Iir.Bandpass);
		default: return two(Iir.Bandstop);
	}
}

/// Reference analog prototype: roots (upper half plane and real) and squared magnitude.
struct Prototype {
	eFamily family;
	size_t n;
	ld eps = 0; // ripple factor
	ld k = 0, k1 = 0;
	std::vector<cld> zeros, poles; // all of them
	std::vector<ld> rz; // elliptic: zeros of the rational function in (0,1)

	ld Cheb(ld x) const {
		x = std::abs(x);
		return x <= 1 ? std::cos(n * std::acos(x)) : std::cosh(n * std::acosh(x));
	}
	ld Rational(ld x) const {
		ld v = n % 2 ? x : 1, one = 1;
		for (ld a : rz) {
			const ld p = 1 / (k * a);
			v *= (x * x - a * a) / (1 - (x / p) * (x / p));
			one *= (1 - a * a) / (1 - 1 / (p * p));
		}
		return v / one;
	}
	/// |H|^2 at analog frequency w.
	ld Mag2(ld w) const {
		switch (family) {
			case BUTTER: return 1 / (1 + std::pow(std::abs(w), 2 * (ld)n));
			case CHEB1: return 1 / (1 + eps * eps * Cheb(w) * Cheb(w));
			case CHEB2: {
				if (w == 0) return 1;
				const ld t = eps * Cheb(1 / w);
				return t * t / (1 + t * t);
			}
			default: {
				const ld r = eps * Rational(w);
				return 1 / (1 + r * r);
			}
		}
	}
};

inline Prototype MakePrototype(eFamily f, size_t n, ld rp, ld rs) {
	Prototype p{ f, n };
	switch (f) {
		case BUTTER:
			for (size_t i = 0; i < n; ++i) p.poles.push_back(std::polar(1.0L, PI * (2 * i + n + 1) / (2 * n)));
			break;
		case CHEB1:
		case CHEB2: {
			p.eps = f == CHEB1 ? std::sqrt(1 / ((1 - rp) * (1 - rp)) - 1) : rs / std::sqrt(1 - rs * rs);
			const ld a = std::asinh(1 / p.eps) / n;
			for (size_t i = 0; i < n; ++i) {
				const ld phi = PI * (2 * i + 1) / (2 * n);
				const cld r(-std::sinh(a) * std::sin(phi), std::cosh(a) * std::cos(phi));
				p.poles.push_back(f == CHEB1 ? r : 1.0L / r);
				if (f == CHEB2 && !(n % 2 == 1 && i == n / 2)) p.zeros.push_back(cld(0, 1 / std::cos(phi)));
			}
			break;
		}
		default: {
			p.eps = std::sqrt(1 / ((1 - rp) * (1 - rp)) - 1);
			p.k1 = p.eps / std::sqrt(1 / (rs * rs) - 1);
			const Modulus m1 = FromK(p.k1), m1c{ m1.kp, m1.k };
			const ld K1 = RefK(m1), K1c = RefK(m1c);
			// Degree equation: K'/K = K1'/(n K1). Nome of k is the n-th root of the nome of k1.
			ld q = std::exp(-PI * K1c / K1 / n);
			// Modulus from the nome, via the complementary nome when q is large.
			const auto modulus = [](ld q) {
				ld t2 = 0, t3 = 1;
				for (int i = 0; i < 40; ++i) {
					t2 += 2 * std::pow(q, (i + 0.5L) * (i + 0.5L));
					if (i) t3 += 2 * std::pow(q, (ld)i * i);
				}
				return t2 * t2 / (t3 * t3);
			};
			const ld lnq = -PI * K1c / K1 / n;
			const ld qc = std::exp(PI * PI / lnq); // complementary nome
			Modulus m;
			if (q < qc) m = FromK(modulus(q));
			else {
				const Modulus c = FromK(modulus(qc));
				m = { c.kp, c.k };
			}
			p.k = m.k;
			const ld K = RefK(m);
			for (size_t i = 0; i < n / 2; ++i) {
				const ld u = K * (2 * i + 1 + n % 2) / n; // sn at these points: zeros of the rational function
				const ld z = Ref(u, m).sn.real();
				p.rz.push_back(z);
				for (ld s : { -1.0L, 1.0L }) p.zeros.push_back(cld(0, s / (p.k * z)));
			}
			// Poles: j sn(K(2i+1-n%2)/n + j v0), v0 from arcsn(j/eps, k1).
			const cld asn = cld(0, 1 / p.eps) * RefRF(1 + 1 / (p.eps * p.eps), 1 + p.k1 * p.k1 / (p.eps * p.eps), 1.0L);
			const cld jv0 = asn * (K / n / K1);
			for (size_t i = 0; i < n / 2 + n % 2; ++i) {
				const ld u = K * (2 * i + 1 - n % 2) / n;
				const cld r = cld(0, 1) * Ref(u + jv0, m).sn;
				p.poles.push_back(r);
				if (!(n % 2 && i == 0)) p.poles.push_back(std::conj(r));
			}
			break;
		}
	}
	return p;
}

template <class T>
void Case(Gen& g, eFamily f) {
	const int kind = (int)g.draw(3);
	const bool twoSided = kind >= 2;
	size_t n = 1 + g.draw(twoSided ? (std::is_same_v<T, float> ? 4 : 7) : (std::is_same_v<T, float> ? 7 : 13));
	if (!std::is_same_v<T, float> && g.chance(1, 6)) n += 14 + g.draw(30);
	const size_t order = twoSided ? 2 * n : n;
	const auto edge = [&](double lo, double hi) {
		switch (g.draw(2)) {
			case 0: return (double)g.pick({ 0.5, 0.25, 0.75, 0.3, 0.7, 0.9, 0.1 });
			case 1: return g.real(lo, hi);
			default: return 0.5 + (g.flag() ? 1 : -1) * g.logu(1e-7, 0.1);
		}
	};
	T f1 = T(edge(0.04, 0.96)), f2 = 0;
	if (twoSided) {
		f2 = g.chance(1, 3) ? f1 + T(g.pick({ 0.5, 0.25, 0.125 })) : T(edge(0.04, 0.96));
		if (f1 > f2) std::swap(f1, f2);
		if (!(f1 >= T(0.03) && f2 <= T(0.97) && f2 - f1 >= T(0.05))) g.discard();
	}
	const T rp = T(g.flag() ? g.pick({ 0.1, 0.01, 0.05, 0.5, 0.001 }) : g.logu(1e-3, 0.6));
	const T rs = T(g.flag() ? g.pick({ 0.1, 0.01, 0.05, 0.5, 0.001 }) : g.logu(1e-3, 0.6));
	if (f == ELLIP && !(rs * 1.2 < 1 - rp)) g.discard();
	g.note(TypeName<T>(), " ", familyNames[f], " ", kindNames[kind], " order ", order, " edges ", f1, " ", f2, " ripples ", rp, " ", rs);
	g.label(familyNames[f]);
	g.label(kindNames[kind]);

	const Prototype proto = MakePrototype(f, n, rp, rs);
	// The elliptic modulus 1 means no transition band at all; it has to be distinguishable from that in the type.
	if (f == ELLIP && !((1 - proto.k) * (1 + proto.k) > 2e4L * Eps<T>())) g.discard();
	const BandMap map(kind, PI * (ld)f1, PI * (ld)f2);
	g.nontrivial(n >= 2);

	const DiscreteZeroPoleGain<T> sys = Design<T>(f, kind, order, f1, f2, rp, rs);
	const Roots z = Read(sys.zeros), p = Read(sys.poles);
	CHK(sys.order() == order && p.count() == order && z.count() == order, "order", "order ", sys.order(), " poles ", p.count(), " zeros ", z.count(), " want ", order);
	CHK(std::isfinite(sys.gain), "finite", "gain ", sys.gain);

	// Discrete prototype roots: (1+s)/(1-s).
	const auto discrete = [](const std::vector<cld>& v) {
		std::vector<cld> r;
		for (auto s : v) r.push_back((1.0L + s) / (1.0L - s));
		return r;
	};
	std::vector<cld> dz = discrete(proto.zeros), dp = discrete(proto.poles);
	while (dz.size() < n) dz.push_back(-1);
	// Accuracy to which the family's own parameters are known.
	ld cond = 8;
	if (f == CHEB1) cond += 2 / (ld)rp / n;
	if (f == ELLIP) cond += 2 / (ld)rp / n + 8 / ((1 - proto.k) * (1 + proto.k)) + 4 / (1 - proto.k1);
	ld poleShift = 0;
	const auto error = [&](const std::vector<cld>& roots, cld zz) {
		ld e = 0;
		for (const auto& a : roots) e += 8 * map.FactorError(a, zz) + cond * (1 + AbsC(a)) * map.Sensitivity(a, zz);
		return 6 * e * Eps<T>();
	};
	(void)poleShift;

	for (const auto& r : Expand(p)) {
		CHK(std::isfinite((double)r.real()) && std::isfinite((double)r.imag()), "finite", "pole ", CStr(r));
		CHK(AbsC(r) < 1, "stability", "pole on or outside the unit circle: ", CStr(r), " 1-|p| ", (double)(1 - AbsC(r)));
	}

	uint64_t s = g.draw(0xffff) * 91 + 7;
	int compared = 0, tooLoose = 0;
	for (int i = 0; i < 14; ++i) {
		ld th;
		switch (i) {
			case 0: th = map.w1; break;
			case 1: th = twoSided ? map.w2 : PI / 2; break;
			case 2: th = 0; break;
			case 3: th = PI; break;
			default: th = PI * (ld)U01(s);
		}
		const ld phi = map.Substitute(th);
		const cld zt = std::polar(1.0L, th);
		const ld w = std::tan(phi / 2); // analog frequency of the prototype, edge at 1
		const bool passed = std::abs(w) <= 1;
		const ld want = std::sqrt(proto.Mag2(std::abs(w) > 1e15L ? 1e15L : w));
		const cld h = (ld)sys.gain * EvalRoots(z, zt) / EvalRoots(p, zt);
		const ld got = AbsC(h);
		const ld eP = error(dp, zt), eZ = error(dz, zt);
		// The gain is fixed at zero frequency of the prototype, so it inherits the errors there.
		const cld zref = std::polar(1.0L, 0.0L);
		ld eG = 0;
		for (const auto& a : dp) eG += cond * (1 + AbsC(a)) / AbsC(zref - a);
		for (const auto& a : dz) eG += cond * (1 + AbsC(a)) / AbsC(zref - a);
		eG *= 6 * Eps<T>();
		const ld rel = eP + eG + (std::isfinite((double)eZ) ? eZ : 1e9L);
		// Bounds of the specification, with an allowance of the (relative) evaluation error of the poles alone.
		const ld slack = 2 * (eP + eG) + 1e-12L;
		if (slack < 0.1L && rel < 0.1L) {
			if (f == CHEB1 || f == ELLIP) {
				if (std::abs(w) < 1) CHK(got >= (1 - (ld)rp) * (1 - 2 * rel) && got <= 1 + 2 * rel, "passband", "gain ", (double)got, " at theta/pi=", (double)(th / PI), " ripple ", rp);
			}
			if (f == CHEB2 && std::abs(w) > 1) CHK(got <= (ld)rs * (1 + 2 * rel), "stopband", "gain ", (double)got, " at theta/pi=", (double)(th / PI), " ripple ", rs);
			if (f == ELLIP && std::abs(w) > 1 / proto.k) CHK(got <= (ld)rs * (1 + 2 * rel), "stopband", "gain ", (double)got, " at theta/pi=", (double)(th / PI), " ripple ", rs);
		}
		if (!(rel < 0.1L)) {
			++tooLoose;
			continue;
		}
		++compared;
		NEAR(i < 2 ? "edge" : passed ? "pass side" : "stop side", got, want, 2 * rel * want + 1e-25L, "theta/pi=", (double)(th / PI), " analog frequency ", (double)w, " relative tolerance ", (double)(2 * rel));
	}
	// Polarity: the point the prototype's zero frequency lands on has positive real response.
	{
		ld th = 0;
		if (kind == 1) th = PI;
		if (kind == 2) th = 2 * std::atan(std::sqrt(std::tan(map.w1 / 2) * std::tan(map.w2 / 2)));
		const cld zt = std::polar(1.0L, th);
		const cld h = (ld)sys.gain * EvalRoots(z, zt) / EvalRoots(p, zt);
		const ld e = error(dp, zt) + error(dz, zt);
		if (e < 0.05L) {
			const ld want = std::sqrt(proto.Mag2(0));
			NEAR("polarity", h, want, want * (4 * e + 1e-10L), "response at the image of zero frequency");
		}
	}
	g.label(compared >= 8 ? "8+ points compared" : compared ? "1-7 points compared" : "nothing compared");
}
#define FAMILY(NAME, F)                                                                                                                    \
	PROP(NAME, 20000, "type, band kind, order 1..14 (2..16 two-sided), one in six of the double cases 15..58, edges incl. 1/2 and half-width bands, ripples 1e-3..0.6; order, stability, ripple bounds and magnitude against the family's closed formula at edges, DC, Nyquist and 10 random frequencies; non-trivial = prototype order 2 or more") { \
		if (g.flag()) Case<float>(g, F);                                                                                           \
		else Case<double>(g, F);                                                                                                   \
	}
FAMILY("butterworth", BUTTER)
FAMILY("chebyshev1", CHEB1)
FAMILY("chebyshev2", CHEB2)
FAMILY("elliptic", ELLIP)
