// P18: elliptic integrals and Jacobi elliptic functions against theta-series references and their identities.
#include "elliptic_ref.hpp"

#include <algorithm>
#include <cassert>
#include <stdexcept>
#include <tuple>

#include <dspbb/Math/EllipticFunctions.hpp>
using namespace h;

template <class T>
T DrawModulus(Gen& g) {
	switch (g.draw(4)) {
		case 0: return T(g.nice(0, 1));
		case 1: return T(g.logu(1e-12, 0.1)); // near zero
		case 2: return T(1 - g.logu(std::is_same_v<T, float> ? 1e-7 : 1e-15, 0.1)); // near one
		case 3: return T(g.pick({ 0.0, 0.5, 0.17, 0.70710678118654752, 0.999 }));
		default: return T(g.unit());
	}
}
inline const char* ModulusClass(ld k) { return k == 0 ? "k=0" : k < 1e-3L ? "k near 0" : k == 1 ? "k=1" : k > 0.999L ? "k near 1" : "k inside"; }

// ------------------------------------------------------------------------------------------------------------

template <class T>
void Complete(Gen& g) {
	const T k = DrawModulus<T>(g);
	if (k == T(1)) g.discard();
	const T ks = g.chance(1, 4) ? -k : k;
	g.note(TypeName<T>(), " k=", ks);
	g.label(ModulusClass(k));
	g.nontrivial(k != 0);
	const Modulus m = FromK(k);
	const ld want = RefK(m);
	// 1-k^2 is known to the function only to within rounding of k.
	const ld sens = Eps<T>() / (m.kp * m.kp);
	const ld tol = Eps<T>() * 12 * want + 2 * std::min(sens, 40.0L);
	NEAR("K", EllipticK(ks), want, tol, "modulus ", ks);
}
PROP("complete", 60000, "modulus over [0,1) concentrated at both ends, either sign; K against the arithmetic-geometric mean; non-trivial = k != 0") {
	if (g.flag()) Complete<float>(g);
	else Complete<double>(g);
}

template <class T>
void RF(Gen& g) {
	using C = std::complex<T>;
	const bool real = g.flag();
	std::array<cld, 3> a;
	C in[3];
	for (int i = 0; i < 3; ++i) {
		const double mag = g.chance(1, 3) ? g.logu(1e-3, 1e3) : g.nice(0.0625, 4);
		double ang = real ? 0 : g.real(-0.98, 0.98) * (double)PI;
		in[i] = C(std::polar(mag, ang));
		if (real) in[i] = C(T(mag));
	}
	const size_t zero = g.draw(5);
	if (zero < 3) in[zero] = 0;
	// Nearly the same argument several times, also reflected to the other side of the cut.
	if (zero > 3)
		for (int i = 1; i < 3; ++i) {
			in[i] = in[0] * T(1 + g.logu(1e-6, 0.3));
			if (!real && g.flag()) in[i] = std::conj(in[i]);
			g.label("nearly equal arguments");
		}
	for (int i = 0; i < 3; ++i) a[i] = ToC(in[i]);
	g.note(TypeName<T>(), real ? " real " : " complex ", CStr(a[0]), " ", CStr(a[1]), " ", CStr(a[2]));
	g.label(real ? "real" : "complex");
	g.labelIf(zero < 3, "one argument zero");
	g.nontrivial();
	const cld want = RefRF(a[0], a[1], a[2]);
	// Conditioning of complex arguments whose duplicates nearly cancel.
	ld cond = 1;
	if (!real) {
		const cld d = RefRF(a[0] * cld(1, 1e-9L), a[1], a[2]) - want, e = RefRF(a[0], a[1] * cld(1, -1e-9L), a[2]) - want, f = RefRF(a[0], a[1], a[2] * cld(1, 1e-9L)) - want;
		cond += 4 * (AbsC(d) + AbsC(e) + AbsC(f)) / 1e-9L / AbsC(want);
		cond *= 8;
	}
	const ld tol = Eps<T>() * 24 * cond * AbsC(want);
	if (!(tol < 0.01L * AbsC(want))) g.discard();
	if (real) NEAR("RF", CarlsonRF(in[0].real(), in[1].real(), in[2].real()), want, tol);
	else NEAR("RF", CarlsonRF(in[0], in[1], in[2]), want, tol);
}
PROP("carlson", 60000, "three real positive or complex arguments off the negative axis, magnitudes 1e-3..1e3, possibly one zero; against the plain duplication algorithm in long double") {
	if (g.flag()) RF<float>(g);
	else RF<double>(g);
}

/// How much the reference moves when the modulus moves by its own rounding error.
template <class T>
Jacobi Spread(cld u, const Modulus& m, const Jacobi& ref) {
	// 1-k^2 (and with it the complementary modulus) is only known to within rounding.
	Jacobi s{ 0, 0, 0 };
	for (int sgn : { -1, 1 }) {
		const ld kp2 = m.kp * m.kp + sgn * 3 * Eps<T>();
		if (kp2 < 0 || kp2 > 1) continue;
		const Modulus p{ std::sqrt(std::max(0.0L, 1 - kp2)), std::sqrt(kp2) };
		const Jacobi r = Ref(u, p);
		s.sn = std::max(s.sn.real(), AbsC(r.sn - ref.sn));
		s.cn = std::max(s.cn.real(), AbsC(r.cn - ref.cn));
		s.dn = std::max(s.dn.real(), AbsC(r.dn - ref.dn));
	}
	return s;
}

template <class T>
void Real(Gen& g) {
	T k = DrawModulus<T>(g);
	const bool above = k != 0 && k != 1 && g.chance(1, 8);
	const Modulus m = FromK(k);
	const ld K = k == 1 ? 10 : RefK(m);
	ld xu;
	switch (g.draw(3)) {
		case 0: xu = g.sym(8) * K / 2; break; // quarter periods
		case 1: xu = K * (ld)g.real(-1, 1); break;
		case 2: xu = K * (ld)g.real(-12, 12); break;
		default: xu = (g.flag() ? 1 : -1) * (ld)g.nice(0.01, 3); break;
	}
	T x = T(xu);
	const T ks = g.chance(1, 6) ? -k : k;
	g.note(TypeName<T>(), " x=", x, " k=", ks, " K=", (double)K);
	g.label(ModulusClass(k));
	g.labelIf(x < 0, "negative argument");
	g.labelIf(std::abs((ld)x) > K, "beyond the first quarter period");
	g.nontrivial(k != 0 && k != 1 && x != 0);
	const Jacobi ref = Ref((ld)x, m), sp = Spread<T>((ld)x, m, ref);
	const auto [sn, cn, dn] = EllipticSNCNDN(x, ks);
	// Argument errors accumulate with the number of periods removed.
	const ld e = Eps<T>() * (16 + 8 * std::abs((ld)x) * 1);
	const ld periodErr = k == 1 || std::abs((ld)x) < K ? 0 : std::abs((ld)x) / K * std::min(1.0L, 3 * Eps<T>() / (m.kp * m.kp));
	const ld tSn = e + 4 * sp.sn.real() + 4 * periodErr, tCn = e + 4 * sp.cn.real() + 4 * periodErr;
	NEAR("sn", sn, ref.sn, tSn, "x=", x, " k=", ks);
	NEAR("cn", cn, ref.cn, tCn, "x=", x, " k=", ks);
	const ld d = std::abs(ref.dn.real());
	// dn is the root of 1 - k^2 sn^2: the square is accurate, the root loses what the square cancels.
	NEAR("dn", (ld)dn * dn, d * d, 4 * (e + 2 * d * sp.dn.real() + 2 * tSn * AbsC(ref.sn) + 2 * d * periodErr), "x=", x, " k=", ks);
	CHK(dn >= 0, "dn", "negative dn ", dn);
	NEAR("identity", (ld)sn * sn + (ld)cn * cn, 1.0L, 12 * Eps<T>(), "sn^2+cn^2");
	NEAR("identity", (ld)dn * dn + (ld)k * k * sn * sn, 1.0L, 12 * Eps<T>(), "dn^2+k^2 sn^2");
	CHK(EllipticSN(x, ks) == sn && EllipticCN(x, ks) == cn && EllipticDN(x, ks) == dn, "accessors", "single-function forms differ");
	const auto [sm, cm, dm] = EllipticSNCNDN(T(-x), ks);
	NEAR("symmetry", sm, -ref.sn, tSn, "sn is odd");
	NEAR("symmetry", cm, ref.cn, tCn, "cn is even");
	// Amplitude: the unwrapped angle of (cn, sn).
	if (k <= 1) {
		const T am = EllipticAM(x, k);
		ld want;
		if (k == 1) want = 2 * std::atan(std::exp((ld)x)) - PI / 2;
		else {
			const ld n = std::round((ld)x / (2 * K));
			const Jacobi r = Ref((ld)x - 2 * K * n, m);
			want = n * PI + std::atan2(r.sn.real(), r.cn.real());
		}
		const ld t = 2 * e + 4 * (sp.sn.real() + sp.cn.real()) + 4 * periodErr + 8 * Eps<T>() * std::abs(want) * 4;
		NEAR("am", am, want, t, "x=", x, " k=", k);
	}
	if (above) {
		g.label("modulus above one");
		const T ki = T(1) / k;
		if (std::abs((ld)x * ki) < 40 * K && k > T(1e-3)) {
			const auto [s2, c2, d2] = EllipticSNCNDN(x, ki);
			const Modulus mm = FromK(1 / (ld)ki);
			const ld y = (ld)x * ki;
			const Jacobi r2 = Ref(y, mm), sp2 = Spread<T>(y, mm, r2);
			const ld Kk = RefK(mm);
			const ld e2 = Eps<T>() * (16 + 12 * std::abs(y)) + 4 * (sp2.sn.real() + sp2.cn.real()) + 4 * (std::abs(y) < Kk ? 0 : std::abs(y) / Kk * std::min(1.0L, 3 * Eps<T>() / (mm.kp * mm.kp)));
			NEAR("above one", s2, r2.sn / (ld)ki, e2 / ki, "sn x=", x, " k=", ki);
			NEAR("above one", d2, r2.cn, e2, "dn x=", x, " k=", ki);
			NEAR("identity", (ld)s2 * s2 + (ld)c2 * c2, 1.0L, 16 * Eps<T>(), "sn^2+cn^2 above one");
			NEAR("identity", (ld)d2 * d2 + (ld)ki * ki * s2 * s2, 1.0L, 16 * Eps<T>(), "dn^2+k^2 sn^2 above one");
		}
	}
}
PROP("real", 60000, "modulus over [0,1] concentrated at both ends and either sign (and reciprocals), real arguments at quarter periods, inside the first period, over many periods, both signs; sn, cn, dn, amplitude against theta series; non-trivial = modulus and argument not degenerate") {
	if (g.flag()) Real<float>(g);
	else Real<double>(g);
}

template <class T>
void Complex(Gen& g) {
	using C = std::complex<T>;
	const T k = DrawModulus<T>(g);
	const Modulus m = FromK(k), mc{ m.kp, m.k };
	const ld K = k == 1 ? 5 : RefK(m), Kc = k == 0 ? 5 : std::min(RefK(mc), 12.0L);
	cld u;
	switch (g.draw(2)) {
		case 0: u = cld(K * g.sym(8) / 4, Kc * g.sym(8) / 4); break;
		case 1: u = cld(K * (ld)g.real(-1, 1), Kc * (ld)g.real(-0.9, 0.9)); break;
		default: u = cld(K * (ld)g.real(-5, 5), Kc * (ld)g.real(-3, 3)); break;
	}
	const C x{ (T)u.real(), (T)u.imag() };
	u = ToC(x);
	g.note(TypeName<T>(), " x=", CStr(u), " k=", k, " K=", (double)K, " K'=", (double)Kc);
	g.label(ModulusClass(k));
	const Jacobi ref = Ref(u, m), sp = Spread<T>(u, m, ref);
	const Jacobi rr = Ref(u.real(), m), ri = Ref(u.imag(), mc), spr = Spread<T>(u.real(), m, rr);
	// The complementary modulus reaches the imaginary part rounded: 1-k'^2 is known to within rounding.
	const Jacobi spi = Spread<T>(u.imag(), mc, ri);
	const ld cni = AbsC(ri.cn), dni = AbsC(ri.dn), dnr = AbsC(rr.dn);
	const ld den = cni * cni + (ld)k * k * AbsC(ri.sn * ri.sn * rr.sn * rr.sn);
	const ld shift = std::abs(u.real()) / K + std::abs(u.imag()) / Kc;
	const ld e = Eps<T>() * (16 + 8 * (std::abs(u.real()) + std::abs(u.imag())));
	const ld dr = e + 4 * (spr.sn.real() + spr.cn.real()) + 4 * shift * std::min(1.0L, 3 * Eps<T>() / std::max(1e-30L, m.kp * m.kp)) * (std::abs(u.real()) > K);
	const ld di = e + 4 * (spi.sn.real() + spi.cn.real()) + 4 * shift * std::min(1.0L, 3 * Eps<T>() / std::max(1e-30L, m.k * m.k)) * (std::abs(u.imag()) > 1.4L);
	const ld ddr = (dr + spr.dn.real()) / std::max(dnr, 1e-30L), ddi = (di + spi.dn.real()) / std::max(dni, 1e-30L);
	const ld base = 8 * (dr + di + ddr + ddi) / den;
	const auto tol = [&](const cld& r, ld s) { return base * (1 + AbsC(r)) + 4 * s; };
	const ld ts = tol(ref.sn, sp.sn.real()), tc = tol(ref.cn, sp.cn.real()), td = tol(ref.dn, sp.dn.real());
	if (!(ts < 0.05L * (1 + AbsC(ref.sn)))) {
		g.label("too close to a pole");
		g.discard();
	}
	g.nontrivial(k != 0 && k != 1 && u.real() != 0 && u.imag() != 0);
	const auto [sn, cn, dn] = EllipticSNCNDN(x, k);
	NEAR("sn", sn, ref.sn, ts, "x=", CStr(u), " k=", k);
	NEAR("cn", cn, ref.cn, tc, "x=", CStr(u), " k=", k);
	NEAR("dn", dn, ref.dn, td, "x=", CStr(u), " k=", k);
}
PROP("complex", 60000, "modulus over [0,1] concentrated at both ends, complex arguments at eighth periods, in the fundamental cell, over several cells; against theta series; points too close to a pole to say anything are discarded; non-trivial = non-degenerate modulus and argument") {
	if (g.flag()) Complex<float>(g);
	else Complex<double>(g);
}

template <class T>
void Inverse(Gen& g) {
	using C = std::complex<T>;
	T k = DrawModulus<T>(g);
	if (k > T(1) - T(1e-4)) k = T(0.9);
	const Modulus m = FromK(k);
	const int which = (int)g.draw(2);
	static const char* names[] = { "arcsn", "arccn", "arcdn" };
	const bool real = g.flag();
	g.label(names[which]);
	g.label(real ? "real" : "complex");
	g.nontrivial(k != 0);
	if (which == 2 && k < T(0.01)) k = T(0.5);
	const Modulus mm = FromK(k);
	const ld K = RefK(mm);
	if (real) {
		T x;
		if (which == 2) {
			x = T(mm.kp + (1 - mm.kp) * (ld)g.nice(0.001, 0.999));
		}
		else {
			x = T(g.nice(0, 1));
			if (g.flag()) x = -x;
		}
		g.note(TypeName<T>(), " ", names[which], " x=", x, " k=", k);
		g.labelIf(x < 0, "negative");
		const T u = which == 0 ? EllipticArcSN(x, k) : which == 1 ? EllipticArcCN(x, k) : EllipticArcDN(x, k);
		CHK(std::isfinite(u), "finite", names[which], "(", x, ") = ", u);
		const ld lim = K * (1 + 40 * Eps<T>()) + 40 * Eps<T>() / (mm.kp * mm.kp);
		CHK(which == 0 ? std::abs((ld)u) <= lim : u >= 0 && (ld)u <= (which == 1 ? 2 : 1) * lim, "principal value", names[which], "(", x, ") = ", u, " K ", (double)K);
		const Jacobi j = Ref((ld)u, mm);
		const cld back = which == 0 ? j.sn : which == 1 ? j.cn : j.dn;
		// Error of u times the derivative, plus the conditioning at the branch points.
		const ld ax = AbsL(x);
		const ld c = which == 2 ? 1 / ((ld)k * k) : 1;
		const ld tol = Eps<T>() * 64 * c * (1 + std::abs((ld)u)) + 4 * Eps<T>() / (mm.kp * mm.kp) * (which == 1 ? 1 : 0.5L);
		NEAR("round trip", back, ToC(x), tol, names[which], " of ", x, " (|x|=", (double)ax, ") is ", u);
		return;
	}
	cld w;
	if (which == 0) w = cld(g.real(-2, 2), g.real(-2, 2));
	else if (which == 1) w = cld(g.real(-2, 2), g.real(-2, 2));
	else w = cld(g.real(0.02, 2), g.real(-2, 2));
	// Off the branch cuts (real and imaginary axes beyond the branch points).
	if (std::abs(w.imag()) < 0.02L || (which != 0 && std::abs(w.real()) < 0.02L)) g.discard();
	if (g.chance(1, 5) && which == 0) w = cld(0, w.imag());
	const C x{ (T)w.real(), (T)w.imag() };
	g.note(TypeName<T>(), " ", names[which], " x=", CStr(ToC(x)), " k=", k);
	const C u = which == 0 ? EllipticArcSN(x, k) : which == 1 ? EllipticArcCN(x, k) : EllipticArcDN(x, k);
	CHK(Finite(u), "finite", names[which], " of ", CStr(ToC(x)));
	const Jacobi j = Ref(ToC(u), mm);
	const cld back = which == 0 ? j.sn : which == 1 ? j.cn : j.dn;
	const ld deriv = which == 0 ? AbsC(j.cn * j.dn) : which == 1 ? AbsC(j.sn * j.dn) : (ld)k * k * AbsC(j.sn * j.cn);
	const ld c = which == 2 ? 1 / ((ld)k * k) : 1;
	const ld cond = 1 + 1 / AbsC(1.0L - ToC(x) * ToC(x)) + 1 / AbsC(1.0L - (ld)k * k * ToC(x) * ToC(x)) + 1 / AbsC(1.0L - (ld)k * k + (ld)k * k * ToC(x) * ToC(x)) + 1 / AbsC((ld)k * k - 1.0L + ToC(x) * ToC(x));
	const ld tol = Eps<T>() * 64 * (cond + c) * (AbsC(ToC(u)) + 1) * (1 + deriv);
	if (!(tol < 0.02L)) g.discard();
	NEAR("round trip", back, ToC(x), tol, names[which], " of ", CStr(ToC(x)), " is ", CStr(ToC(u)));
}
PROP("inverse", 60000, "modulus over [0,1), real arguments over the whole real domain of each inverse, complex arguments off the branch cuts (right half plane for arcdn, whose sign is not defined); the reference function of the returned value is the argument; non-trivial = k != 0") {
	if (g.flag()) Inverse<float>(g);
	else Inverse<double>(g);
}
