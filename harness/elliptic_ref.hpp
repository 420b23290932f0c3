// Long double references for elliptic integrals and Jacobi functions.
#pragma once
#include "common.hpp"

namespace h {

// ------------------------------------------------------------------------------------------------------------
// Long double reference.
// ------------------------------------------------------------------------------------------------------------
inline ld Agm(ld a, ld b) {
	for (int i = 0; i < 60 && std::abs(a - b) > 1e-19L * a; ++i) {
		const ld m = (a + b) / 2;
		b = std::sqrt(a * b);
		a = m;
	}
	return (a + b) / 2;
}
struct Modulus {
	ld k, kp; // kept as a pair: neither loses digits near 0 or 1
};
inline Modulus FromK(ld k) { return { k, std::sqrt((1 - k) * (1 + k)) }; }
inline ld RefK(const Modulus& m) { return PI / 2 / Agm(1, m.kp); }

struct Jacobi {
	cld sn, cn, dn;
};
/// Theta functions with nome q <= exp(-pi): every series converges in a few terms without cancellation.
inline Jacobi Theta(cld u, const Modulus& m, ld K, ld q) {
	const cld zeta = PI * u / (2 * K);
	cld t1 = 0, t2 = 0, t3 = 1, t4 = 1;
	ld t20 = 0, t30 = 1, t40 = 1;
	for (int n = 0; n < 12; ++n) {
		const ld qa = std::pow(q, (n + 0.5L) * (n + 0.5L));
		const ld s = n % 2 ? -1 : 1;
		t1 += 2 * s * qa * std::sin((2.0L * n + 1) * zeta);
		t2 += 2 * qa * std::cos((2.0L * n + 1) * zeta);
		t20 += 2 * qa;
		if (n > 0) {
			const ld qb = std::pow(q, (ld)n * n);
			t3 += 2 * qb * std::cos(2.0L * n * zeta);
			t4 += 2 * s * qb * std::cos(2.0L * n * zeta);
			t30 += 2 * qb;
			t40 += 2 * s * qb;
		}
	}
	return { t30 / t20 * t1 / t4, t40 / t20 * t2 / t4, t40 / t30 * t3 / t4 };
}
inline Jacobi Ref(cld u, const Modulus& m) {
	if (m.k == 0) return { std::sin(u), std::cos(u), 1 };
	if (m.kp == 0) return { std::tanh(u), 1.0L / std::cosh(u), 1.0L / std::cosh(u) };
	const Modulus mc{ m.kp, m.k };
	const ld K = RefK(m), Kc = RefK(mc);
	// Reduce to the fundamental cell.
	ld sgnSn = 1, sgnCn = 1, sgnDn = 1;
	const ld nr = std::round(u.real() / (2 * K));
	u -= nr * 2 * K;
	if (std::fmod(std::abs(nr), 2.0L) == 1) sgnSn = -sgnSn, sgnCn = -sgnCn;
	const ld ni = std::round(u.imag() / (2 * Kc));
	u -= cld(0, ni * 2 * Kc);
	if (std::fmod(std::abs(ni), 2.0L) == 1) sgnCn = -sgnCn, sgnDn = -sgnDn;
	Jacobi j;
	if (m.k <= m.kp) {
		const ld q = std::exp(-PI * Kc / K);
		if (q < 1e-300L) { // modulus indistinguishable from zero
			j = { std::sin(u), std::cos(u), 1 };
		}
		else j = Theta(u, m, K, q);
	}
	else {
		const ld q = std::exp(-PI * K / Kc);
		const Jacobi c = q < 1e-300L ? Jacobi{ std::sin(cld(0, 1) * u), std::cos(cld(0, 1) * u), 1 } : Theta(cld(0, 1) * u, mc, Kc, q);
		j = { cld(0, -1) * c.sn / c.cn, 1.0L / c.cn, c.dn / c.cn };
	}
	return { j.sn * sgnSn, j.cn * sgnCn, j.dn * sgnDn };
}
inline cld RefRF(cld x, cld y, cld z) {
	for (int i = 0; i < 45; ++i) {
		const cld a = std::sqrt(x), b = std::sqrt(y), c = std::sqrt(z), l = a * b + a * c + b * c;
		x = (x + l) / 4.0L;
		y = (y + l) / 4.0L;
		z = (z + l) / 4.0L;
	}
	return 1.0L / std::sqrt((x + y + z) / 3.0L);
}

} // namespace h
