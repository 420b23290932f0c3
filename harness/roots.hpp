// Zeros and poles with exact (long double) oracles.
#pragma once
#include "common.hpp"

#include <dspbb/LTISystems/Systems.hpp>

namespace h {

struct Roots {
	std::vector<double> real;
	std::vector<cd> pairs;
	size_t count() const { return real.size() + 2 * pairs.size(); }
};

/// Reads the roots of a library polynomial.
template <class T>
Roots Read(const FactoredPolynomial<T>& f) {
	Roots r;
	for (const auto& v : f.real_roots()) r.real.push_back((double)v);
	for (const auto& v : f.complex_pairs()) r.pairs.push_back(cd(v));
	return r;
}
/// Writes the roots into a library polynomial and rounds r to the values stored.
template <class T>
void Fill(FactoredPolynomial<T>& f, Roots& r) {
	f.resize(r.real.size(), r.pairs.size());
	for (size_t i = 0; i < r.real.size(); ++i) {
		f.real_roots()[i] = T(r.real[i]);
		r.real[i] = (double)T(r.real[i]);
	}
	for (size_t i = 0; i < r.pairs.size(); ++i) {
		f.complex_pairs()[i] = std::complex<T>(r.pairs[i]);
		r.pairs[i] = cd(f.complex_pairs()[i]);
	}
}
inline cld EvalRoots(const Roots& r, cld x, ld& mag) {
	cld v = 1;
	mag = 1;
	for (auto a : r.real) {
		v *= x - (ld)a;
		mag *= AbsC(x) + std::abs((ld)a);
	}
	for (auto a : r.pairs) {
		v *= (x - ToC(a)) * (x - std::conj(ToC(a)));
		mag *= (AbsC(x) + AbsL(a)) * (AbsC(x) + AbsL(a));
	}
	return v;
}
inline cld EvalRoots(const Roots& r, cld x) {
	ld m;
	return EvalRoots(r, x, m);
}
/// All roots, conjugates included.
inline std::vector<cld> Expand(const Roots& r) {
	std::vector<cld> v;
	for (auto a : r.real) v.push_back((ld)a);
	for (auto a : r.pairs) {
		v.push_back(ToC(a));
		v.push_back(std::conj(ToC(a)));
	}
	return v;
}

/// The first or second order all-pass behind a band transform of the half-band prototype. kind: 0 low-pass, 1 high-pass,
/// 2 band-pass, 3 band-stop; edges in radians.
struct BandMap {
	int kind;
	ld w1, w2, x, A0, A1, sgn;
	BandMap(int kind, ld w1, ld w2) : kind(kind), w1(w1), w2(w2), x((w1 - w2) / 2) {
		sgn = kind == 0 || kind == 3 ? 1 : -1;
		A0 = kind < 2 ? -std::cos(w1) / (1 + std::sin(w1)) : (1 + std::tan(x)) / (1 - std::tan(x));
		A1 = kind < 2 ? 1 : -2 * std::cos((w1 + w2) / 2) / (std::cos(x) - std::sin(x));
	}
	/// Frequency of the prototype that lands on frequency th, from the classical tan(./2) relations.
	ld Substitute(ld th) const {
		if (kind < 2) {
			const ld lp = th == PI ? PI : 2 * std::atan(std::tan(th / 2) / std::tan(w1 / 2));
			return kind == 0 ? lp : lp - PI;
		}
		const ld t = std::tan(th / 2), t1 = std::tan(w1 / 2), t2 = std::tan(w2 / 2);
		const ld bp = th == 0 ? -PI : th == PI ? PI : 2 * std::atan((t * t - t1 * t2) / ((t2 - t1) * t));
		return kind == 2 ? bp : bp + PI;
	}
	/// Rounding error (in units of machine epsilon) of the transformed factors of prototype root a at point zz, relative.
	ld FactorError(cld a, cld zz) const {
		if (kind < 2) {
			const ld M = AbsC(a) * (std::abs(A0) + 1) + 1 + std::abs(A0);
			const cld lead = A0 * a - sgn, val = lead * zz + (a - A0 * sgn);
			return M / AbsC(lead) + M * (1 + AbsC((a - A0 * sgn) / lead)) / AbsC(val);
		}
		const ld M = (AbsC(a) + 1) * (1 + std::abs(A0) + std::abs(A1));
		const cld lead = A0 * a - sgn, val = lead * zz * zz + A1 * (a - sgn) * zz + (a - A0 * sgn);
		return M / AbsC(lead) + M * M / (AbsC(lead) * AbsC(val));
	}
	/// How strongly the value of the transformed factor moves, relatively, with the prototype root.
	ld Sensitivity(cld a, cld zz) const {
		if (kind < 2) {
			const cld lead = A0 * a - sgn, val = lead * zz + (a - A0 * sgn);
			return AbsC(A0 * zz + 1.0L) / AbsC(val) + std::abs(A0) / AbsC(lead);
		}
		const cld lead = A0 * a - sgn, val = lead * zz * zz + A1 * (a - sgn) * zz + (a - A0 * sgn);
		return AbsC(A0 * zz * zz + A1 * zz + 1.0L) / AbsC(val) + std::abs(A0) / AbsC(lead);
	}
};

} // namespace h
