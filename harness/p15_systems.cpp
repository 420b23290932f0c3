// P15: zero-pole-gain form, transfer function and biquad cascade have the same response.
#include "roots.hpp"
using namespace h;

inline Roots MakeRoots(Gen& g, size_t maxReal, size_t maxPairs) {
	Roots r;
	r.real.resize(g.draw(maxReal));
	r.pairs.resize(g.draw(maxPairs));
	for (auto& v : r.real) v = g.nice(-1.5, 1.5);
	for (auto& v : r.pairs) {
		const double mag = g.nice(0.0625, 1.5), arg = g.nice(0.0625, 3.0);
		v = cd(mag * std::cos(arg), mag * std::sin(arg));
	}
	return r;
}
template <class T, eDiscretization D>
void Case(Gen& g) {
	const bool big = g.chance(1, 4);
	Roots z = MakeRoots(g, big ? 6 : 4, big ? 6 : 3), p = MakeRoots(g, big ? 6 : 4, big ? 6 : 3);
	ZeroPoleGain<T, D> zpk;
	Fill(zpk.zeros, z);
	Fill(zpk.poles, p);
	zpk.gain = T(g.flag() ? g.nice(0.125, 4) : -g.nice(0.125, 4));
	g.note(TypeName<T>(), D == eDiscretization::DISCRETE ? " discrete" : " continuous", " gain ", zpk.gain, " zeros real ", Show(z.real), " pairs ", Show(z.pairs), " poles real ", Show(p.real), " pairs ", Show(p.pairs));
	g.label(z.count() > p.count() ? "more zeros" : z.count() < p.count() ? "more poles" : "equal counts");
	g.labelIf(z.count() + p.count() == 0, "gain only");
	g.nontrivial(z.count() >= 1 && p.count() >= 2);
	const TransferFunction<T, D> tf(zpk);
	const size_t order = std::max(z.count(), p.count());
	CHK(zpk.order() == order, "order", "zero-pole-gain order ", zpk.order(), " want ", order);
	CHK(tf.order() == order, "order", "transfer function order ", tf.order(), " want ", order);
	CHK(tf.numerator.order() == z.count() && tf.denominator.order() == p.count(), "order", "polynomial orders");
	const auto check = [&](const auto& sys, const char* what, uint64_t seed) {
		uint64_t s = seed * 77 + 3;
		for (int i = 0; i < 6; ++i) {
			cd x;
			const bool real = i >= 4;
			if (real) x = 4 * U01(s) - 2;
			else if (i < 2) x = std::polar(1.0, 3.14159 * U01(s)); // unit circle
			else x = cd(4 * U01(s) - 2, 4 * U01(s) - 2);
			const std::complex<T> xt(x);
			ld mz, mp;
			const cld nz = EvalRoots(z, ToC(xt), mz) * (ld)zpk.gain, np = EvalRoots(p, ToC(xt), mp);
			const ld e = Eps<T>() * (16 + 8 * (ld)order);
			const ld tn = e * mz * std::abs((ld)zpk.gain), tp = e * mp;
			const ld ap = AbsC(np);
			if (!(ap > 4 * tp)) {
				continue; // too close to a pole to say anything
			}
			const cld want = nz / np;
			const ld tol = (tn + AbsC(want) * tp) / (ap - tp) + (ld)std::numeric_limits<T>::min();
			if (real) NEAR("response", sys(xt.real()), want, tol, what, " at real ", xt.real());
			else NEAR("response", sys(xt), want, tol, what, " at ", CStr(ToC(xt)));
		}
	};
	const uint64_t seed = g.draw(0xffff);
	check(zpk, "zero-pole-gain", seed);
	check(tf, "transfer function", seed);
	if constexpr (D == eDiscretization::DISCRETE) {
		const CascadedBiquad<T> cas(zpk);
		CHK(cas.order() == order, "order", "cascade order ", cas.order(), " want ", order);
		check(cas, "cascade", seed);
	}
}
PROP("response", 60000, "type, discrete/continuous, real and paired zeros and poles of independent counts (0..6 each), gain; values at six points; non-trivial = at least one zero and two poles") {
	switch (g.draw(3)) {
		case 0: Case<double, eDiscretization::DISCRETE>(g); break;
		case 1: Case<float, eDiscretization::DISCRETE>(g); break;
		case 2: Case<double, eDiscretization::CONTINUOUS>(g); break;
		default: Case<float, eDiscretization::CONTINUOUS>(g); break;
	}
}
