// P20: direct forms and biquad cascades compute the difference equation; streaming equals one-shot; reset forgets.
#include "roots.hpp"

#include <dspbb/Filtering/IIR.hpp>
using namespace h;

/// Difference equation sum a_j y[t-j] = sum b_i x[t-i], coefficients newest first; also returns an error bound per sample
/// for an implementation that makes relative errors of e per operation in either direct form.
struct Reference {
	std::vector<cld> y;
	std::vector<ld> bound;
};
inline ld SumAbsImpulse(const std::vector<ld>& b, const std::vector<ld>& a, size_t n) {
	std::vector<ld> w(n, 0);
	ld sum = 0;
	for (size_t t = 0; t < n; ++t) {
		ld v = t < b.size() ? b[t] : 0;
		for (size_t j = 1; j < a.size() && j <= t; ++j) v -= a[j] * w[t - j];
		w[t] = v / a[0];
		sum += std::abs(w[t]);
	}
	return sum;
}
inline Reference Recur(const std::vector<ld>& b, const std::vector<ld>& a, const std::vector<cld>& x, ld e) {
	const size_t n = x.size();
	Reference r{ std::vector<cld>(n), std::vector<ld>(n) };
	std::vector<cld> w(n);
	const ld g = n ? SumAbsImpulse({ 1 }, a, n) : 0, gh = n ? SumAbsImpulse(b, a, n) : 0;
	ld sumA = 0, sumB = 0;
	for (auto v : a) sumA += std::abs(v);
	for (auto v : b) sumB += std::abs(v);
	ld mx = 0, my = 0, mw = 0;
	for (size_t t = 0; t < n; ++t) {
		cld v = 0, u = x[t];
		for (size_t i = 0; i < b.size() && i <= t; ++i) v += b[i] * x[t - i];
		for (size_t j = 1; j < a.size() && j <= t; ++j) {
			v -= a[j] * r.y[t - j];
			u -= a[j] * w[t - j];
		}
		r.y[t] = v / a[0];
		w[t] = u / a[0];
		mx = std::max(mx, AbsC(x[t]));
		my = std::max(my, AbsC(r.y[t]));
		mw = std::max(mw, AbsC(w[t]));
		const ld ops = 4 + b.size() + a.size();
		const ld formI = g * (sumB * mx + sumA * my);
		const ld formII = gh * (mx + sumA * mw) + sumB * mw;
		r.bound[t] = e * ops * (formI + formII);
	}
	return r;
}

template <class S, class T, class U, class Sys, class State>
struct Runner {
	// One instantiation for every chunk, so that chunked and whole feeding run the very same code.
	[[gnu::noinline]] static void Run(State& st, const Sys& sys, const S* first, const S* last, T* out) { st.feed(first, last, out, sys); }
};

template <class S, class T, class U, class Sys, class State>
void Exercise(Gen& g, const char* form, const Sys& sys, const std::vector<S>& x, const Reference& ref) {
	const size_t n = x.size();
	const size_t extra = g.chance(1, 4) ? g.range(1, 4) : 0;
	const size_t order = sys.order() + extra;
	g.labelIf(extra > 0, "state larger than the system");
	const auto near = [&](const auto& got, size_t from, const char* what) {
		for (size_t t = from; t < n; ++t) NEAR("output", got[t], ref.y[t], ref.bound[t] + 1e-36L, form, ", ", what, ", sample ", t, " of ", n);
	};
	using R = Runner<S, T, U, Sys, State>;

	State whole(order);
	CHK(whole.order() >= sys.order() && whole.order() <= order + (order % 2) + (order == 0 ? 2 : 0), "order", form, " state order ", whole.order(), " requested ", order);
	Exact<S> in(x);
	std::vector<T> y(n);
	{
		Exact<T> out(std::vector<T>(n, T(99)));
		R::Run(whole, sys, in.p.get(), in.p.get() + n, out.p.get());
		for (size_t i = 0; i < n; ++i) y[i] = out.p[i];
	}
	near(y, 0, "fed whole");

	// Any partition of the same signal, through any mix of the ways to feed.
	State st;
	if (g.flag()) st = State(order);
	else {
		st.order(g.draw(order)); // set up in two steps
		st.order(order);
		st.reset();
	}
	const auto feedChunks = [&](State& st, bool exact) {
		size_t at = 0, chunks = 0;
		std::vector<T> got(n);
		while (at < n || chunks == 0) {
			const size_t len = std::min(n - at, (size_t)g.draw(g.flag() ? 3 : std::max<size_t>(1, n)));
			const int how = exact ? 0 : (int)g.draw(3);
			if (how == 0) R::Run(st, sys, in.p.get() + at, in.p.get() + at + len, got.data() + at);
			else if (how == 1)
				for (size_t i = 0; i < len; ++i) got[at + i] = st.feed(in.p[at + i], sys);
			else if (how == 2) {
				Exact<S> part(std::vector<S>(x.begin() + at, x.begin() + at + len));
				Exact<T> out(std::vector<T>(len, T(99)));
				Filter(out.view(), part.cview(), sys, st);
				for (size_t i = 0; i < len; ++i) got[at + i] = out.p[i];
			}
			else {
				if constexpr (std::is_convertible_v<T, S>) {
				const auto out = Filter(BasicSignal<S, TIME_DOMAIN>(x.begin() + at, x.begin() + at + len), sys, st);
				static_assert(std::is_same_v<std::remove_cv_t<decltype(out)>, BasicSignal<S, TIME_DOMAIN>>);
				CHK(out.size() == len, "length", "returned ", out.size());
				for (size_t i = 0; i < len; ++i) got[at + i] = T(out[i]);
				}
				else R::Run(st, sys, in.p.get() + at, in.p.get() + at + len, got.data() + at);
			}
			at += len;
			if (++chunks > 60) { // feed the rest
				R::Run(st, sys, in.p.get() + at, in.p.get() + n, got.data() + at);
				break;
			}
		}
		g.labelIf(chunks >= 3, "three or more chunks");
		return got;
	};
	const auto chunked = feedChunks(st, true);
	for (size_t i = 0; i < n; ++i) CHK(Same(chunked[i], y[i]), "chunking", form, " sample ", i, " of ", n, ": ", CStr(ToC(chunked[i])), " fed whole ", CStr(ToC(y[i])));

	// Forgetting: after reset the same state repeats itself exactly; a fresh one agrees too.
	st.reset();
	const bool viaCopy = g.flag();
	State other = st;
	State& again = viaCopy ? other : st;
	std::vector<T> rep(n);
	R::Run(again, sys, in.p.get(), in.p.get() + n, rep.data());
	for (size_t i = 0; i < n; ++i) CHK(Same(rep[i], y[i]), "reset", form, " sample ", i, " after reset: ", CStr(ToC(rep[i])), " first time ", CStr(ToC(y[i])));
	again.reset();
	if constexpr (std::is_same_v<S, T>) near(feedChunks(again, false), 0, "fed in mixed ways");

	// Aliasing output.
	if constexpr (std::is_same_v<S, T>) {
		again.reset();
		Exact<S> buf(x);
		Filter(buf.view(), buf.cview(), sys, again);
		for (size_t i = 0; i < n; ++i) NEAR("aliasing", buf.p[i], y[i], 2 * ref.bound[i] + 1e-36L, form, " in place, sample ", i);
	}
}

template <class P>
std::vector<ld> Coefs(const P& p) {
	std::vector<ld> v;
	const auto& c = p.coefficients();
	for (size_t i = c.size(); i-- > 0;) v.push_back((ld)c[i]);
	return v;
}

template <class S, class T, class U>
void AllForms(Gen& g, const DiscreteTransferFunction<U>& tf, const CascadedBiquad<U>* cascade, bool exactAgreement) {
	const size_t n = g.size(0, g.chance(1, 8) ? 300 : 60);
	const auto x = Data<S>(g, n, STYLE_SPARSE, "signal");
	std::vector<cld> xl(n);
	for (size_t i = 0; i < n; ++i) xl[i] = ToC(x[i]);
	const ld e = 2 * std::max({ Eps<S>(), Eps<T>(), Eps<U>() });
	Reference ref = Recur(Coefs(tf.numerator), Coefs(tf.denominator), xl, e);
	g.nontrivial(tf.order() >= 1 && n > tf.order());
	g.labelIf(n <= tf.order(), "signal no longer than the order");
	const int form = (int)g.draw(cascade ? 2 : 1);
	switch (form) {
		case 0: Exercise<S, T, U, DiscreteTransferFunction<U>, DirectFormI<T>>(g, "direct form I", tf, x, ref); break;
		case 1: Exercise<S, T, U, DiscreteTransferFunction<U>, DirectFormII<T>>(g, "direct form II", tf, x, ref); break;
		default: {
			Reference c{ xl, std::vector<ld>(n, 0) };
			for (const auto& s : cascade->sections) {
				const std::vector<ld> b{ (ld)s.numerator[2], (ld)s.numerator[1], (ld)s.numerator[0] }, a{ 1, (ld)s.denominator[1], (ld)s.denominator[0] };
				Reference next = Recur(b, a, c.y, e);
				const ld gain = n ? SumAbsImpulse(b, a, n) : 0;
				ld worst = 0;
				for (size_t t = 0; t < n; ++t) {
					worst = std::max(worst, c.bound[t]);
					next.bound[t] += gain * worst;
				}
				c = next;
			}
			// The cascade is the same system as the transfer function.
			if (exactAgreement)
				for (size_t t = 0; t < n; ++t) NEAR("agreement", c.y[t], ref.y[t], ref.bound[t] + c.bound[t] + 1e-36L, "cascade's coefficients against the transfer function's, sample ", t);
			Exercise<S, T, U, CascadedBiquad<U>, CascadedForm<T>>(g, "cascade", *cascade, x, c);
		}
	}
	static const char* names[] = { "direct form I", "direct form II", "cascade" };
	g.label(names[form]);
}

/// Runs f with one of the admissible (signal, state) types for system type U.
template <class U>
void AnyTypes(Gen& g, const DiscreteTransferFunction<U>& tf, const CascadedBiquad<U>* cascade, bool exact) {
	switch (g.draw(3)) {
		case 0: AllForms<U, U, U>(g, tf, cascade, exact); break;
		case 1:
			g.label("complex signal");
			AllForms<std::complex<U>, std::complex<U>, U>(g, tf, cascade, exact);
			break;
		case 2:
			g.label("real signal, complex state");
			AllForms<U, std::complex<U>, U>(g, tf, cascade, exact);
			break;
		default:
			g.label("float signal, double state");
			AllForms<float, double, U>(g, tf, cascade, exact);
			break;
	}
}

template <class U>
void Dyadic(Gen& g) {
	Roots z, p;
	const size_t maxPairs = std::is_same_v<U, float> ? 1 : 3;
	const auto fill = [&](Roots& r, double lim) {
		r.real.resize(g.draw(2));
		r.pairs.resize(g.draw(maxPairs));
		for (auto& v : r.real) v = double(int64_t(g.draw(2 * (uint64_t)(lim * 8))) - int64_t(lim * 8)) / 8;
		for (auto& v : r.pairs) v = cd(double(int64_t(g.draw(10)) - 5) / 8, double(1 + g.draw(4)) / 8);
	};
	fill(p, 0.875);
	fill(z, 1.5);
	if (g.flag()) { // the usual case: as many zeros as poles
		z.real.resize(p.real.size(), 0.25);
		z.pairs.resize(p.pairs.size(), cd(0.5, 0.5));
	}
	DiscreteZeroPoleGain<U> zpk;
	Fill(zpk.zeros, z);
	Fill(zpk.poles, p);
	zpk.gain = U(g.pick({ 1.0, -1.0, 2.0, 0.5, -0.25 }));
	g.note(TypeName<U>(), " gain ", zpk.gain, " zeros real ", Show(z.real), " pairs ", Show(z.pairs), " poles real ", Show(p.real), " pairs ", Show(p.pairs), "; ");
	g.label(z.count() == p.count() ? "equal orders" : z.count() < p.count() ? "fewer zeros" : "more zeros");
	const DiscreteTransferFunction<U> tf(zpk);
	const CascadedBiquad<U> cas(zpk);
	AnyTypes<U>(g, tf, &cas, true);
}
PROP("exact-systems", 30000, "systems whose zeros and poles are multiples of 1/8 (conversions are exact), orders 0..8, signals of 0..300 samples fed whole, in chunks, by sample, in place, after reset; non-trivial = order 1 or more and a longer signal") {
	if (g.flag()) Dyadic<float>(g);
	else Dyadic<double>(g);
}

template <class U>
void Designed(Gen& g) {
	const int family = (int)g.draw(3), kind = (int)g.draw(3);
	const size_t n = 1 + g.draw(kind >= 2 ? 3 : 7), order = kind >= 2 ? 2 * n : n;
	U f1 = U(g.real(0.1, 0.9)), f2 = U(g.real(0.1, 0.9));
	if (f1 > f2) std::swap(f1, f2);
	if (kind >= 2 && f2 - f1 < U(0.1)) g.discard();
	DiscreteZeroPoleGain<U> zpk;
	const U r = U(0.05);
	const auto lo = [&](auto band) {
		switch (family) {
			case 0: zpk = DesignFilter<U>(order, band.Butterworth.Cutoff(f1)); break;
			case 1: zpk = DesignFilter<U>(order, band.Chebyshev1.Cutoff(f1).PassbandRipple(r)); break;
			case 2: zpk = DesignFilter<U>(order, band.Chebyshev2.Cutoff(f1).StopbandRipple(r)); break;
			default: zpk = DesignFilter<U>(order, band.Elliptic.Cutoff(f1).PassbandRipple(r).StopbandRipple(r)); break;
		}
	};
	const auto two = [&](auto band) {
		switch (family) {
			case 0: zpk = DesignFilter<U>(order, band.Butterworth.Band(f1, f2)); break;
			case 1: zpk = DesignFilter<U>(order, band.Chebyshev1.Band(f1, f2).PassbandRipple(r)); break;
			case 2: zpk = DesignFilter<U>(order, band.Chebyshev2.Band(f1, f2).StopbandRipple(r)); break;
			default: zpk = DesignFilter<U>(order, band.Elliptic.Band(f1, f2).PassbandRipple(r).StopbandRipple(r)); break;
		}
	};
	switch (kind) {
		case 0: lo(Iir.Lowpass); break;
		case 1: lo(Iir.Highpass); break;
		case 2: two(Iir.Bandpass); break;
		default: two(Iir.Bandstop); break;
	}
	g.note(TypeName<U>(), " family ", family, " kind ", kind, " order ", order, " edges ", f1, " ", f2, "; ");
	const DiscreteTransferFunction<U> tf(zpk);
	const CascadedBiquad<U> cas(zpk);
	AnyTypes<U>(g, tf, &cas, false);
}
PROP("designed-systems", 12000, "Butterworth, Chebyshev and elliptic designs of order 1..8 of all band kinds; each realisation against the difference equation of its own coefficients; non-trivial = longer signal than the order") {
	if (g.flag()) Designed<float>(g);
	else Designed<double>(g);
}

template <class U>
void Direct(Gen& g) {
	// Coefficients given outright, leading denominator coefficient not one.
	const size_t na = g.draw(5), nb = g.draw(5);
	std::vector<U> a(na + 1), b(nb + 1);
	ld sum = 0;
	for (auto& v : b) v = U(g.nice(-2, 2));
	for (size_t i = 0; i < na; ++i) {
		a[i] = U(g.nice(-1, 1));
		sum += std::abs((ld)a[i]);
	}
	const U lead = U((sum + g.nice(0.125, 1)) * (g.flag() ? -1 : 1));
	a[na] = lead; // dominant: the recursion is stable
	DiscreteTransferFunction<U> tf;
	tf.numerator.resize(b.size());
	tf.denominator.resize(a.size());
	std::copy(b.begin(), b.end(), tf.numerator.coefficients().begin());
	std::copy(a.begin(), a.end(), tf.denominator.coefficients().begin());
	g.note(TypeName<U>(), " numerator ", Show(b), " denominator ", Show(a), "; ");
	g.label(na == nb ? "equal orders" : nb < na ? "shorter numerator" : "longer numerator");
	AnyTypes<U>(g, tf, nullptr, false);
}
PROP("given-coefficients", 20000, "transfer functions given by coefficients with any leading denominator coefficient, orders 0..5 independently; non-trivial = order 1 or more and a longer signal") {
	if (g.flag()) Direct<float>(g);
	else Direct<double>(g);
}
