// P05: sums, means, norms and extremes of exactly the samples of the signal.
#include "common.hpp"

#include <dspbb/Math/Statistics.hpp>
using namespace h;

// Rounding of a blocked sum of n terms, first order, generous.
template <class T>
ld SumTol(size_t n, ld sumAbs) { return Eps<T>() * (8 + (ld)n / 6) * sumAbs; }

template <class T>
struct Ref {
	cld sum{}, sq{};
	ld sumAbs = 0, sqAbs = 0;
	explicit Ref(const std::vector<T>& x) {
		for (const auto& v : x) {
			const cld c = ToC(v);
			sum += c;
			sq += c * c;
			sumAbs += AbsC(c);
			sqAbs += std::norm(c);
		}
	}
};

template <class T, class S>
void FloatChecks(Gen& g, const S& s, const std::vector<T>& x, const char* form) {
	const size_t n = x.size();
	const Ref<T> r(x);
	const ld st = SumTol<T>(n, r.sumAbs), qt = SumTol<T>(n, r.sqAbs);
	NEAR("sum", Sum(s), r.sum, st, "Sum n=", n, " ", form);
	static_assert(std::is_same_v<decltype(Sum(s)), T>);
	if (n == 0) {
		CHK(ToC(Mean(s)) == cld(0), "mean", "Mean of an empty signal is not zero");
	}
	else {
		NEAR("mean", Mean(s), r.sum / (ld)n, st / n + 2 * Eps<T>() * AbsC(r.sum) / n, "Mean n=", n, " ", form);
	}
	if constexpr (!is_cplx_v<T>) {
		NEAR("sumsquare", SumSquare(s), r.sq, qt, "SumSquare n=", n, " ", form);
		if (n == 0) {
			CHK(MeanSquare(s) == T(0), "meansquare", "MeanSquare of an empty signal is not zero");
			CHK(RootMeanSquare(s) == T(0), "rms", "RootMeanSquare of an empty signal is not zero");
		}
		else {
			const ld ms = r.sq.real() / n;
			const ld mt = qt / n + 2 * Eps<T>() * ms;
			NEAR("meansquare", MeanSquare(s), ms, mt, "MeanSquare n=", n, " ", form);
			const ld rms = std::sqrt(ms);
			NEAR("rms", RootMeanSquare(s), rms, (rms > 0 ? mt / rms : 0) + 2 * Eps<T>() * rms, "RootMeanSquare n=", n, " ", form);
		}
		const ld nm = std::sqrt(r.sq.real());
		NEAR("norm", Norm(s), nm, (nm > 0 ? qt / nm : 0) + 2 * Eps<T>() * nm, "Norm n=", n, " ", form);
		if (n > 0) {
			const T mx = *std::max_element(x.begin(), x.end());
			const T mn = *std::min_element(x.begin(), x.end());
			CHK(Max(s) == mx, "max", "Max n=", n, " ", form, " got ", Max(s), " want ", mx);
			CHK(Min(s) == mn, "min", "Min n=", n, " ", form, " got ", Min(s), " want ", mn);
		}
	}
}

template <class T, class S>
void IntChecks(Gen& g, const S& s, const std::vector<T>& x, const char* form) {
	const size_t n = x.size();
	__int128 sum = 0, sq = 0;
	for (const auto v : x) {
		sum += v;
		sq += (__int128)v * v;
	}
	static_assert(std::is_same_v<decltype(Sum(s)), T>);
	CHK((__int128)Sum(s) == sum, "sum", "Sum n=", n, " ", form, " got ", Sum(s), " want ", (int64_t)sum);
	CHK((__int128)SumSquare(s) == sq, "sumsquare", "SumSquare n=", n, " ", form, " got ", SumSquare(s), " want ", (int64_t)sq);
	CHK((__int128)Mean(s) == (n ? sum / (__int128)n : 0), "mean", "Mean n=", n, " ", form, " got ", Mean(s));
	CHK((__int128)MeanSquare(s) == (n ? sq / (__int128)n : 0), "meansquare", "MeanSquare n=", n, " ", form, " got ", MeanSquare(s));
	NEAR("norm", Norm(s), std::sqrt((ld)sq), 1e-14L * std::sqrt((ld)sq), "Norm n=", n, " ", form);
	NEAR("rms", RootMeanSquare(s), std::sqrt((ld)(n ? sq / (__int128)n : 0)), 1e-14L * std::sqrt((ld)sq), "RMS n=", n, " ", form);
	if (n > 0) {
		CHK(Max(s) == *std::max_element(x.begin(), x.end()), "max", "Max n=", n, " ", form, " got ", Max(s));
		CHK(Min(s) == *std::min_element(x.begin(), x.end()), "min", "Min n=", n, " ", form, " got ", Min(s));
	}
}

template <class T, class F>
void Forms(Gen& g, const std::vector<T>& x, F&& f) {
	switch (g.draw(3)) {
		case 0: {
			const Signal<T> s(x.begin(), x.end());
			f(s, "signal");
			break;
		}
		case 1: {
			Guarded<T> b(x, g.draw(9), 5);
			f(b.cview(), "const view");
			CHK(b.untouched(), "input-changed", "input modified");
			break;
		}
		case 2: {
			Guarded<T> b(x, g.draw(9), 5);
			f(b.view(), "view");
			CHK(b.untouched(), "input-changed", "input modified");
			break;
		}
		default: {
			Exact<T> b(x);
			f(b.template cview<FREQUENCY_DOMAIN>(), "exact heap block");
			break;
		}
	}
}

template <class T>
void FloatCase(Gen& g) {
	const size_t n = g.size(0, g.chance(1, 20) ? 20000 : 600);
	auto x = Data<T>(g, n);
	if constexpr (!is_cplx_v<T>) {
		// Sign bias so that extremes are not always positive.
		const int bias = (int)g.draw(3);
		for (auto& v : x) {
			v = bias == 1 ? -v : bias == 2 ? v - T(1000) : v;
		}
		g.label("bias " + std::to_string(bias));
	}
	g.note(TypeName<T>(), " n=", n, " ", Show(x, 6));
	g.label(TypeName<T>());
	g.label("n mod 16=" + std::to_string(n % 16));
	g.nontrivial(n >= 9);
	Forms(g, x, [&](const auto& s, const char* form) { FloatChecks<T>(g, s, x, form); });
}

template <class T>
void IntCase(Gen& g) {
	const size_t n = g.size(0, sizeof(T) == 2 ? 300 : 3000);
	uint64_t s = g.draw(0xffff) + 17;
	const int64_t mag = sizeof(T) == 2 ? 10 : sizeof(T) == 4 ? 800 : 1000000;
	std::vector<T> x(n);
	const bool neg = std::is_signed_v<T> && g.flag();
	for (auto& v : x) {
		int64_t r = int64_t(pbt::SplitMix(s) % (mag + 1));
		v = T(neg ? (pbt::SplitMix(s) % 4 == 0 ? r : -r) : r);
	}
	g.note(TypeName<T>(), " n=", n, " ", Show(x, 6));
	g.label(TypeName<T>());
	g.nontrivial(n >= 9);
	Forms(g, x, [&](const auto& v, const char* form) { IntChecks<T>(g, v, x, form); });
}

// One marked sample at one position: every sample counts exactly once, at every position of every length.
template <class T>
void PositionCase(Gen& g) {
	const size_t n = g.length(1, 200);
	const size_t pos = g.draw(n - 1);
	Guarded<T> b(std::vector<T>(n, T(1)), g.draw(9), 5);
	b[pos] = T(64);
	g.note(TypeName<T>(), " n=", n, " marked position ", pos);
	g.nontrivial(n >= 2);
	const auto s = b.cview();
	CHK(Sum(s) == T(n + 63), "sum", "Sum ", Sum(s));
	CHK(SumSquare(s) == T(n + 4095), "sumsquare", "SumSquare ", SumSquare(s));
	if (n >= 2) {
		CHK(Max(s) == T(64) && Min(s) == T(1), "extreme", "Max ", Max(s), " Min ", Min(s));
	}
	b[pos] = T(0);
	CHK(Sum(s) == T(n - 1), "sum", "Sum ", Sum(s));
	if (n >= 2) {
		CHK(Max(s) == T(1) && Min(s) == T(0), "extreme", "Max ", Max(s), " Min ", Min(s));
	}
}

PROP("floating", 40000, "type, length 0..600 (some up to 20000), data style, storage form; non-trivial = at least 9 samples") {
	WithType<float, double, cf, cd>(g, [&](auto t) { FloatCase<typename decltype(t)::type>(g); });
}
PROP("integer", 30000, "type, length, values without overflow; non-trivial = at least 9 samples") {
	WithType<int32_t, int64_t, int16_t, uint32_t>(g, [&](auto t) { IntCase<typename decltype(t)::type>(g); });
}
PROP("each-sample-once", 60000, "type, length 1..200, position of one marked sample; non-trivial = at least 2 samples") {
	WithType<float, double, int32_t, int64_t>(g, [&](auto t) { PositionCase<typename decltype(t)::type>(g); });
}

// Types the vector unit does not know, with small whole values: every result is exact.
template <class T>
void ScalarCase(Gen& g) {
	const size_t n = g.size(1, sizeof(T) == 1 ? 30 : 200);
	uint64_t s = g.draw(0xffff) + 17;
	std::vector<T> x(n);
	ld sum = 0, sq = 0;
	const bool neg = std::is_signed_v<T> && g.flag();
	for (auto& v : x) {
		const int r = int(pbt::SplitMix(s) % 3);
		v = T(neg ? r - 2 : r);
		sum += v;
		sq += (ld)v * v;
	}
	// One larger value on either side of the rest.
	const size_t pos = g.draw(n - 1);
	const int big = neg && g.flag() ? -7 : 7;
	sum += big - (ld)x[pos];
	sq += 49 - (ld)x[pos] * x[pos];
	x[pos] = T(big);
	g.note(TypeName<T>(), " n=", n, " neg=", neg, " value ", big, " at ", pos);
	g.label(TypeName<T>());
	g.nontrivial(n >= 2);
	Forms(g, x, [&](const auto& v, const char* form) {
		CHK(Max(v) == *std::max_element(x.begin(), x.end()), "max", "Max n=", n, " ", form, " got ", (double)Max(v));
		CHK(Min(v) == *std::min_element(x.begin(), x.end()), "min", "Min n=", n, " ", form, " got ", (double)Min(v));
		if (std::abs(sum) < 100) CHK(Sum(v) == T(sum), "sum", "Sum n=", n, " ", form, " got ", (double)Sum(v), " want ", (double)sum);
		if (std::is_floating_point_v<T>) {
			CHK(SumSquare(v) == T(sq), "sumsquare", "SumSquare n=", n, " ", form, " got ", (double)SumSquare(v), " want ", (double)sq);
			CHK(std::abs((ld)Mean(v) - sum / n) <= 4 * Eps<T>() * std::abs(sum / n), "mean", "Mean n=", n, " ", form, " got ", (double)Mean(v));
		}
	});
}
PROP("types-without-simd", 20000, "long double and small or unsigned integer types, length 1..200, one outlier; non-trivial = at least 2 samples") {
	WithType<long double, uint64_t, int8_t, uint8_t, uint16_t>(g, [&](auto t) { ScalarCase<typename decltype(t)::type>(g); });
}

// The extremes of values at the far ends of their type, infinities included.
template <class T>
void ExtremeCase(Gen& g) {
	using L = std::numeric_limits<T>;
	const size_t n = g.length(1, 120);
	std::vector<T> palette{ L::lowest(), L::max(), T(0), T(1), T(L::lowest() + T(1)), T(L::max() - T(1)) };
	if constexpr (L::has_infinity) {
		palette.insert(palette.end(), { L::infinity(), -L::infinity(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), T(-1), -L::infinity() });
	}
	// A few different values, one of them the base of all samples.
	const T base = palette[g.draw(palette.size() - 1)];
	const size_t kinds = g.draw(3);
	std::vector<T> few(kinds + 1, base);
	for (size_t i = 1; i <= kinds; ++i) few[i] = palette[g.draw(palette.size() - 1)];
	uint64_t s = g.draw(0xffff) + 17;
	std::vector<T> x(n);
	const bool sparse = g.flag();
	for (auto& v : x) {
		const uint64_t r = pbt::SplitMix(s);
		v = sparse && r % n ? base : few[(r >> 32) % few.size()];
	}
	g.note(TypeName<T>(), " n=", n, " ", Show(x, 6));
	g.label(TypeName<T>());
	g.nontrivial(n >= 2);
	Forms(g, x, [&](const auto& v, const char* form) {
		CHK(Max(v) == *std::max_element(x.begin(), x.end()), "max", "Max n=", n, " ", form, " got ", (double)Max(v));
		CHK(Min(v) == *std::min_element(x.begin(), x.end()), "min", "Min n=", n, " ", form, " got ", (double)Min(v));
	});
}
PROP("extreme-values", 30000, "type, length 1..120, one to four different values from the ends of the type and infinities; non-trivial = at least 2 samples") {
	WithType<float, double, int32_t, int64_t, long double, int16_t, uint32_t, uint64_t, int8_t>(g, [&](auto t) { ExtremeCase<typename decltype(t)::type>(g); });
}
