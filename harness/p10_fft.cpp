// P10: the FFT is the discrete Fourier transform and inverts exactly.
#include "common.hpp"

#include <dspbb/Math/FFT.hpp>
using namespace h;

struct Twiddles {
	size_t n;
	std::vector<cld> w;
	explicit Twiddles(size_t n) : n(n), w(n) {
		for (size_t i = 0; i < n; ++i) {
			const ld a = -2 * PI * (ld)i / (ld)n;
			w[i] = { std::cos(a), std::sin(a) };
		}
	}
};
template <class T>
cld Dft(const std::vector<T>& x, size_t k, const Twiddles& t) {
	cld s = 0;
	size_t p = 0;
	for (size_t i = 0; i < x.size(); ++i) {
		s += ToC(x[i]) * t.w[p];
		p += k;
		if (p >= t.n) p -= t.n;
	}
	return s;
}
template <class T>
ld Norm2(const std::vector<T>& v) {
	ld s = 0;
	for (const auto& x : v) s += std::norm(ToC(x));
	return std::sqrt(s);
}

inline size_t Length(Gen& g) {
	static const size_t primes[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 53, 61, 67, 79, 97, 101, 127, 131, 151, 199, 211, 257, 307, 401, 499 };
	switch (g.draw(5)) {
		case 0: return g.range<size_t>(1, 20);
		case 1: return g.range<size_t>(1, 260);
		case 2: return primes[g.draw(std::size(primes) - 1)];
		case 3: return size_t(1) << g.draw(10);
		case 4: return primes[g.draw(9)] * primes[g.draw(9)];
		default:
			if (g.chance(1, 12)) return (size_t(1) << g.range<size_t>(12, 16)) + g.draw(1) * g.draw(300);
			return g.chance(1, 4) ? g.range<size_t>(1000, 6000) : g.range<size_t>(1, 700);
	}
}

// All bins when short, a random selection (always with DC, first, last, middle) when long.
inline std::vector<size_t> Bins(Gen& g, size_t n, size_t count) {
	std::vector<size_t> b;
	if (n <= 128) {
		for (size_t i = 0; i < count; ++i) b.push_back(i);
		return b;
	}
	for (size_t i : { size_t(0), size_t(1), n / 2 - 1, n / 2, n / 2 + 1, count - 1 }) if (i < count) b.push_back(i);
	uint64_t s = g.draw(0xffff);
	for (int i = 0; i < 24; ++i) b.push_back(pbt::SplitMix(s) % count);
	return b;
}

template <class T, class S>
void CheckBins(Gen& g, const S& spec, const std::vector<T>& x, const Twiddles& t, const std::vector<size_t>& bins, const char* what) {
	const ld tol = Eps<T>() * 4 * (3 + std::log2((ld)x.size() + 1)) * Norm2(x) * std::sqrt((ld)x.size());
	for (const size_t k : bins) {
		NEAR("dft", spec[k], Dft(x, k, t), tol, what, " bin ", k, " of ", x.size());
	}
}
template <class T, class S>
void CheckBack(Gen& g, const S& r, const std::vector<T>& x, const char* what) {
	CHK(r.size() == x.size(), "inverse-size", what, " size ", r.size(), " want ", x.size());
	const ld tol = Eps<T>() * 8 * (3 + std::log2((ld)x.size() + 1)) * Norm2(x);
	for (size_t i = 0; i < x.size(); ++i) {
		NEAR("inverse", r[i], x[i], tol, what, " sample ", i, " of ", x.size());
	}
}

template <class T>
void RealCase(Gen& g) {
	using C = std::complex<T>;
	const size_t n = Length(g);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	g.note("n=", n);
	g.label(TypeName<T>());
	g.label(n % 2 ? "odd" : "even");
	g.nontrivial(n >= 3);
	const Twiddles t(n);
	const auto halfBins = Bins(g, n, n / 2 + 1);
	const auto fullBins = Bins(g, n, n);
	const Signal<T> sig(x.begin(), x.end());
	Guarded<T> gx(x, g.draw(7), 3);
	const bool views = g.flag();
	g.label(views ? "views" : "signals");
	const auto half = views ? Fft(gx.cview(), FFT_HALF) : Fft(sig, FFT_HALF);
	const auto full = views ? Fft(gx.cview(), FFT_FULL) : Fft(sig, FFT_FULL);
	static_assert(std::is_same_v<std::remove_cvref_t<decltype(half)>, Spectrum<C>>);
	CHK(half.size() == n / 2 + 1, "size", "half spectrum of ", n, " has ", half.size(), " bins");
	CHK(full.size() == n, "size", "full spectrum of ", n, " has ", full.size(), " bins");
	CheckBins(g, half, x, t, halfBins, "half");
	CheckBins(g, full, x, t, fullBins, "full");
	// Output parameter forms give the same samples.
	{
		Guarded<C> oh(n / 2 + 1, g.draw(5), 21), of(n, g.draw(5), 22);
		auto vh = oh.template view<FREQUENCY_DOMAIN>();
		auto vf = of.template view<FREQUENCY_DOMAIN>();
		Fft(vh, gx.cview());
		Fft(vf, gx.cview());
		for (size_t i = 0; i < half.size(); ++i) CHK(Same(oh[i], half[i]), "forms", "half output form differs at ", i);
		for (size_t i = 0; i < full.size(); ++i) CHK(Same(of[i], full[i]), "forms", "full output form differs at ", i);
		CHK(oh.padIntact() && of.padIntact() && gx.untouched(), "stray-write", "write outside the output");
	}
	// Conjugate symmetry.
	for (size_t i = 1; i < n; ++i) CHK(full[n - i] == std::conj(full[i]), "symmetry", "bin ", n - i, " is not the conjugate of bin ", i);
	// Inverses.
	CheckBack(g, Ifft(half, FFT_HALF, n % 2 == 0), x, "inverse of half");
	CheckBack(g, Ifft(full, FFT_FULL), x, "inverse of full");
	{
		Guarded<T> o1(n, g.draw(7), 31), o2(n, g.draw(7), 32);
		auto v1 = o1.view();
		auto v2 = o2.view();
		Ifft(v1, half);
		Ifft(v2, AsConstView(full));
		CheckBack(g, o1, x, "inverse of half into output");
		CheckBack(g, o2, x, "inverse of full into output");
		CHK(o1.padIntact() && o2.padIntact(), "stray-write", "write outside the output");
		const auto c = Ifft(full); // complex inverse of a real signal's spectrum
		CheckBack(g, c, x, "complex inverse of full");
	}
	// Parseval.
	ld e = 0;
	for (size_t i = 0; i < n; ++i) e += std::norm(ToC(full[i]));
	const ld nx = Norm2(x);
	NEAR("parseval", e / n, nx * nx, Eps<T>() * 16 * (3 + std::log2((ld)n + 1)) * nx * nx, "Parseval n=", n);
}

template <class R>
void ComplexCase(Gen& g) {
	using T = std::complex<R>;
	const size_t n = Length(g);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	g.note("n=", n);
	g.label(TypeName<T>());
	g.label(n % 2 ? "odd" : "even");
	g.nontrivial(n >= 3);
	const Twiddles t(n);
	const Signal<T> sig(x.begin(), x.end());
	Guarded<T> gx(x, g.draw(7), 3);
	const auto full = g.flag() ? Fft(gx.cview()) : Fft(sig);
	CHK(full.size() == n, "size", "spectrum of ", n, " has ", full.size(), " bins");
	CheckBins(g, full, x, t, Bins(g, n, n), "complex");
	{
		Guarded<T> of(n, g.draw(5), 22);
		auto vf = of.template view<FREQUENCY_DOMAIN>();
		Fft(vf, sig);
		for (size_t i = 0; i < n; ++i) CHK(Same(of[i], full[i]), "forms", "output form differs at ", i);
		CHK(of.padIntact(), "stray-write", "write outside the output");
	}
	CheckBack(g, Ifft(full), x, "inverse");
	{
		Guarded<T> o(n, g.draw(7), 31);
		auto v = o.view();
		Ifft(v, full);
		CheckBack(g, o, x, "inverse into output");
		CHK(o.padIntact(), "stray-write", "write outside the output");
	}
	ld e = 0;
	for (size_t i = 0; i < n; ++i) e += std::norm(ToC(full[i]));
	const ld nx = Norm2(x);
	NEAR("parseval", e / n, nx * nx, Eps<T>() * 16 * (3 + std::log2((ld)n + 1)) * nx * nx, "Parseval n=", n);
	// Linearity with a second signal and a scalar.
	const auto y = Data<T>(g, n, STYLE_UNIFORM);
	const T c = T(R(g.nice(-2, 2)), R(g.nice(-2, 2)));
	Signal<T> z(n);
	for (size_t i = 0; i < n; ++i) z[i] = x[i] + c * y[i];
	const auto fz = Fft(z);
	const auto fy = Fft(Sig<T, TIME_DOMAIN>(y));
	const ld tol = Eps<T>() * 16 * (3 + std::log2((ld)n + 1)) * (Norm2(x) + AbsL(c) * Norm2(y)) * std::sqrt((ld)n);
	for (size_t i = 0; i < n; ++i) NEAR("linearity", fz[i], ToC(full[i]) + ToC(c) * ToC(fy[i]), tol, "bin ", i, " of ", n);
}

PROP("real", 6000, "float or double, length 1..700 (some to 6000; primes, powers of two, products of primes), data; non-trivial = length at least 3") {
	if (g.flag()) RealCase<float>(g);
	else RealCase<double>(g);
}
PROP("complex", 6000, "as real, complex samples; non-trivial = length at least 3") {
	if (g.flag()) ComplexCase<float>(g);
	else ComplexCase<double>(g);
}
