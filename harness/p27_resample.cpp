// P27: arbitrary-ratio resampling.
#include "common.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <numeric>
using namespace h;
using Rat = Rational<int64_t>;

/// An exact fraction with its own arithmetic (not the library's).
struct Frac {
	__int128 n, d;
	Frac(__int128 num, __int128 den = 1) : n(num), d(den) {
		__int128 a = n < 0 ? -n : n, b = d;
		while (b) { const __int128 t = a % b; a = b; b = t; }
		if (a > 1) n /= a, d /= a;
	}
	friend Frac operator+(Frac a, Frac b) { return { a.n * b.d + b.n * a.d, a.d * b.d }; }
	friend Frac operator-(Frac a, Frac b) { return { a.n * b.d - b.n * a.d, a.d * b.d }; }
	friend Frac operator*(Frac a, Frac b) { return { a.n * b.n, a.d * b.d }; }
	friend Frac operator/(Frac a, Frac b) { return { a.n * b.d, a.d * b.n }; }
	bool operator==(const Frac& o) const { return n == o.n && d == o.d; }
	bool operator<(const Frac& o) const { return n * o.d < o.n * d; }
	long floor() const { return (long)(n >= 0 ? n / d : -((-n + d - 1) / d)); }
	ld value() const { return (ld)n / (ld)d; }
	std::string str() const { return std::to_string((long)n) + "/" + std::to_string((long)d); }
};
Frac F(const Rat& r) { return { r.Numerator(), r.Denominator() }; }

template <class T, class P>
struct Setup {
	std::vector<T> x;
	std::vector<P> f;
	size_t phases;
	Rat rates;
	std::vector<cld> y; // the interpolated signal
	std::vector<ld> mag;

	Setup(Gen& g) : rates(1) {
		const size_t n = g.length(1, g.chance(1, 4) ? 60 : 14, 40), taps = g.length(1, g.chance(1, 4) ? 100 : 24, 8);
		phases = g.chance(1, 5) ? g.length(1, 40, 5) : g.size(1, 8);
		x = Data<T>(g, n, STYLE_SPARSE, "x");
		f = Data<P>(g, taps, STYLE_SPARSE, "taps");
		int64_t a = 1, b = 1;
		switch (g.draw(3)) {
			case 0: a = 1 + (int64_t)g.draw(7), b = 1 + (int64_t)g.draw(7); break;
			case 1: a = 1 + (int64_t)g.draw(40), b = 1 + (int64_t)g.draw(40); break;
			case 2: a = g.pick({ 44100, 48000, 8000, 16000, 96000, 11025 }), b = g.pick({ 48000, 44100, 16000, 22050, 32000, 192000 }); break;
			default: a = 1000 + (int64_t)g.draw(2000), b = 1000 + (int64_t)g.draw(2000); break;
		}
		rates = Rat{ a, b };
		g.note("phases ", phases, " rates ", a, ":", b, " samples ", n, " taps ", taps);
		y.assign(n * phases + taps + 2 * phases + 2, cld(0));
		mag.assign(y.size(), 0);
		for (size_t i = 0; i < n; ++i)
			for (size_t k = 0; k < taps; ++k) {
				y[i * phases + k] += ToC(x[i]) * ToC(f[k]) * (ld)phases;
				mag[i * phases + k] += AbsL(x[i]) * AbsL(f[k]) * (ld)phases;
			}
		g.labelIf(phases > taps, "empty phases");
		g.labelIf(taps % phases != 0, "uneven phases");
		g.label(a > b ? "decimating" : a < b ? "interpolating" : "unit rate");
	}
	Frac ratio() const { return F(rates); }
	/// Full length in output samples, as an exact fraction.
	Frac full() const { return Frac(x.size() * phases + f.size() - 1) / ratio() / Frac(phases); }
	Frac central() const { return Frac(std::max(x.size() * phases, f.size()) - std::min(x.size() * phases, f.size()) + 1) / ratio() / Frac(phases); }
	/// Value at an output index.
	std::pair<cld, ld> at(Frac out) const {
		const Frac t = out * ratio() * Frac(phases);
		const long k = t.floor();
		const ld w = (t - Frac(k)).value();
		if (k < 0) return { cld(0), 0 };
		const auto get = [&](size_t i) { return i < y.size() ? y[i] : cld(0); };
		const auto getM = [&](size_t i) { return i < mag.size() ? mag[i] : 0; };
		return { get(k) * (1 - w) + get(k + 1) * w, getM(k) + getM(k + 1) };
	}
	template <class R>
	ld tol(ld m) const { return m * Eps<R>() * (ld)(12 + f.size() / phases) + 1e-36L; }
};

/// How many output samples fit from a start.
size_t Room(Frac start, Frac length) {
	const long r = (length - start).floor();
	return r < 0 ? 0 : (size_t)r;
}

template <class T, class P>
void Whole(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<P>());
	Setup<T, P> s(g);
	const Frac full = s.full();
	CHK(F(ResampleLength(s.x.size(), s.f.size(), s.phases, s.rates, CONV_FULL)) == full, "full length", "want ", full.str());
	CHK(F(ResampleLength(s.x.size(), s.f.size(), s.phases, s.rates, CONV_CENTRAL)) == s.central(), "central length", "want ", s.central().str());
	CHK(F(ResampleDelay(s.f.size(), s.phases, s.rates)) == Frac(s.f.size() - 1, 2 * s.phases) / s.ratio(), "delay", "");
	NEAR("cutoff", ResampleFilterCutoff(s.rates, s.phases), std::min(1.0L, 1 / s.ratio().value()) / s.phases, 4e-16L);

	const auto polyphase = PolyphaseDecompose(Sig(s.f), s.phases);
	Frac start = 0;
	Rat startRat{ 0, 1 };
	size_t len = 0;
	std::vector<R> got;
	ResampleSuspensionPoint stop{ 0, { 0, 1 } };
	const int form = (int)g.draw(4);
	const auto pickStart = [&] {
		const int64_t den = g.flag() ? 1 : 1 + (int64_t)g.draw(12);
		const long limit = (full * Frac(den)).floor();
		const int64_t num = g.chance(1, 3) ? 0 : (int64_t)g.draw((uint64_t)std::min(limit, 100000l));
		startRat = Rat{ num, den };
		start = Frac(num, den);
		const size_t room = std::min<size_t>(Room(start, full), 300);
		len = g.flag() ? room : g.draw(room);
		g.note("start ", start.str(), " length ", len);
	};
	switch (form) {
		case 0:
			pickStart();
			got = Vec(Resample(Sig(s.x), polyphase, s.rates, startRat, len));
			break;
		case 1: {
			pickStart();
			BasicSignal<R, TIME_DOMAIN> out(len, R(66));
			stop = Resample(out, Sig(s.x), polyphase, s.rates, startRat);
			got = Vec(out);
			break;
		}
		case 2: {
			pickStart();
			Guarded<R> out(len, g.draw(3), 5);
			Exact<T> in(s.x);
			auto v = out.view();
			stop = Resample(v, in.cview(), polyphase, s.rates, startRat);
			CHK(out.padIntact(), "stray-write", "");
			got = out.vec();
			break;
		}
		case 3:
			len = (size_t)full.floor();
			if (len > 3000) g.discard();
			g.note("full");
			got = Vec(Resample(Sig(s.x), polyphase, s.rates, CONV_FULL));
			break;
		default:
			len = (size_t)s.central().floor();
			if (len > 3000) g.discard();
			g.note("central");
			start = Frac(std::min(s.f.size(), s.x.size() * s.phases) - 1, s.phases) / s.ratio();
			got = Vec(Resample(Sig(s.x), polyphase, s.rates, CONV_CENTRAL));
			break;
	}
	g.nontrivial(s.x.size() >= 2 && len >= 2 && s.f.size() >= 2);
	CHK(got.size() == len, "size", got.size(), " instead of ", len);
	for (size_t i = 0; i < len; ++i) {
		const auto [want, mag] = s.at(start + Frac(i));
		NEAR("resampled", got[i], want, s.template tol<R>(mag), "form ", form, " output ", i);
	}
	if (form == 1 || form == 2) {
		// Same instant on the input time line.
		const Frac next = start + Frac(len);
		CHK(Frac(stop.firstInputSample) / s.ratio() + F(stop.startPoint) == next, "suspension point", "input ", stop.firstInputSample, " start ", F(stop.startPoint).str(), " is not output ", next.str());
		CHK(F(stop.startPoint) * s.ratio() < Frac(s.f.size(), s.phases) + Frac(2), "suspension point", "keeps input that is no longer needed");
		if (stop.firstInputSample < s.x.size()) {
			const std::vector<T> tail(s.x.begin() + stop.firstInputSample, s.x.end());
			const size_t rest = std::min<size_t>(Room(next, full), 200);
			const auto cont = Resample(Sig(tail), polyphase, s.rates, stop.startPoint, rest);
			for (size_t i = 0; i < rest; ++i) {
				const auto [want, mag] = s.at(next + Frac(i));
				NEAR("resumed", cont[i], want, s.template tol<R>(mag), "output ", i, " after resuming");
			}
		}
	}
}
PROP("resample", 40000, "1..60 samples, 1..100 taps, 1..40 phases, rate ratios 1:1000..1000:1 and audio rates, rational start points, any admissible length, five call forms; lengths and delay exact, every output against exact-time interpolation, continuation from the suspension point; non-trivial = 2 or more samples, taps and outputs") {
	switch (g.draw(3)) {
		case 0: Whole<double, double>(g); break;
		case 1: Whole<float, float>(g); break;
		case 2: Whole<cf, float>(g); break;
		default: Whole<cd, double>(g); break;
	}
}

/// Resampling a stream in pieces, dropping input as the suspension points allow.
template <class T>
void Stream(Gen& g) {
	Setup<T, T> s(g);
	const auto polyphase = PolyphaseDecompose(Sig(s.f), s.phases);
	const Frac full = s.full();
	const size_t total = (size_t)full.floor();
	if (total > 2000) g.discard();
	std::vector<T> buffer;
	size_t fed = 0, produced = 0, pieces = 0;
	Rat start{ 0, 1 };
	while (produced < total) {
		const size_t chunk = std::min<size_t>(1 + g.draw(12), s.x.size() - fed);
		buffer.insert(buffer.end(), s.x.begin() + fed, s.x.begin() + fed + chunk);
		fed += chunk;
		// Outputs whose both neighbours are settled: time*phases + 1 <= fed*phases - 1.
		size_t avail = total - produced;
		if (fed < s.x.size()) {
			const Frac last = (Frac(fed * s.phases) - Frac(2)) / (s.ratio() * Frac(s.phases));
			const long count = last.n < 0 ? 0 : last.floor() + 1 - (long)produced;
			const Frac bufferFull = Frac(buffer.size() * s.phases + s.f.size() - 1) / s.ratio() / Frac(s.phases);
			avail = std::min<size_t>({ avail, count < 0 ? 0 : (size_t)count, Room(F(start), bufferFull) });
		}
		const size_t len = g.flag() ? avail : g.draw(avail);
		g.note("+", chunk, "/", len);
		BasicSignal<T, TIME_DOMAIN> out(len, T(66));
		const auto stop = Resample(out, Sig(buffer), polyphase, s.rates, start);
		for (size_t i = 0; i < len; ++i) {
			const auto [want, mag] = s.at(Frac(produced + i));
			NEAR("streamed", out[i], want, s.template tol<T>(mag), "output ", produced + i, " in piece ", pieces);
		}
		produced += len;
		if (stop.firstInputSample >= buffer.size() && fed == s.x.size()) break;
		if (stop.firstInputSample > buffer.size()) break; // the rate skips input that has not arrived
		buffer.erase(buffer.begin(), buffer.begin() + stop.firstInputSample);
		start = stop.startPoint;
		if (++pieces > 400) break;
	}
	g.nontrivial(pieces >= 3);
}
PROP("stream", 10000, "a stream of up to 60 samples fed in pieces of 1..12, any admissible number of outputs each time, input dropped up to the suspension point; every output against the whole result; non-trivial = 3 pieces or more") {
	if (g.flag()) Stream<float>(g);
	else Stream<double>(g);
}
