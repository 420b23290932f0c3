// P26: decimate, expand, interpolate.
#include "common.hpp"
#include <dspbb/Filtering/Resample.hpp>
using namespace h;

template <class T>
void DecimateExpand(Gen& g) {
	const size_t n = g.length(0, g.chance(1, 4) ? 300 : 30), rate = g.size(1, 20);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	g.note("rate ", rate);
	g.nontrivial(n >= 2 && rate >= 2);
	g.labelIf(n % rate != 0, "length not a multiple of the rate");
	const bool views = g.flag();
	Guarded<T> in(x, g.draw(3), 3);

	const size_t dn = (n + rate - 1) / rate;
	std::vector<T> dec, exp, round;
	if (views) {
		Guarded<T> out(dn, g.draw(3), 7), big(n * rate, g.draw(3), 8);
		auto o = out.view();
		Decimate(o, in.cview(), rate);
		auto b = big.view();
		Expand(b, in.cview(), rate);
		CHK(out.padIntact() && big.padIntact(), "stray-write", "");
		CHK(in.untouched(), "input-changed", "");
		dec = out.vec();
		exp = big.vec();
		round = Vec(Decimate(big.cview(), rate));
	}
	else {
		dec = Vec(Decimate(Sig(x), rate));
		const auto e = Expand(Sig(x), rate);
		exp = Vec(e);
		round = Vec(Decimate(e, rate));
	}
	CHK(dec.size() == dn, "decimate size", dec.size());
	for (size_t i = 0; i < dn; ++i) CHK(dec[i] == x[i * rate], "decimate", "sample ", i);
	CHK(exp.size() == n * rate, "expand size", exp.size());
	for (size_t i = 0; i < exp.size(); ++i) CHK(exp[i] == (i % rate ? T(0) : x[i / rate]), "expand", "sample ", i);
	CHK(round == x, "decimate of expand", "differs from the signal");
}
PROP("decimate-expand", 30000, "signals 0..300, rates 1..20, real/complex/integer, views and signals; every sample and the round trip; non-trivial = 2 samples and rate 2 or more") {
	WithType<double, float, cf, cd, int>(g, [&](auto t) { DecimateExpand<typename decltype(t)::type>(g); });
}

/// The expanded signal convolved with rate times the prototype, with the magnitude sum for tolerances.
template <class T, class P>
std::pair<std::vector<cld>, std::vector<ld>> Reference(const std::vector<T>& x, const std::vector<P>& f, size_t rate) {
	const size_t full = x.size() * rate + f.size() - 1;
	std::vector<cld> y(full, cld(0));
	std::vector<ld> mag(full, 0);
	for (size_t i = 0; i < x.size(); ++i)
		for (size_t k = 0; k < f.size(); ++k) {
			y[i * rate + k] += ToC(x[i]) * ToC(f[k]) * (ld)rate;
			mag[i * rate + k] += AbsL(x[i]) * AbsL(f[k]) * (ld)rate;
		}
	return { y, mag };
}

template <class T, class P>
void Interpol(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<P>());
	const size_t n = g.length(1, g.chance(1, 4) ? 80 : 16), rate = g.chance(1, 5) ? g.size(1, 40) : g.size(1, 8), taps = g.length(1, g.chance(1, 4) ? 160 : 24, 6);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	const auto f = Data<P>(g, taps, STYLE_SPARSE, "taps");
	const auto [want, mag] = Reference(x, f, rate);
	const size_t full = want.size();
	CHK(InterpolLength(n, taps, rate, CONV_FULL) == full, "full length", InterpolLength(n, taps, rate, CONV_FULL));
	const size_t central = std::max(n * rate, taps) - std::min(n * rate, taps) + 1;
	CHK(InterpolLength(n, taps, rate, CONV_CENTRAL) == central, "central length", InterpolLength(n, taps, rate, CONV_CENTRAL));
	NEAR("cutoff", InterpolFilterCutoff(rate), 1.0L / rate, 1e-15L);

	const auto polyphase = PolyphaseDecompose(Sig(f), rate);
	const size_t offset = g.chance(1, 3) ? 0 : g.draw(full - 1), len = g.chance(1, 3) ? full - offset : g.draw(full - offset);
	g.note("rate ", rate, " samples ", n, " taps ", taps, " offset ", offset, " length ", len);
	g.labelIf(rate > taps, "empty phases");
	g.labelIf(taps % rate != 0, "uneven phases");
	g.nontrivial(n >= 2 && rate >= 2 && taps >= 2 && len >= 2);
	const auto tol = [&](size_t i) { return mag[i] * Eps<R>() * (ld)(8 + taps / rate) + 1e-36L; };

	const int form = (int)g.draw(2);
	InterpolSuspensionPoint stop{};
	std::vector<R> got;
	if (form == 0) {
		got = Vec(Interpolate(Sig(x), polyphase, offset, len));
	}
	else if (form == 1) {
		BasicSignal<R, TIME_DOMAIN> out(len, R(77));
		stop = Interpolate(out, Sig(x), polyphase, offset);
		got = Vec(out);
	}
	else {
		Guarded<R> out(len, g.draw(3), 5);
		Exact<T> in(x);
		auto v = out.view();
		stop = Interpolate(v, in.cview(), polyphase, offset);
		CHK(out.padIntact(), "stray-write", "");
		got = out.vec();
	}
	CHK(got.size() == len, "size", got.size());
	for (size_t i = 0; i < len; ++i) NEAR("interpolated", got[i], want[offset + i], tol(offset + i), "form ", form, " sample ", offset + i);

	if (form != 0) {
		CHK(stop.firstInputSample * rate + stop.startPoint == offset + len, "suspension point", "input ", stop.firstInputSample, " start ", stop.startPoint, " do not continue at ", offset + len);
		CHK(stop.startPoint < taps + rate, "suspension point", "keeps input that is no longer needed: start ", stop.startPoint);
		const size_t rest = full - offset - len;
		if (stop.firstInputSample < n) {
			const std::vector<T> tail(x.begin() + stop.firstInputSample, x.end());
			const auto cont = Interpolate(Sig(tail), polyphase, stop.startPoint, rest);
			for (size_t i = 0; i < rest; ++i) NEAR("resumed", cont[i], want[offset + len + i], tol(offset + len + i), "sample ", offset + len + i, " after stopping at ", offset + len);
		}
	}
}
PROP("interpolate", 30000, "1..80 samples, rates 1..40, 1..160 taps (also fewer taps than phases), offset and length anywhere in the full result, three output forms holding junk; every sample against expand-convolve-scale, and the continuation from the suspension point; non-trivial = 2 or more samples, taps, phases, outputs") {
	switch (g.draw(4)) {
		case 0: Interpol<double, double>(g); break;
		case 1: Interpol<float, float>(g); break;
		case 2: Interpol<cf, float>(g); break;
		case 3: Interpol<cd, double>(g); break;
		default: Interpol<float, double>(g); break;
	}
}

/// A stream interpolated piece by piece, keeping only the input the suspension point asks for.
template <class T>
void Stream(Gen& g) {
	const size_t n = g.length(1, 60), rate = g.size(1, 9), taps = g.size(1, 40);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "x");
	const auto f = Data<T>(g, taps, STYLE_SPARSE, "taps");
	const auto [want, mag] = Reference(x, f, rate);
	const auto polyphase = PolyphaseDecompose(Sig(f), rate);
	g.note("rate ", rate, " samples ", n, " taps ", taps);
	std::vector<T> buffer;
	size_t fed = 0, start = 0, produced = 0, pieces = 0;
	while (produced < want.size()) {
		const size_t chunk = std::min<size_t>(1 + g.draw(12), n - fed);
		buffer.insert(buffer.end(), x.begin() + fed, x.begin() + fed + chunk);
		fed += chunk;
		// Only outputs that no further input can influence, unless the stream has ended.
		const size_t avail = fed < n ? fed * rate - produced : want.size() - produced;
		const size_t len = g.flag() ? avail : g.draw(avail);
		BasicSignal<T, TIME_DOMAIN> out(len, T(55));
		const auto stop = Interpolate(out, Sig(buffer), polyphase, start);
		for (size_t i = 0; i < len; ++i)
			NEAR("streamed", out[i], want[produced + i], mag[produced + i] * Eps<T>() * (ld)(8 + taps / rate) + 1e-36L, "output ", produced + i, " in piece ", pieces);
		produced += len;
		CHK(stop.firstInputSample <= buffer.size(), "suspension point", "beyond the input");
		buffer.erase(buffer.begin(), buffer.begin() + stop.firstInputSample);
		start = stop.startPoint;
		g.note("+", chunk, "/", len);
		if (++pieces > 400 || (buffer.empty() && fed == n)) break;
	}
	g.nontrivial(pieces >= 3);
}
PROP("stream", 10000, "a stream of up to 60 samples fed in pieces of 1..12, any admissible number of outputs taken each time, input dropped up to the suspension point; every output against the whole result; non-trivial = 3 pieces or more") {
	WithType<double, float, cd>(g, [&](auto t) {
		using T = typename decltype(t)::type;
		if constexpr (is_cplx_v<T>) Stream<double>(g);
		else Stream<T>(g);
	});
}
