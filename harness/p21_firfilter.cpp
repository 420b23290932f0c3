// P21: FIR filtering is convolution; streaming with a carried state equals one-shot.
#include "common.hpp"

#include <dspbb/Filtering/FIR.hpp>
using namespace h;

template <class T, class U>
std::vector<cld> Full(const std::vector<T>& u, const std::vector<U>& v) {
	if (u.empty() || v.empty()) return {};
	std::vector<cld> r(u.size() + v.size() - 1, cld(0));
	for (size_t i = 0; i < u.size(); ++i) {
		const cld a = ToC(u[i]);
		for (size_t j = 0; j < v.size(); ++j) r[i + j] += a * ToC(v[j]);
	}
	return r;
}
template <class T>
ld Norm2(const std::vector<T>& v) {
	ld s = 0;
	for (const auto& x : v) s += std::norm(ToC(x));
	return std::sqrt(s);
}

template <class T, class U>
void OneShot(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<U>());
	const size_t n = g.length(1, g.chance(1, 4) ? 300 : 60), taps = g.length(1, g.flag() ? 20 : 120, 6);
	const auto x = Data<T>(g, n, STYLE_SPARSE, "signal");
	const auto f = Data<U>(g, taps, STYLE_SPARSE, "filter");
	const auto want = Full(x, f);
	const size_t shorter = std::min(n, taps);
	const bool ola = g.flag(), central = g.flag(), returning = g.flag();
	size_t block = 0;
	if (ola && g.flag()) block = 2 * shorter - 1 + g.draw(g.flag() ? 6 : 200);
	const size_t offset = central ? shorter - 1 : 0, len = central ? std::max(n, taps) - shorter + 1 : want.size();
	g.note(ola ? "overlap-add block " : "direct ", block, central ? " central" : " full", returning ? " returning" : " into output");
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.label(ola ? "overlap-add" : "direct");
	g.labelIf(n < taps, "filter longer than signal");
	g.nontrivial(n >= 2 && taps >= 2);
	const ld scale = Norm2(x) * Norm2(f), eff = (ld)std::max<size_t>(block ? block : 4 * want.size(), 2);
	const ld tol = Eps<R>() * (ola ? 6 * (3 + std::log2(eff)) : (ld)shorter + 4) * scale + (ld)std::numeric_limits<real_of_t<R>>::min();
	Guarded<T> gx(x, g.draw(7), 3);
	Guarded<U> gf(f, g.draw(7), 4);
	const auto a = gx.cview();
	const auto b = gf.cview();
	if (returning) {
		const auto r = ola ? (central ? Filter(a, b, CONV_CENTRAL, FILTER_OLA, block) : Filter(a, b, CONV_FULL, FILTER_OLA, block))
						   : (central ? Filter(a, b, CONV_CENTRAL, FILTER_CONV) : Filter(a, b, CONV_FULL, FILTER_CONV));
		static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, R>);
		CHK(r.size() == len, "size", "result size ", r.size(), " want ", len);
		for (size_t i = 0; i < len; ++i) NEAR("value", r[i], want[offset + i], tol, "at ", i);
	}
	else {
		Guarded<R> go(Data<R>(g, len, STYLE_SPARSE), g.draw(7), 9);
		auto o = go.view();
		if (ola && central) Filter(o, a, b, CONV_CENTRAL, FILTER_OLA, block);
		else if (ola) Filter(o, a, b, CONV_FULL, FILTER_OLA, block);
		else if (central) Filter(o, a, b, CONV_CENTRAL, FILTER_CONV);
		else Filter(o, a, b, CONV_FULL, FILTER_CONV);
		for (size_t i = 0; i < len; ++i) NEAR("value", go[i], want[offset + i], tol, "at ", i);
		CHK(go.padIntact(), "stray-write", "write outside the output");
	}
	CHK(gx.untouched() && gf.untouched(), "input-changed", "inputs modified");
}

template <class T, class U>
void Stream(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<U>());
	const size_t taps = g.size(1, g.chance(1, 4) ? 80 : 16);
	const auto f = Data<U>(g, taps, STYLE_SPARSE, "filter");
	const bool fresh = g.flag();
	std::vector<T> history(taps - 1, T(0));
	if (!fresh) history = Data<T>(g, taps - 1, STYLE_SPARSE, "history");
	const size_t chunks = g.range(1, 8);
	Guarded<T> state(history, g.draw(7), 5);
	auto sv = state.view();
	BasicSignal<T, TIME_DOMAIN> stateSignal(history.begin(), history.end());
	const bool useSignal = g.flag(); // carry the state in a signal or in a view
	Guarded<U> gf(f, g.draw(7), 4);

	// Everything that ever went in, history first.
	std::vector<T> all = history;
	bool shorter = false, longer = false, mixed[2] = { false, false };
	size_t total = 0;
	for (size_t c = 0; c < chunks; ++c) {
		const size_t len = g.draw(4) == 0 ? g.size(0, 150) : g.draw(std::max<size_t>(3, taps + 2));
		const auto x = Data<T>(g, len, STYLE_SPARSE);
		const bool ola = g.flag(), returning = g.flag();
		size_t block = 0;
		if (ola && g.flag()) block = 2 * taps - 1 + g.draw(g.flag() ? 6 : 100);
		g.note(" chunk ", len, ola ? " overlap-add block " : " direct ", block, ";");
		mixed[ola] = true;
		(len < taps - 1 ? shorter : longer) = true;
		total += len;
		Guarded<T> gx(x, g.draw(7), 3);
		const auto a = gx.cview();
		const auto b = gf.cview();
		const size_t before = all.size();
		all.insert(all.end(), x.begin(), x.end());
		// Wanted: sum over taps of filter times the most recent samples.
		std::vector<T> context(all.begin() + (before - (taps - 1)), all.end());
		const auto full = Full(context, f);
		const ld eff = (ld)std::max<size_t>(block ? block : 4 * (len + 2 * taps), 2);
		const ld scale = Norm2(context) * Norm2(f);
		const ld tol = 2 * Eps<R>() * (ola ? 6 * (3 + std::log2(eff)) : (ld)taps + 4) * scale + (ld)std::numeric_limits<real_of_t<R>>::min();
		std::vector<R> got;
		if (returning) {
			const auto run = [&](auto& st) { return ola ? Filter(a, b, st, FILTER_OLA, block) : Filter(a, b, st, FILTER_CONV); };
			const auto r = useSignal ? run(stateSignal) : run(sv);
			static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, R>);
			got = Vec(r);
		}
		else {
			Guarded<R> go(Data<R>(g, len, STYLE_RAMP), g.draw(7), 9);
			auto o = go.view();
			const auto run = [&](auto& st) {
				if (ola) Filter(o, a, b, st, FILTER_OLA, block);
				else Filter(o, a, b, st, FILTER_CONV);
			};
			if (useSignal) run(stateSignal);
			else run(sv);
			CHK(go.padIntact(), "stray-write", "write outside the output");
			got = go.vec();
		}
		CHK(got.size() == len, "size", "chunk ", c, " returned ", got.size(), " want ", len);
		for (size_t i = 0; i < len; ++i) NEAR("value", got[i], full[taps - 1 + i], tol, "chunk ", c, " sample ", i, " of ", len);
		for (size_t i = 0; i + 1 < taps; ++i) {
			const T s = useSignal ? stateSignal[i] : state[i];
			CHK(Same(s, all[all.size() - (taps - 1) + i]), "state", "after chunk ", c, " state[", i, "] is ", CStr(ToC(s)), " want ", CStr(ToC(all[all.size() - (taps - 1) + i])));
		}
		CHK(state.padIntact(), "stray-write", "write outside the state");
		CHK(gx.untouched() && gf.untouched(), "input-changed", "inputs modified");
	}
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.labelIf(shorter && longer, "chunks shorter and longer than the state");
	g.labelIf(mixed[0] && mixed[1], "both engines in one stream");
	g.labelIf(taps == 1, "single tap");
	g.labelIf(!fresh, "with history");
	g.nontrivial(chunks >= 2 && taps >= 2 && total > 0);
}

#define REAL_PAIRS(F)                          \
	switch (g.draw(3)) {                      \
		case 0: F<double, double>(g); break;  \
		case 1: F<float, float>(g); break;    \
		case 2: F<float, cf>(g); break;       \
		default: F<double, cd>(g); break;     \
	}
#define COMPLEX_PAIRS(F)                  \
	switch (g.draw(3)) {                 \
		case 0: F<cd, double>(g); break; \
		case 1: F<cf, float>(g); break;  \
		case 2: F<cf, cf>(g); break;     \
		default: F<cd, cd>(g); break;    \
	}
#if PBT_IN_PART(0)
PROP("one-shot-real", 25000, "real signal with real or complex filter, signal and filter lengths, engine, block size, full/central, returning or into output; non-trivial = both lengths at least 2") { REAL_PAIRS(OneShot) }
#endif
#if PBT_IN_PART(1)
PROP("one-shot-complex", 25000, "complex signal with real or complex filter, lengths, engine, block size, full/central, returning or into output; non-trivial = both lengths at least 2") { COMPLEX_PAIRS(OneShot) }
#endif
#if PBT_IN_PART(2)
PROP("streaming-real", 25000, "real signals: history of 1..8 chunks of any length incl. 0, engine, block size and call form chosen per chunk, state fresh or arbitrary, in a signal or a view; non-trivial = two or more chunks, two or more taps, some samples") { REAL_PAIRS(Stream) }
#endif
#if PBT_IN_PART(3)
PROP("streaming-complex", 25000, "complex signals: history of 1..8 chunks of any length incl. 0, engine, block size and call form chosen per chunk, state fresh or arbitrary; non-trivial = two or more chunks, two or more taps, some samples") { COMPLEX_PAIRS(Stream) }
#endif
