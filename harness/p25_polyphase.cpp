// P25: polyphase decomposition is a partition of the filter's taps.
#include "common.hpp"
#include <dspbb/Filtering/Resample.hpp>
using namespace h;

/// The phase contents the decomposition stands for, built by dealing the taps out.
template <class T>
std::vector<std::vector<cld>> Deal(const std::vector<T>& taps, size_t phases) {
	std::vector<std::vector<cld>> r(phases);
	for (size_t n = 0; n < taps.size(); ++n) r[n % phases].insert(r[n % phases].begin(), ToC(taps[n]) * (ld)phases);
	return r;
}

template <class V>
void CheckPhases(Gen& g, V& poly, const std::vector<std::vector<cld>>& want, size_t taps, ld eps, const char* what) {
	CHK(poly.num_phases() == want.size(), "num_phases", what, ": ", poly.num_phases());
	CHK(poly.size_original() == taps, "size_original", what, ": ", poly.size_original());
	CHK(poly.size_per_phase() == (taps + want.size() - 1) / want.size(), "size_per_phase", what, ": ", poly.size_per_phase());
	size_t total = 0;
	for (size_t p = 0; p < want.size(); ++p) {
		auto phase = poly[p];
		CHK(phase.size() == want[p].size(), "phase size", what, ": phase ", p, " has ", phase.size(), " taps instead of ", want[p].size());
		total += phase.size();
		for (size_t i = 0; i < phase.size(); ++i) NEAR("phase taps", phase[i], want[p][i], eps * AbsC(want[p][i]), what, ": phase ", p, " tap ", i);
	}
	CHK(total == taps, "partition", what);
}

/// Phases must tile the buffer: every address once, in order.
template <class V, class Ptr>
void CheckTiling(Gen& g, V& poly, Ptr begin, size_t taps) {
	Ptr at = begin;
	for (size_t p = 0; p < poly.num_phases(); ++p) {
		auto phase = poly[p];
		if (phase.size() == 0) continue;
		CHK(phase.data() == at, "tiling", "phase ", p, " starts at offset ", phase.data() - begin, " instead of ", at - begin);
		at += phase.size();
	}
	CHK(at == begin + taps, "tiling", "phases end at ", at - begin);
}

template <class T>
void Decompose(Gen& g) {
	const size_t n = g.length(1, g.chance(1, 4) ? 400 : 40);
	const size_t phases = g.chance(1, 6) ? g.size(1, 120) : g.size(1, 12);
	const auto taps = Data<T>(g, n, STYLE_UNIFORM, "taps");
	g.note(phases, " phases of ", n, " taps");
	g.labelIf(phases > n, "more phases than taps");
	g.labelIf(n % phases != 0, "uneven phases");
	g.labelIf(n == 0, "no taps");
	g.nontrivial(n >= 2 && phases >= 2);
	const auto want = Deal(taps, phases);
	const ld eps = 2 * Eps<T>();

	Guarded<T> in(taps, g.draw(5)), out(n, g.draw(5), 9);
	auto outView = out.view();
	auto view = PolyphaseDecompose(outView, in.cview(), phases);
	CHK(out.padIntact(), "stray-write", "decomposition wrote outside its buffer");
	CHK(in.untouched(), "input-changed", "");
	CheckPhases(g, view, want, n, eps, "view");
	CheckTiling(g, view, out.data(), n);

	const auto sig = Sig(taps);
	auto owned = PolyphaseDecompose(sig, phases);
	CheckPhases(g, owned, want, n, eps, "filter");
	const auto& constOwned = owned;
	CheckPhases(g, constOwned, want, n, eps, "const filter");
	CHK(owned.Buffer().size() == n, "buffer size", owned.Buffer().size());
	if (n) CheckTiling(g, owned, owned.Buffer().data(), n);

	// Copies and moves keep the contents and never share them.
	PolyphaseFilter<T, TIME_DOMAIN> other(g.draw(9), 1 + g.draw(3));
	switch (g.draw(3)) {
		case 0: other = owned; break;
		case 1: {
			PolyphaseFilter<T, TIME_DOMAIN> copy(owned);
			other = std::move(copy);
			break;
		}
		case 2: {
			PolyphaseFilter<T, TIME_DOMAIN> copy(owned);
			PolyphaseFilter<T, TIME_DOMAIN> moved(std::move(copy));
			other = moved;
			break;
		}
		default: {
			PolyphaseFilter<T, TIME_DOMAIN> copy(owned);
			copy = *&copy;
			other = copy;
			break;
		}
	}
	CheckPhases(g, other, want, n, eps, "copy");
	if (n) {
		CHK(other.Buffer().data() != owned.Buffer().data(), "copy shares its buffer", "");
		CheckTiling(g, other, other.Buffer().data(), n);
		other.Buffer()[g.draw(n - 1)] += T(3);
		CheckPhases(g, owned, want, n, eps, "original after changing the copy");
	}
}
PROP("decompose", 30000, "taps 1..400, 1..120 phases (also more than taps), real/complex, view and owning forms, copies and moves; every tap, tiling of the buffer, sizes, isolation of copies; non-trivial = 2 taps and 2 phases or more") {
	WithType<double, float>(g, [&](auto t) { Decompose<typename decltype(t)::type>(g); });
}

template <class T>
void Normalize(Gen& g) {
	const size_t n = g.length(1, g.chance(1, 4) ? 300 : 40), phases = g.size(1, 20);
	auto taps = Data<T>(g, n, STYLE_UNIFORM, "taps");
	g.note(phases, " phases of ", n, " taps");
	const auto dealt = Deal(taps, phases);
	std::vector<std::vector<cld>> want = dealt;
	std::vector<ld> tol(phases, 0);
	for (size_t p = 0; p < phases; ++p) {
		cld sum = 0;
		ld mag = 0;
		for (const auto& v : dealt[p]) sum += v, mag += AbsC(v);
		if (dealt[p].empty()) continue;
		if (mag == 0 || AbsC(sum) < 0.02L * mag) g.discard(); // a phase without gain at zero cannot be normalised
		for (auto& v : want[p]) v /= sum;
		tol[p] = Eps<T>() * (ld)(8 + dealt[p].size()) * mag / AbsC(sum);
	}
	g.labelIf(phases > n, "more phases than taps");
	g.nontrivial(n > phases && phases >= 2);
	auto filter = PolyphaseDecompose(Sig(taps), phases);
	const auto before = Vec(filter.Buffer());
	const auto normalized = PolyphaseNormalized(filter);
	CHK(Vec(filter.Buffer()) == before, "input-changed", "PolyphaseNormalized changed its argument");
	PolyphaseNormalize(filter);
	for (size_t p = 0; p < phases; ++p) {
		auto a = filter[p];
		auto b = normalized[p];
		CHK(a.size() == want[p].size() && b.size() == want[p].size(), "phase size", "phase ", p);
		cld sum = 0;
		for (size_t i = 0; i < a.size(); ++i) {
			sum += ToC(a[i]);
			NEAR("normalised taps", a[i], want[p][i], tol[p] * (1 + AbsC(want[p][i])), "in place, phase ", p, " tap ", i);
			NEAR("normalised taps", b[i], want[p][i], tol[p] * (1 + AbsC(want[p][i])), "copy, phase ", p, " tap ", i);
		}
		ld mag = 1;
		for (const auto& v : want[p]) mag += AbsC(v);
		if (a.size()) NEAR("unit gain", sum, 1, tol[p] * mag * 4, "phase ", p);
	}
}
PROP("normalize", 20000, "taps 1..300, 1..20 phases, random taps with usable phase sums; every tap against tap/sum of its phase and the phase gains; non-trivial = more taps than phases, 2 phases or more") {
	WithType<double, float>(g, [&](auto t) { Normalize<typename decltype(t)::type>(g); });
}
