// P09: overlap-add equals the convolution sum for any block size.
#include "common.hpp"

#include <dspbb/Math/OverlapAdd.hpp>
using namespace h;

template <class T, class U>
std::vector<cld> Full(const std::vector<T>& u, const std::vector<U>& v) {
	if (u.empty() || v.empty()) return {};
	std::vector<cld> r(u.size() + v.size() - 1, cld(0));
	for (size_t i = 0; i < u.size(); ++i) {
		const cld a = ToC(u[i]);
		for (size_t j = 0; j < v.size(); ++j) {
			r[i + j] += a * ToC(v[j]);
		}
	}
	return r;
}
template <class T>
ld Norm2(const std::vector<T>& v) {
	ld s = 0;
	for (const auto& x : v) s += std::norm(ToC(x));
	return std::sqrt(s);
}

template <class T, class U>
void Case(Gen& g) {
	using R = decltype(std::declval<T>() * std::declval<U>());
	size_t nu = g.length(1, 300, 8), nv = g.size(1, g.flag() ? 20 : 120);
	if (g.chance(1, 40)) nv = 0;
	if (g.flag()) {
		std::swap(nu, nv);
	}
	const auto u = Data<T>(g, nu, STYLE_SPARSE, "u");
	const auto v = Data<U>(g, nv, STYLE_SPARSE, "v");
	const bool empty = nu == 0 || nv == 0;
	g.labelIf(empty, "empty operand");
	const size_t full = empty ? 0 : nu + nv - 1;
	const size_t central = empty ? 0 : std::max(nu, nv) - std::min(nu, nv) + 1;
	const size_t shorter = std::max<size_t>(1, std::min(nu, nv));
	// Block size: chosen by the library, the smallest admissible, near it, or anything up to beyond the result.
	size_t chunk = 0;
	switch (g.draw(4)) {
		case 0: break;
		case 1: chunk = 2 * shorter - 1; break;
		case 2: chunk = 2 * shorter - 1 + g.draw(8); break;
		case 3: chunk = 2 * shorter - 1 + g.draw(200); break;
		default: chunk = std::max(2 * shorter - 1, full) + g.draw(40); break;
	}
	size_t offset = 0, len = full;
	const int mode = (int)g.draw(2);
	if (mode == 1) {
		offset = shorter - 1;
		len = central;
	}
	else if (mode == 2) {
		offset = g.draw(full);
		len = g.size(0, full - offset);
	}
	const int form = (int)g.draw(2); // returning, overwrite, accumulate
	g.note("lengths ", nu, ",", nv, " block ", chunk, " offset ", offset, " length ", len, " mode ", mode, " form ", form);
	g.label(std::string(TypeName<T>()) + "*" + TypeName<U>());
	g.label("mode " + std::to_string(mode) + " form " + std::to_string(form));
	g.label(chunk == 0 ? "library block" : chunk % 2 ? "odd block" : "even block");
	g.labelIf(nu < nv, "second operand longer");
	g.labelIf(chunk && chunk < full, "several blocks");
	g.nontrivial(nu >= 2 && nv >= 2 && len > 0);
	const auto want = Full(u, v);
	const ld eff = (ld)std::max<size_t>(chunk ? chunk : 4 * full, 2);
	const ld tol = Eps<R>() * 6 * (3 + std::log2(eff)) * Norm2(u) * Norm2(v) + (ld)std::numeric_limits<real_of_t<R>>::min();
	Guarded<T> gu(u, g.draw(7), 3);
	Guarded<U> gv(v, g.draw(7), 4);
	const auto a = gu.cview();
	const auto b = gv.cview();
	if (form == 0) {
		const auto r = mode == 0 ? OverlapAdd(a, b, CONV_FULL, chunk) : mode == 1 ? OverlapAdd(a, b, CONV_CENTRAL, chunk) : OverlapAdd(a, b, offset, len, chunk);
		static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, R>);
		CHK(r.size() == len, "size", "result size ", r.size(), " want ", len);
		for (size_t i = 0; i < len; ++i) {
			NEAR("value", r[i], want[offset + i], tol, "returning at ", i);
		}
	}
	else {
		const bool accumulate = form == 2;
		const auto prev = Data<R>(g, len, STYLE_SPARSE, "previous");
		Guarded<R> go(prev, g.draw(7), 9);
		auto out = go.view();
		if (mode == 0) OverlapAdd(out, a, b, CONV_FULL, chunk, !accumulate);
		else if (mode == 1) OverlapAdd(out, a, b, CONV_CENTRAL, chunk, !accumulate);
		else OverlapAdd(out, a, b, offset, chunk, !accumulate);
		for (size_t i = 0; i < len; ++i) {
			const cld w = want[offset + i] + (accumulate ? ToC(prev[i]) : cld(0));
			NEAR("value", go[i], w, tol + (accumulate ? 8 * Eps<R>() * AbsL(prev[i]) : 0), accumulate ? "accumulate" : "overwrite", " at ", i);
		}
		CHK(go.padIntact(), "stray-write", "write outside the output");
	}
	CHK(gu.untouched() && gv.untouched(), "input-changed", "inputs modified");
}

#define PAIRS(F)                                                                                                                        \
	switch (g.draw(7)) {                                                                                                               \
		case 0: F<double, double>(g); break;                                                                                           \
		case 1: F<float, float>(g); break;                                                                                             \
		case 2: F<cf, cf>(g); break;                                                                                                   \
		case 3: F<cd, cd>(g); break;                                                                                                   \
		case 4: F<float, cf>(g); break;                                                                                                \
		case 5: F<cf, float>(g); break;                                                                                                \
		case 6: F<double, cd>(g); break;                                                                                               \
		default: F<cd, double>(g); break;                                                                                              \
	}
PROP("blocks", 20000, "type pair (8), two lengths, block size (library, minimal, near minimal, arbitrary, beyond the result), window, returning/overwrite/accumulate; non-trivial = both lengths at least 2 and non-empty window") { PAIRS(Case) }
