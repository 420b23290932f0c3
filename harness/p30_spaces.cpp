// P30: linear and logarithmic spaces.
#include "common.hpp"
#include <dspbb/Generators/Spaces.hpp>
using namespace h;

template <class T, eSignalDomain D>
void Space(Gen& g, bool log) {
	using R = real_of_t<T>;
	const size_t n = g.length(0, g.chance(1, 4) ? 500 : 40, 140);
	const bool inclusive = g.flag(), integers = g.flag();
	const double span = log ? (std::is_same_v<R, float> ? 8 : 40) : std::pow(10.0, g.real(-3, 6));
	const auto point = [&]() -> R { return integers ? R(g.sym(log ? 8 : 200)) : R((2 * g.unit() - 1) * span); };
	const R start = point(), end = g.chance(1, 10) ? start : point();
	const bool defaultBase = log && g.flag();
	const R base = defaultBase ? R(10) : (g.flag() ? R(g.pick({ 2.0, 2.718281828459045, 0.5, 3.0, 1.0 })) : R(0.1 + 10 * g.unit()));
	g.note(log ? "log" : "lin", " ", TypeName<T>(), " length ", n, " from ", start, " to ", end, inclusive ? " inclusive" : " exclusive");
	if (log) g.note(" base ", base);
	g.label(log ? "log" : "lin");
	g.label(inclusive ? "inclusive" : "exclusive");
	g.labelIf(n == 1, "single sample");
	g.labelIf(start > end, "descending");
	g.labelIf(start == end, "constant");
	g.nontrivial(n >= 3 && start != end);

	std::vector<T> got;
	const int form = (int)g.draw(3);
	switch (form) {
		case 0:
			if (log) got = defaultBase && inclusive ? Vec(LogSpace<T, D>(start, end, n)) : Vec(LogSpace<T, D>(start, end, n, base, inclusive));
			else got = inclusive && g.flag() ? Vec(LinSpace<T, D>(start, end, n)) : Vec(LinSpace<T, D>(start, end, n, inclusive));
			break;
		case 1: {
			BasicSignal<T, D> out(n, T(R(7)));
			if (log) LogSpace(out, start, end, base, inclusive);
			else LinSpace(out, start, end, inclusive);
			got = Vec(out);
			break;
		}
		case 2: {
			// Default arguments.
			BasicSignal<T, D> out(n, T(R(7)));
			if (log && defaultBase && inclusive) LogSpace(out, start, end);
			else if (log) LogSpace(out, start, end, base, inclusive);
			else if (inclusive) LinSpace(out, start, end);
			else LinSpace(out, start, end, inclusive);
			got = Vec(out);
			break;
		}
		default: {
			Guarded<T> out(std::vector<T>(n, T(R(7))), g.draw(5), 5);
			auto v = out.template view<D>();
			if (log) LogSpace(v, start, end, base, inclusive);
			else LinSpace(v, start, end, inclusive);
			CHK(out.padIntact(), "stray-write", "");
			got = out.vec();
			break;
		}
	}
	CHK(got.size() == n, "size", got.size());
	const ld steps = std::max<ld>(1, (ld)n - (inclusive ? 1 : 0));
	const ld lintol = 3 * Eps<T>() * (std::abs((ld)start) + std::abs((ld)end));
	const ld lnb = std::log((ld)base);
	for (size_t i = 0; i < n; ++i) {
		const ld lin = (ld)start + ((ld)end - (ld)start) * (ld)i / steps;
		if (!log) {
			NEAR("linear space", got[i], lin, i == 0 ? 0 : lintol, "form ", form, " sample ", i);
		}
		else {
			const ld want = std::exp(lin * lnb);
			if (want > 1e36L || want < 1e-36L) g.discard();
			NEAR("logarithmic space", got[i], want, want * (lintol * std::abs(lnb) * 2 + Eps<T>() * (8 + 2 * std::abs(lin * lnb))), "form ", form, " sample ", i);
		}
	}
	if (n && !log && inclusive && n > 1) NEAR("end point", got[n - 1], (ld)end, lintol);
	if (n && !log && !inclusive) NEAR("end point", ToC(got[n - 1]) + ((ld)end - (ld)start) / (ld)n, (ld)end, lintol * 2);
	// Equal steps.
	if (!log)
		for (size_t i = 2; i < n; ++i) NEAR("equal steps", ToC(got[i]) - ToC(got[i - 1]), ToC(got[1]) - ToC(got[0]), 4 * lintol, "step ", i);
}
PROP("spaces", 60000, "length 0..500, ascending/descending/constant ranges over nine decades, inclusive and exclusive, any positive base, float/double real and complex, both domains, four call forms; every sample, end points, steps; non-trivial = 3 samples or more of a non-constant range") {
	const bool log = g.flag();
	switch (g.draw(4)) {
		case 0: Space<double, TIME_DOMAIN>(g, log); break;
		case 1: Space<float, TIME_DOMAIN>(g, log); break;
		case 2: Space<cf, TIME_DOMAIN>(g, log); break;
		case 3: Space<cd, FREQUENCY_DOMAIN>(g, log); break;
		default: Space<float, FREQUENCY_DOMAIN>(g, log); break;
	}
}
