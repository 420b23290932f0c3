// P11: spectrum shifting and bin/frequency conversion.
#include "common.hpp"

#include <dspbb/Math/FFT.hpp>
using namespace h;

template <class T, eSignalDomain D>
void ShiftCase(Gen& g) {
	const size_t n = g.length(1, 400);
	const auto x = Data<T>(g, n, STYLE_UNIFORM, "x");
	g.note("n=", n);
	g.nontrivial(n >= 3);
	g.label(n % 2 ? "odd" : "even");
	const bool inverse = g.flag();
	const int form = (int)g.draw(4);
	g.label("form " + std::to_string(form));
	g.note(inverse ? "unshift" : "shift", " form ", form);
	// Shifted index of bin k is (k + n/2) mod n: bin 0 lands on n/2. Unshifting is its inverse.
	std::vector<T> want(n);
	for (size_t k = 0; k < n; ++k) {
		if (inverse) want[k] = x[(k + n / 2) % n];
		else want[(k + n / 2) % n] = x[k];
	}
	const auto run = [&](auto&& out, const auto& in) { inverse ? IfftShift(out, in) : FftShift(out, in); };
	const auto verify = [&](const auto& r, const char* what) {
		CHK(r.size() == n, "size", what, " size ", r.size());
		for (size_t i = 0; i < n; ++i) CHK(Same(T(r[i]), want[i]), "position", what, " index ", i, " of ", n, ": got ", CStr(ToC(r[i])), " want ", CStr(ToC(want[i])));
	};
	Guarded<T> gx(x, g.draw(7), 3);
	switch (form) {
		case 0: {
			const BasicSignal<T, D> s(x.begin(), x.end());
			const auto r = inverse ? IfftShift(s) : FftShift(s);
			verify(r, "returning");
			const auto back = inverse ? FftShift(r) : IfftShift(r);
			for (size_t i = 0; i < n; ++i) CHK(Same(back[i], x[i]), "round-trip", "index ", i, " of ", n);
			break;
		}
		case 1: {
			Guarded<T> go(n, g.draw(7), 8);
			auto out = go.template view<D>();
			run(out, gx.template cview<D>());
			verify(go, "output parameter");
			CHK(go.padIntact() && gx.untouched(), "stray-write", "write outside the output");
			break;
		}
		case 2: {
			BasicSignal<T, D> s(x.begin(), x.end());
			run(s, s);
			verify(s, "in place, same signal");
			break;
		}
		case 3: {
			auto v = gx.template view<D>();
			run(v, v);
			verify(v, "in place, same view");
			CHK(gx.padIntact(), "stray-write", "write outside the output");
			break;
		}
		default: {
			auto v = gx.template view<D>();
			const auto c = gx.template cview<D>();
			run(v, c);
			verify(v, "in place, two views of the same samples");
			CHK(gx.padIntact(), "stray-write", "write outside the output");
			break;
		}
	}
}

PROP("shift", 40000, "type, domain, length 1..400, direction, form (returning, output parameter, three in-place forms); non-trivial = length at least 3") {
	switch (g.draw(3)) {
		case 0: ShiftCase<cf, FREQUENCY_DOMAIN>(g); break;
		case 1: ShiftCase<cd, FREQUENCY_DOMAIN>(g); break;
		case 2: ShiftCase<float, TIME_DOMAIN>(g); break;
		default: ShiftCase<double, FREQUENCY_DOMAIN>(g); break;
	}
}
PROP("bin-frequency", 60000, "number of bins, sample rate, bin; non-trivial = bin greater than zero") {
	const size_t bins = g.flag() ? g.size(1, 5000) : g.range<size_t>(1, 1u << g.range(1, 22));
	const size_t k = g.draw(bins - 1);
	const uint64_t rate = g.pick<uint64_t>({ 1, 2, 10, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 1000000007, 44101 }) + (g.flag() ? g.draw(1000) : 0);
	g.note("bins ", bins, " bin ", k, " rate ", rate);
	g.nontrivial(k > 0);
	const double f = FourierBin2Frequency(k, bins, rate);
	const ld want = (ld)k * (ld)rate / (ld)bins;
	NEAR("frequency", f, want, 4 * Eps<double>() * want, "FourierBin2Frequency");
	CHK(FourierFrequency2Bin(f, bins, rate) == k, "round-trip", "bin ", k, " -> ", f, " -> ", FourierFrequency2Bin(f, bins, rate));
	CHK(FourierBin2Frequency(0, bins, rate) == 0.0, "zero", "bin 0 is not frequency 0");
	// Proportional to bin number and to sample rate.
	NEAR("proportional", FourierBin2Frequency(2 * k, bins, rate), 2 * (ld)f, 8 * Eps<double>() * want, "twice the bin");
	NEAR("proportional", FourierBin2Frequency(k, bins, 2 * rate), 2 * (ld)f, 8 * Eps<double>() * want, "twice the rate");
	// Any frequency maps to the nearest bin.
	const double q = (double)rate * g.unit();
	const size_t b = FourierFrequency2Bin(q, bins, rate);
	const ld spacing = (ld)rate / (ld)bins;
	CHK(std::abs((ld)b * spacing - (ld)q) <= 0.5L * spacing * (1 + 1e-9L), "nearest", "frequency ", q, " maps to bin ", b);
}
