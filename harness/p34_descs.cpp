// P34: filter descriptions carry what was set, whatever the order of the setters, and reject impossible bands.
// Histories of setter calls are applied to the real description and to a model struct of parameters.
#include "common.hpp"
#include <dspbb/Filtering/Resample.hpp>

#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
using namespace h;

//------------------------------------------------------------------------------ edges

template <class P>
struct Edges {
	std::vector<P> v;
	bool normalized = true, sorted = true;
};

/// Edges of a band, admissible more often than not; interesting values are at and next to 0 and 1.
template <class P>
Edges<P> MakeEdges(Gen& g, size_t n) {
	Edges<P> e;
	const bool valid = g.chance(2, 3);
	const bool sorted = valid || g.flag();
	const P tiny = std::numeric_limits<P>::denorm_min(), inf = std::numeric_limits<P>::infinity();
	for (size_t i = 0; i < n; ++i) {
		const bool odd = !valid && g.flag();
		if (odd) {
			e.v.push_back(g.pick({ std::nextafter(P(1), P(2)), -tiny, std::nextafter(P(0.0), P(-1)), P(1.5), P(-0.25), inf, -inf, std::numeric_limits<P>::quiet_NaN(), P(-1e30), P(1e30) }));
		}
		else if (g.chance(1, 4)) {
			e.v.push_back(g.pick({ P(0), P(1), std::nextafter(P(1), P(0)), tiny, P(-0.0), P(0.5) }));
		}
		else {
			e.v.push_back(P(g.unit()));
		}
	}
	bool nan = false;
	for (const P x : e.v) nan = nan || x != x;
	if (sorted && !nan) std::sort(e.v.begin(), e.v.end());
	if (sorted && n > 1 && g.chance(1, 4)) {
		const size_t i = g.draw(n - 2);
		e.v[i + 1] = e.v[i];
		if (!nan) std::sort(e.v.begin(), e.v.end());
	}
	for (size_t i = 0; i < n; ++i) {
		e.normalized = e.normalized && e.v[i] >= P(0) && e.v[i] <= P(1);
		e.sorted = e.sorted && (i == 0 || e.v[i - 1] <= e.v[i]);
	}
	return e;
}

/// Makes the call and compares acceptance with the rule; returns whether the setting was accepted.
template <class P, class F>
bool Accepted(Gen& g, const Edges<P>& e, F&& set) {
	int outcome = 0;
	std::string what;
	try {
		set();
	}
	catch (const std::domain_error& ex) {
		outcome = 1;
		what = ex.what();
	}
	catch (const std::invalid_argument& ex) {
		outcome = 2;
		what = ex.what();
	}
	if (e.normalized && e.sorted) {
		CHK(outcome == 0, "rejected-valid", "an admissible band was rejected: ", what);
		return true;
	}
	g.label(e.normalized ? "edges out of order" : "edges out of range");
	CHK(outcome != 0, "accepted-invalid", e.normalized ? "edges out of order" : "a frequency outside [0,1]", " was accepted");
	CHK(!e.normalized || outcome == 2, "exception-kind", "out of order edges reported as ", what);
	CHK(e.sorted || e.normalized || outcome != 0, "exception-kind", what);
	if (e.sorted) CHK(outcome == 1, "exception-kind", "out of range edges reported as ", what);
	return false;
}

template <class P>
void NoteCall(Gen& g, const char* name, const std::vector<P>& v) {
	std::ostringstream s;
	s.precision(std::numeric_limits<P>::max_digits10);
	for (size_t i = 0; i < v.size(); ++i) s << (i ? ", " : "") << v[i];
	g.note(".", name, "<", TypeName<P>(), ">(", s.str(), ")");
}

template <class P>
P Positive(Gen& g) { return P(g.pick({ 0.0, 0.01, 0.1, 0.5, 1.0, 2.0 }) + g.unit()); }

template <class P>
bool Eq(P a, P b) { return a == b; }

//------------------------------------------------------------------------------ fixed-type descriptions (IIR except Butterworth, least squares)

/// What a description of known fields reads, in one order used by all models.
template <class D, class = void>
struct Fields;

#define HAS(member) requires(const D& d) { d.member; }
template <class D>
std::vector<long double> Read(const D& d) {
	std::vector<long double> r;
	if constexpr (HAS(cutoff)) r.push_back(d.cutoff);
	if constexpr (HAS(lower)) { r.push_back(d.lower); r.push_back(d.upper); }
	if constexpr (HAS(cutoffBegin)) { r.push_back(d.cutoffBegin); r.push_back(d.cutoffEnd); }
	if constexpr (HAS(lowerBegin)) { r.push_back(d.lowerBegin); r.push_back(d.lowerEnd); r.push_back(d.upperBegin); r.push_back(d.upperEnd); }
	if constexpr (HAS(passbandRipple)) r.push_back(d.passbandRipple);
	if constexpr (HAS(stopbandRipple)) r.push_back(d.stopbandRipple);
	if constexpr (HAS(cutoffBegin)) { r.push_back(d.weightLow); r.push_back(d.weightTransition); r.push_back(d.weightHigh); }
	if constexpr (HAS(lowerBegin)) { r.push_back(d.weightLow); r.push_back(d.weightTransition1); r.push_back(d.weightMid); r.push_back(d.weightTransition2); r.push_back(d.weightHigh); }
	if constexpr (HAS(transitionWidth)) { r.push_back(d.transitionWidth); r.push_back(d.transitionWeight); }
	if constexpr (HAS(grid)) r.push_back((long double)d.grid);
	return r;
}

/// The parameters as last set; unset ones hold the documented defaults of the parameter type.
template <class P>
struct Model {
	std::vector<P> edges, pass, stop, weights, hilbert;
	size_t grid = 0;
	bool hasGrid = false;
	std::vector<long double> All() const {
		std::vector<long double> r;
		for (const auto* v : { &edges, &pass, &stop, &weights, &hilbert })
			for (const P x : *v) r.push_back(x);
		if (hasGrid) r.push_back((long double)grid);
		return r;
	}
};

template <class D, class P>
void Verify(Gen& g, const D& d, const Model<P>& m, const char* when) {
	const auto got = Read(d), want = m.All();
	CHK(got.size() == want.size(), "fields", "model has other fields");
	for (size_t i = 0; i < got.size(); ++i)
		CHK(got[i] == want[i], "carried", when, ": parameter ", i, " is ", (double)got[i], " instead of ", (double)want[i]);
}

#define CALLS(...) requires(const D& d, P p, size_t n) { d.__VA_ARGS__; }

/// One setter; f(new description) runs with what the setter returned, the model already updated.
template <class P, class D, class F>
void Step(Gen& g, const D& d, Model<P>& m, F&& f) {
	std::vector<int> kinds;
	constexpr bool cut1 = CALLS(Cutoff(p)), cut2 = CALLS(Cutoff(p, p)), band2 = CALLS(Band(p, p)), band4 = CALLS(Band(p, p, p, p));
	constexpr bool pass = CALLS(PassbandRipple(p)), stop = CALLS(StopbandRipple(p));
	constexpr bool weight3 = CALLS(Weight(p, p, p)), weight5 = CALLS(Weight(p, p, p, p, p));
	constexpr bool tw = CALLS(TransitionWidth(p)), grid = CALLS(Grid(n));
	if (cut1 || cut2 || band2 || band4) kinds.push_back(0);
	if (pass) kinds.push_back(1);
	if (stop) kinds.push_back(2);
	if (weight3 || weight5) kinds.push_back(3);
	if (tw) { kinds.push_back(4); kinds.push_back(5); }
	if (grid) kinds.push_back(6);
	switch (g.pick(kinds)) {
		case 0:
			if constexpr (cut1 || cut2 || band2 || band4) {
				const auto e = MakeEdges<P>(g, m.edges.size());
				NoteCall(g, cut1 || cut2 ? "Cutoff" : "Band", e.v);
				const auto call = [&] {
					if constexpr (cut1) return d.Cutoff(e.v[0]);
					else if constexpr (cut2) return d.Cutoff(e.v[0], e.v[1]);
					else if constexpr (band2) return d.Band(e.v[0], e.v[1]);
					else return d.Band(e.v[0], e.v[1], e.v[2], e.v[3]);
				};
				if (Accepted(g, e, call)) {
					m.edges = e.v;
					f(call());
				}
			}
			break;
		case 1:
			if constexpr (pass) {
				m.pass = { Positive<P>(g) };
				NoteCall(g, "PassbandRipple", m.pass);
				f(d.PassbandRipple(m.pass[0]));
			}
			break;
		case 2:
			if constexpr (stop) {
				m.stop = { Positive<P>(g) };
				NoteCall(g, "StopbandRipple", m.stop);
				f(d.StopbandRipple(m.stop[0]));
			}
			break;
		case 3:
			for (P& w : m.weights) w = Positive<P>(g);
			NoteCall(g, "Weight", m.weights);
			if constexpr (weight3) f(d.Weight(m.weights[0], m.weights[1], m.weights[2]));
			if constexpr (weight5) f(d.Weight(m.weights[0], m.weights[1], m.weights[2], m.weights[3], m.weights[4]));
			break;
		case 4:
			if constexpr (tw) {
				m.hilbert[0] = P(g.unit());
				NoteCall(g, "TransitionWidth", std::vector<P>{ m.hilbert[0] });
				f(d.TransitionWidth(m.hilbert[0]));
			}
			break;
		case 5:
			if constexpr (tw) {
				m.hilbert[1] = Positive<P>(g);
				NoteCall(g, "TransitionWeight", std::vector<P>{ m.hilbert[1] });
				f(d.TransitionWeight(m.hilbert[1]));
			}
			break;
		case 6:
			if constexpr (grid) {
				m.grid = g.draw(5000);
				g.note(".Grid(", m.grid, ")");
				f(d.Grid(m.grid));
			}
			break;
	}
}

/// Setter values in a random permutation from the void (or default) description: the same parameters whatever the order.
template <class P, class Start, class Next>
void History(Gen& g, const Start& start, Model<P> m) {
	const int len = (int)g.range(1, 8);
	size_t accepted = 0;
	std::vector<Next> all; // every description of the history; none may change later
	std::vector<Model<P>> models;
	for (int i = 0; i < len; ++i) {
		const auto before = m;
		const auto f = [&](const auto& next) {
			static_assert(std::is_same_v<std::decay_t<decltype(next)>, Next>);
			++accepted;
			Verify(g, next, m, "after the setter");
			all.push_back(next);
			models.push_back(m);
		};
		if (all.empty()) Step<P>(g, start, m, f);
		else {
			const size_t from = g.chance(1, 4) ? g.draw(all.size() - 1) : all.size() - 1; // branch off an earlier description
			m = models[from];
			const Next d = all[from];
			Step<P>(g, d, m, f);
			Verify(g, d, models[from], "the description a setter was called on");
		}
		if (all.size() == accepted && models.size() && i + 1 == len) m = models.back();
		if (all.empty()) m = before;
	}
	for (size_t i = 0; i < all.size(); ++i) Verify(g, all[i], models[i], "at the end");
	g.nontrivial(accepted >= 2);
	g.labelIf(accepted >= 4, "four settings or more");
}

template <class P>
Model<P> SplitModel() { return { { P(0.5) }, {}, {}, {}, {} }; }
template <class P>
Model<P> BandModel() { return { { P(0.25), P(0.75) }, {}, {}, {}, {} }; }

template <class P, class Band>
void IirBand(Gen& g, const Band& band, Model<P> m) {
	switch (g.draw(3)) {
		case 0: {
			g.label("butterworth");
			g.note("butterworth");
			History<P, std::decay_t<decltype(band.Butterworth)>, std::decay_t<decltype([&] {
				if constexpr (requires { band.Butterworth.Cutoff(P()); }) return band.Butterworth.Cutoff(P());
				else return band.Butterworth.Band(P(), P());
			}())>>(g, band.Butterworth, m);
			break;
		}
		case 1:
			m.pass = { P(0.1) };
			g.label("chebyshev 1");
			g.note("chebyshev 1");
			History<P, std::decay_t<decltype(band.Chebyshev1)>, std::decay_t<decltype(band.Chebyshev1.PassbandRipple(P()))>>(g, band.Chebyshev1, m);
			break;
		case 2:
			m.stop = { P(0.1) };
			g.label("chebyshev 2");
			g.note("chebyshev 2");
			History<P, std::decay_t<decltype(band.Chebyshev2)>, std::decay_t<decltype(band.Chebyshev2.StopbandRipple(P()))>>(g, band.Chebyshev2, m);
			break;
		default:
			m.pass = { P(0.1) };
			m.stop = { P(0.1) };
			g.label("elliptic");
			g.note("elliptic");
			History<P, std::decay_t<decltype(band.Elliptic)>, std::decay_t<decltype(band.Elliptic.StopbandRipple(P()))>>(g, band.Elliptic, m);
	}
}
template <class P>
void IirCase(Gen& g) {
	switch (g.draw(3)) {
		case 0: g.note("Iir.Lowpass"); return IirBand<P>(g, Iir.Lowpass, SplitModel<P>());
		case 1: g.note("Iir.Highpass"); return IirBand<P>(g, Iir.Highpass, SplitModel<P>());
		case 2: g.note("Iir.Bandpass"); return IirBand<P>(g, Iir.Bandpass, BandModel<P>());
		default: g.note("Iir.Bandstop"); return IirBand<P>(g, Iir.Bandstop, BandModel<P>());
	}
}
PROP("iir descriptions", 60000, "two settings or more were accepted") {
	if (g.flag()) IirCase<double>(g);
	else IirCase<float>(g);
}

template <class P>
void LeastSquaresCase(Gen& g) {
	Model<P> split{ { P(0.45), P(0.55) }, {}, {}, { P(1), P(0), P(1) }, {}, 0, true };
	Model<P> band{ { P(0.2), P(0.3), P(0.7), P(0.8) }, {}, {}, { P(1), P(0), P(1), P(0), P(1) }, {}, 0, true };
	Model<P> hilbert{ {}, {}, {}, {}, { P(0.05), P(1) }, 0, true };
	const auto run = [&](const auto& start, Model<P> m, const auto& typed) {
		History<P, std::decay_t<decltype(start)>, std::decay_t<decltype(typed)>>(g, start, m);
	};
	switch (g.draw(4)) {
		case 0: g.note("Fir.Lowpass.LeastSquares"); return run(Fir.Lowpass.LeastSquares, split, Fir.Lowpass.LeastSquares.Cutoff(P(0), P(1)));
		case 1: g.note("Fir.Highpass.LeastSquares"); return run(Fir.Highpass.LeastSquares, split, Fir.Highpass.LeastSquares.Cutoff(P(0), P(1)));
		case 2: g.note("Fir.Bandpass.LeastSquares"); return run(Fir.Bandpass.LeastSquares, band, Fir.Bandpass.LeastSquares.Band(P(0), P(0), P(1), P(1)));
		case 3: g.note("Fir.Bandstop.LeastSquares"); return run(Fir.Bandstop.LeastSquares, band, Fir.Bandstop.LeastSquares.Band(P(0), P(0), P(1), P(1)));
		default: g.note("Fir.Hilbert.LeastSquares"); return run(Fir.Hilbert.LeastSquares, hilbert, Fir.Hilbert.LeastSquares.TransitionWidth(P(0)));
	}
}
PROP("least squares descriptions", 60000, "two settings or more were accepted") {
	if (g.flag()) LeastSquaresCase<double>(g);
	else LeastSquaresCase<float>(g);
}

//------------------------------------------------------------------------------ windowed and arbitrary descriptions (types change along the history)

constexpr size_t kWin = 9;
struct WModel {
	std::vector<long double> edges;
	std::vector<float> window; // samples of the window at length kWin
	double k = 0;              // the response is 1 + k*f
	double kw = 0;             // the weight is 1 + kw*f
	size_t grid = 0;
};
template <class W>
std::vector<float> Sampled(const W& w) {
	if constexpr (is_signal_like_v<W>) {
		return std::vector<float>(w.begin(), w.end());
	}
	else {
		BasicSignal<float, TIME_DOMAIN> s(kWin);
		w(s);
		return { s.begin(), s.end() };
	}
}
struct Line {
	double k = 0;
	template <class T>
	T operator()(T f) const { return T(1) + T(k) * f; }
};

template <class D>
void VerifyW(Gen& g, const D& d, const WModel& m, const char* when) {
	const auto got = Read(d);
	for (size_t i = 0; i < m.edges.size(); ++i)
		CHK(got[i] == m.edges[i], "carried", when, ": parameter ", i, " is ", (double)got[i], " instead of ", (double)m.edges[i]);
	if constexpr (HAS(window)) {
		const auto w = Sampled(d.window);
		CHK(w == m.window, "window", when, ": the window is another one: ", Show(w), " instead of ", Show(m.window));
	}
	if constexpr (HAS(responseFunc)) {
		for (const double f : { 0.0, 0.25, 1.0 }) CHK(d.responseFunc(f) == 1 + m.k * f, "response", when, ": the response at ", f, " is ", (double)d.responseFunc(f));
	}
	if constexpr (HAS(weightFunc)) {
		for (const double f : { 0.0, 0.25, 1.0 }) CHK(d.weightFunc(f) == 1 + m.kw * f, "weight", when, ": the weight at ", f, " is ", (double)d.weightFunc(f));
		CHK(d.grid == m.grid, "grid", when, ": grid is ", d.grid);
	}
}

/// The object itself, looked up when the type P is known.
template <class P, class D>
const D& Late(const D& d) { return d; }

template <class D>
void WalkW(Gen& g, const D& d, const WModel& m, int left, size_t accepted) {
	VerifyW(g, d, m, "after the setter");
	const auto next = [&](const auto& n, const WModel& nm) {
		WalkW(g, n, nm, left - 1, accepted + 1);
		VerifyW(g, d, m, "the description a setter was called on");
	};
	if (left == 0) {
		g.nontrivial(accepted >= 2);
		return;
	}
	const auto setEdges = [&](auto p) {
		using P = decltype(p);
		if constexpr (CALLS(Cutoff(p)) || CALLS(Band(p, p))) {
			const auto e = MakeEdges<P>(g, m.edges.size());
			NoteCall(g, m.edges.size() == 1 ? "Cutoff" : "Band", e.v);
			const auto apply = [&](const auto& call) {
				WModel nm = m;
				if (Accepted(g, e, call)) {
					nm.edges.assign(e.v.begin(), e.v.end());
					next(call(), nm);
				}
				else WalkW(g, d, m, left - 1, accepted);
			};
			if constexpr (CALLS(Cutoff(p))) apply([&] { return Late<P>(d).Cutoff(e.v[0]); });
			else apply([&] { return Late<P>(d).Band(e.v[0], e.v[1]); });
		}
	};
	const auto setWindow = [&](const auto& w, const char* name) {
		if constexpr (HAS(window)) {
			g.note(".Window(", name, ")");
			WModel nm = m;
			nm.window = Sampled(w);
			next(d.Window(w), nm);
		}
	};
	std::vector<int> kinds;
	if constexpr (HAS(cutoff) || HAS(lower)) { kinds.push_back(0); kinds.push_back(1); }
	if constexpr (HAS(window)) { kinds.push_back(2); kinds.push_back(3); kinds.push_back(4); }
	if constexpr (HAS(responseFunc)) kinds.push_back(5);
	if constexpr (HAS(weightFunc)) { kinds.push_back(6); kinds.push_back(7); }
	switch (g.pick(kinds)) {
		case 0: return setEdges(float());
		case 1: return setEdges(double());
		case 2: return setWindow(windows::hamming, "hamming");
		case 3: return setWindow(windows::kaiser.alpha(g.nice(0.25, 3)), "kaiser");
		case 4: {
			BasicSignal<float, TIME_DOMAIN> s(kWin);
			uint64_t seed = g.draw(0xffff) * 31 + 5;
			for (float& x : s) x = (float)U01(seed);
			g.label("samples as window");
			return setWindow(s, "samples");
		}
		case 5:
			if constexpr (HAS(responseFunc)) {
				WModel nm = m;
				nm.k = g.nice(-1, 1);
				g.note(".Response(1+", nm.k, "f)");
				next(d.Response(Line{ nm.k }), nm);
			}
			return;
		case 6:
			if constexpr (HAS(weightFunc)) {
				WModel nm = m;
				nm.kw = g.nice(-1, 1);
				g.note(".Weight(1+", nm.kw, "f)");
				next(d.Weight(Line{ nm.kw }), nm);
			}
			return;
		default:
			if constexpr (HAS(weightFunc)) {
				WModel nm = m;
				nm.grid = g.draw(5000);
				g.note(".Grid(", nm.grid, ")");
				next(d.Grid(nm.grid), nm);
			}
	}
}

PROP("windowed and arbitrary descriptions", 60000, "two settings or more were accepted") {
	WModel m;
	m.window = Sampled(windows::hamming);
	const int len = (int)g.range(1, 6);
	switch (g.draw(6)) {
		case 0: m.edges = { 0.5L }; g.note("Fir.Lowpass.Windowed"); return WalkW(g, Fir.Lowpass.Windowed, m, len, 0);
		case 1: m.edges = { 0.5L }; g.note("Fir.Highpass.Windowed"); return WalkW(g, Fir.Highpass.Windowed, m, len, 0);
		case 2: m.edges = { 0.25L, 0.75L }; g.note("Fir.Bandpass.Windowed"); return WalkW(g, Fir.Bandpass.Windowed, m, len, 0);
		case 3: m.edges = { 0.25L, 0.75L }; g.note("Fir.Bandstop.Windowed"); return WalkW(g, Fir.Bandstop.Windowed, m, len, 0);
		case 4: g.note("Fir.Hilbert.Windowed"); return WalkW(g, Fir.Hilbert.Windowed, m, len, 0);
		case 5: g.note("Fir.Arbitrary.Windowed"); return WalkW(g, Fir.Arbitrary.Windowed, m, len, 0);
		default: g.note("Fir.Arbitrary.LeastSquares"); return WalkW(g, Fir.Arbitrary.LeastSquares, m, len, 0);
	}
}

//------------------------------------------------------------------------------ designs from equal settings

template <class T>
bool SameSystem(const DiscreteZeroPoleGain<T>& a, const DiscreteZeroPoleGain<T>& b) {
	const auto same = [](const auto& x, const auto& y) { return std::equal(x.begin(), x.end(), y.begin(), y.end()); };
	return a.gain == b.gain && same(a.zeros.real_roots(), b.zeros.real_roots()) && same(a.zeros.complex_pairs(), b.zeros.complex_pairs())
		&& same(a.poles.real_roots(), b.poles.real_roots()) && same(a.poles.complex_pairs(), b.poles.complex_pairs());
}

/// Equal up to what the placement of buffers in memory may do to rounding.
template <class T>
bool SameTaps(const std::vector<T>& a, const std::vector<T>& b) {
	ld peak = 0;
	for (const T x : a) peak = std::max(peak, std::abs((ld)x));
	for (size_t i = 0; i < a.size() && a.size() == b.size(); ++i)
		if (!(std::abs((ld)a[i] - (ld)b[i]) <= std::sqrt(Eps<T>()) * peak) && !(a[i] != a[i] && b[i] != b[i])) return false;
	return a.size() == b.size();
}

/// Designs from the same settings in two orders, one with settings that were replaced later: identical.
template <class T>
void DesignOrder(Gen& g) {
	T a = T(0.05 + 0.9 * g.unit()), b = T(0.05 + 0.9 * g.unit());
	if (b < a) std::swap(a, b);
	if (b - a < T(0.05)) { a = T(0.2); b = T(0.6); }
	const T junk = T(0.31), rp = T(g.nice(0.01, 0.3)), rs = T(g.nice(0.01, 0.3));
	const size_t order = 2 * g.size(1, 4);
	const T w1 = T(g.nice(0.5, 2)), w2 = T(g.nice(0.5, 2));
	const size_t grid = g.draw(300), taps = 2 * g.size(2, 15) + 1;
	g.note("edges ", +a, " ", +b, " ripples ", +rp, " ", +rs, " order ", order, " taps ", taps, " grid ", grid);
	g.nontrivial(true);
	const auto same = [&](const auto& x, const auto& y, const char* what) {
		g.label(what);
		CHK(SameTaps(Vec(x), Vec(y)), "order-of-setters", what, ": designs from equal settings differ");
	};
	const auto sameSys = [&](const auto& x, const auto& y, const char* what) {
		g.label(what);
		CHK(SameSystem(x, y), "order-of-setters", what, ": designs from equal settings differ");
	};
	switch (g.draw(8)) {
		case 0: sameSys(DesignFilter<T>(order, Iir.Lowpass.Chebyshev1.PassbandRipple(rp).Cutoff(a)), DesignFilter<T>(order, Iir.Lowpass.Chebyshev1.Cutoff(junk).PassbandRipple(rp).Cutoff(a)), "chebyshev 1"); break;
		case 1: sameSys(DesignFilter<T>(order, Iir.Bandpass.Chebyshev2.StopbandRipple(rs).Band(a, b)), DesignFilter<T>(order, Iir.Bandpass.Chebyshev2.Band(a, b).StopbandRipple(junk).StopbandRipple(rs)), "chebyshev 2"); break;
		case 2: sameSys(DesignFilter<T>(order, Iir.Highpass.Elliptic.StopbandRipple(rs).PassbandRipple(rp).Cutoff(a)), DesignFilter<T>(order, Iir.Highpass.Elliptic.Cutoff(a).PassbandRipple(rp).StopbandRipple(rs)), "elliptic"); break;
		case 3: sameSys(DesignFilter<T>(order, Iir.Bandstop.Elliptic.StopbandRipple(rs).Band(a, b).PassbandRipple(rp)), DesignFilter<T>(order, Iir.Bandstop.Elliptic.PassbandRipple(rp).StopbandRipple(rs).Band(a, b)), "elliptic"); break;
		case 4: sameSys(DesignFilter<T>(order, Iir.Bandpass.Butterworth.Band(junk, T(1)).Band(a, b)), DesignFilter<T>(order, Iir.Bandpass.Butterworth.Band(a, b)), "butterworth"); break;
		case 5: same(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Lowpass.LeastSquares.Cutoff(a, b).Weight(w1, T(0), w2).Grid(grid)), DesignFilter<T, TIME_DOMAIN>(taps, Fir.Lowpass.LeastSquares.Weight(w1, T(0), w2).Grid(grid).Cutoff(a, b)), "least squares"); break;
		case 6: same(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Highpass.Windowed.Cutoff(a).Window(windows::blackman)), DesignFilter<T, TIME_DOMAIN>(taps, Fir.Highpass.Windowed.Window(windows::hamming).Window(windows::blackman).Cutoff(junk).Cutoff(a)), "windowed split"); break;
		case 7: same(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Bandpass.Windowed.Band(a, b).Window(windows::blackman)), DesignFilter<T, TIME_DOMAIN>(taps, Fir.Bandpass.Windowed.Window(windows::blackman).Band(junk, T(1)).Band(a, b)), "windowed band"); break;
		default: same(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Hilbert.LeastSquares.TransitionWidth(a / 2).TransitionWeight(w1).Grid(grid)), DesignFilter<T, TIME_DOMAIN>(taps, Fir.Hilbert.LeastSquares.TransitionWeight(w1).Grid(1).TransitionWidth(a / 2).Grid(grid)), "least squares hilbert");
	}
}
PROP("designs from equal settings", 4000, "every case compares two designs") {
	if (g.flag()) DesignOrder<double>(g);
	else DesignOrder<float>(g);
}

PROP("normalized frequency", 20000, "frequency and sample rate non-zero") {
	const double f = g.nice(-1e5, 1e5), rate = g.flag() ? (double)g.range(1, 192000) : g.nice(0.001, 192000);
	g.note("frequency ", f, " rate ", rate);
	g.nontrivial(f != 0);
	NEAR("normalized", NormalizedFrequency(f, rate), 2 * (ld)f / rate, 4 * Eps<double>() * std::abs(2 * (ld)f / rate), "double");
	const float ff = (float)f;
	NEAR("normalized", NormalizedFrequency(ff, rate), 2 * (ld)ff / rate, 4 * Eps<float>() * std::abs(2 * (ld)ff / rate), "float over double");
	const long ri = std::max(1L, std::lround(rate));
	NEAR("normalized", NormalizedFrequency(f, ri), 2 * (ld)f / ri, 4 * Eps<double>() * std::abs(2 * (ld)f / ri), "double over integer");
	static_assert(std::is_same_v<decltype(NormalizedFrequency(ff, rate)), float>);
}
