// P35: what a call returns depends on its arguments only: not on the calls before it and not on other threads.
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <functional>
#include <limits>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
using namespace h;

using Result = std::vector<double>;
using Job = std::function<Result()>;

template <class V>
void Put(Result& r, const V& v) {
	if constexpr (std::is_arithmetic_v<V>) r.push_back((double)v);
	else if constexpr (is_cplx_v<V>) {
		r.push_back((double)v.real());
		r.push_back((double)v.imag());
	}
	else {
		r.push_back((double)v.size());
		for (auto it = v.begin(); it != v.end(); ++it) Put(r, *it);
	}
}
template <class T>
void PutPoly(Result& r, const FactoredPolynomial<T>& p) {
	Put(r, p.real_roots());
	Put(r, p.complex_pairs());
}
template <class T>
void PutSystem(Result& r, const DiscreteZeroPoleGain<T>& s) {
	Put(r, s.gain);
	PutPoly(r, s.zeros);
	PutPoly(r, s.poles);
}
template <class... V>
Result Pack(const V&... v) {
	Result r;
	(Put(r, v), ...);
	return r;
}
bool Equal(const Result& a, const Result& b, size_t& at) {
	for (at = 0; at < std::min(a.size(), b.size()); ++at)
		if (!Same(a[at], b[at])) return false;
	return a.size() == b.size();
}

/// Objects that every job of a case may read.
template <class T>
struct Shared {
	std::shared_ptr<const BasicSignal<T, TIME_DOMAIN>> x, f;
	std::shared_ptr<const Signal<std::complex<T>>> z;
	std::shared_ptr<const Spectrum<std::complex<T>>> spectrum;
	std::shared_ptr<const PolyphaseFilter<T, TIME_DOMAIN>> polyphase;
	std::shared_ptr<const DiscreteZeroPoleGain<T>> system;
	std::shared_ptr<const CascadedBiquad<T>> cascade;
	std::shared_ptr<const DiscreteTransferFunction<T>> transfer;
};
template <class T>
Shared<T> MakeShared(Gen& g) {
	Shared<T> s;
	const size_t n = g.size(2, 80), taps = g.size(1, 40);
	s.x = std::make_shared<BasicSignal<T, TIME_DOMAIN>>(Sig(Data<T>(g, n, STYLE_UNIFORM)));
	s.f = std::make_shared<BasicSignal<T, TIME_DOMAIN>>(Sig(Data<T>(g, taps, STYLE_UNIFORM)));
	s.z = std::make_shared<Signal<std::complex<T>>>(Sig(Data<std::complex<T>>(g, n, STYLE_UNIFORM)));
	const auto d = Data<std::complex<T>>(g, n, STYLE_UNIFORM);
	s.spectrum = std::make_shared<Spectrum<std::complex<T>>>(d.begin(), d.end());
	s.polyphase = std::make_shared<PolyphaseFilter<T, TIME_DOMAIN>>(PolyphaseDecompose(*s.f, g.size(1, 5)));
	DiscreteZeroPoleGain<T> zpk = DesignFilter<T>(g.size(1, 5), Iir.Lowpass.Butterworth.Cutoff(T(g.nice(0.2, 0.8))));
	s.cascade = std::make_shared<CascadedBiquad<T>>(zpk);
	s.transfer = std::make_shared<DiscreteTransferFunction<T>>(zpk);
	s.system = std::make_shared<DiscreteZeroPoleGain<T>>(std::move(zpk));
	g.note(TypeName<T>(), " shared signal ", n, " taps ", taps, "; jobs ");
	return s;
}

/// One call of the library with its own arguments. Everything is drawn here; running it draws nothing.
template <class T>
Job MakeJob(Gen& g, const Shared<T>& s) {
	using C = std::complex<T>;
	const int kind = (int)g.draw(23);
	// Few different sizes in a case meet the same remembered plan, many make the memory overflow.
	const size_t n = g.flag() ? (size_t)g.pick({ 4, 5, 12, 31 }) : g.size(1, g.chance(1, 3) ? 220 : 40);
	const double a = g.nice(0.0625, 0.9375), b = g.nice(0.0625, 0.9375);
	const T lo = T(std::min(a, b)), hi = T(std::max(a, b) + 0.03125);
	const uint64_t seed = g.draw(0xffff);
	const int variant = (int)g.draw(3);
	g.note(kind, "/", variant, "(", n, ",", a, ",", b, ",", seed, ") ");
	g.label("job " + std::to_string(kind));
	const auto reals = [seed](size_t count) {
		uint64_t r = seed * 77 + 5;
		BasicSignal<T, TIME_DOMAIN> v(count);
		for (auto& e : v) e = T(2 * U01(r) - 1);
		return v;
	};
	const auto complexes = [seed](size_t count) {
		uint64_t r = seed * 91 + 3;
		Signal<C> v(count);
		for (auto& e : v) e = C(T(2 * U01(r) - 1), T(2 * U01(r) - 1));
		return v;
	};
	switch (kind) {
		case 0: return [=] { return Pack(Fft(reals(n), FFT_HALF), Fft(reals(n), FFT_FULL)); };
		case 1: return [=] { return Pack(Fft(complexes(n)), Fft(*s.z)); };
		case 2: return [=] { return Pack(Ifft(Fft(reals(n), FFT_HALF), FFT_HALF, n % 2 == 0), Ifft(Fft(complexes(n)))); };
		case 3: return [=] { return Pack(Fft(*s.x, FFT_HALF), Ifft(*s.spectrum)); };
		case 4:
			return [=] {
				const auto [sn, cn, dn] = EllipticSNCNDN(T(4 * a - 2), T(b));
				return Pack(EllipticK(T(b)), EllipticAM(T(4 * a - 2), T(b)), sn, cn, dn);
			};
		case 5:
			return [=] {
				Result r;
				for (int i = 0; i < 8; ++i) {
					const auto [sn, cn, dn] = EllipticSNCNDN(C(T(a * i), T(0.1 * i)), T(b));
					Put(r, sn);
					Put(r, cn);
					Put(r, dn);
				}
				return r;
			};
		case 6:
			return [=] {
				const size_t order = variant >= 2 ? 2 + n % 4 * 2 : 1 + n % 8;
				Result r;
				switch (variant) {
					case 0: PutSystem(r, DesignFilter<T>(order, Iir.Lowpass.Elliptic.Cutoff(lo).PassbandRipple(T(0.1)).StopbandRipple(T(0.05)))); break;
					case 1: PutSystem(r, DesignFilter<T>(order, Iir.Highpass.Chebyshev1.Cutoff(lo).PassbandRipple(T(0.1)))); break;
					case 2: PutSystem(r, DesignFilter<T>(order, Iir.Bandpass.Butterworth.Band(lo, hi))); break;
					default: PutSystem(r, DesignFilter<T>(order, Iir.Bandstop.Chebyshev2.Band(lo, hi).StopbandRipple(T(0.05)))); break;
				}
				return r;
			};
		case 7:
			return [=] {
				const size_t taps = (n % 40) * 2 + 3;
				switch (variant) {
					case 0: return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Lowpass.Windowed.Cutoff(lo).Window(windows::kaiser.alpha(2.0f))));
					case 1: return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Bandpass.Windowed.Band(lo, hi).Window(windows::blackman)));
					case 2: return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Hilbert.Windowed.Window(windows::hamming)));
					default: return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Highpass.Windowed.Cutoff(hi).Window(windows::dolphChebyshev.attenuation(0.01f))));
				}
			};
		case 8:
			return [=] {
				const size_t taps = (n % 12) * 2 + 3;
				if (variant % 2) return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Lowpass.LeastSquares.Cutoff(float(lo), float(hi))));
				return Pack(DesignFilter<T, TIME_DOMAIN>(taps, Fir.Arbitrary.LeastSquares.Response([=](auto f) { return f < lo ? decltype(f)(1) : decltype(f)(0); })));
			};
		case 9: return [=] { return Pack(Convolution(reals(n), *s.f, CONV_FULL), Convolution(*s.x, *s.f, CONV_CENTRAL)); };
		case 10: return [=] { return Pack(OverlapAdd(*s.x, *s.f, CONV_FULL), OverlapAdd(reals(n), *s.f, CONV_FULL, 2 * std::max(n, s.f->size()) + variant)); };
		case 11: return [=] { return Pack(OverlapAdd(complexes(n), *s.f, CONV_FULL), OverlapAdd(*s.z, complexes(n), CONV_FULL)); };
		case 12: return [=] { return Pack(Sum(*s.x), Mean(*s.z), Norm(*s.x), Max(*s.x), Variance(*s.x), Skewness(*s.x), DotProduct(*s.x, *s.x), Sum(reals(n)), RootMeanSquare(reals(n))); };
		case 13:
			return [=] {
				const auto v = reals(n);
				return Pack(v + T(a), v * v - v, Exp(v), Abs(complexes(n)), Sin(*s.x), Pow(Abs(*s.x), T(b)), Arg(*s.z), *s.x * T(b));
			};
		case 14: return [=] { return Pack(Resample(*s.x, *s.polyphase, { int64_t(1 + seed % 7), int64_t(1 + variant) }, CONV_FULL)); };
		case 15: return [=] { return Pack(Interpolate(*s.x, *s.polyphase, 0, s.x->size()), PolyphaseNormalized(*s.polyphase).Buffer()); };
		case 16:
			return [=] {
				Signal<T> w(n + 2);
				switch (variant) {
					case 0: KaiserWindow(w, T(4 * a)); break;
					case 1: DolphChebyshevWindow(w, T(0.001 + 0.1 * a)); break;
					case 2: GaussianWindow(w, T(a)); break;
					default: FlatTopWindow(w); break;
				}
				return Pack(w);
			};
		case 17: return [=] { return Pack(SineWave<T, TIME_DOMAIN>(n, 1000, 300 * a, b), SawtoothChirp<T, TIME_DOMAIN>(n, 1000, 100 * a, 200 * b, 0.25, a), LogSpace<T, TIME_DOMAIN>(T(a), T(b), n + 2)); };
		case 18:
			return [=] {
				CascadedForm<T> state(s.cascade->order());
				DirectFormII<T> direct(s.transfer->order());
				return Pack(Filter(*s.x, *s.cascade, state), Filter(reals(n), *s.transfer, direct));
			};
		case 19:
			return [=] {
				DirectFormI<T> state(s.transfer->order());
				BasicSignal<T, TIME_DOMAIN> history(s.f->size() - 1, T(0));
				return Pack(Filter(*s.x, *s.transfer, state), variant % 2 ? Filter(*s.x, *s.f, history, FILTER_OLA) : Filter(*s.x, *s.f, history, FILTER_CONV), history);
			};
		case 20:
			return [=] {
				Result r;
				const auto [amplitude, phase] = variant == 0 ? FrequencyResponse(*s.f, 64) : variant == 1 ? FrequencyResponse(*s.system) : variant == 2 ? FrequencyResponse(*s.cascade) : FrequencyResponse(*s.transfer);
				Put(r, amplitude);
				Put(r, phase);
				Put(r, MeasureFilter(amplitude).index());
				return r;
			};
		case 21: {
			return [=] {
				const FactoredPolynomial<T> p({ C(T(a), 0), C(T(b), T(a)), C(T(b), T(-a)) });
				const auto e = ExpandPolynomial(p);
				Result r = Pack(p(C(T(0.5), T(b))), e(T(0.25)), e.coefficients());
				Put(r, Bisect([&](double v) { return v - a; }, 0.0, 1.0));
				Put(r, NewtonRaphson([&](double v) { return v * v - b; }, [](double v) { return 2 * v; }, 1.0));
				return r;
			};
		}
		case 22: return [=] { return Pack(FftShift(*s.spectrum), IfftShift(*s.z), Decimate(*s.x, 1 + n % 5), Expand(*s.x, 1 + n % 3)); };
		default:
			return [=] {
				ContinuousZeroPoleGain<T> c;
				c.gain = T(a);
				c.poles = FactoredPolynomial<T>({ C(-T(a), 0), C(-T(b), T(1)), C(-T(b), -T(1)) });
				Result r;
				PutSystem(r, BilinearTransform(c, T(4)));
				PutSystem(r, Halfband2Bandpass(*s.system, lo, hi));
				PutSystem(r, Halfband2Highpass(*s.system, lo));
				return r;
			};
	}
}

template <class T>
void History(Gen& g) {
	const auto shared = MakeShared<T>(g);
	std::vector<Job> jobs(g.size(1, g.chance(1, 3) ? 40 : 8));
	for (auto& j : jobs) j = MakeJob(g, shared);
	std::vector<Result> first;
	for (auto& j : jobs) first.push_back(j());
	const size_t repeats = g.size(1, 2 * jobs.size());
	g.note(" repeats ", repeats);
	g.nontrivial(jobs.size() >= 3 && repeats >= 3);
	for (size_t i = 0; i < repeats; ++i) {
		const size_t k = g.draw(jobs.size() - 1);
		size_t at;
		const auto again = jobs[k]();
		CHK(Equal(first[k], again, at), "history", "job number ", k, " repeated gives ", at < again.size() ? again[at] : NAN, " instead of ", at < first[k].size() ? first[k][at] : NAN, " at ", at, " of ", first[k].size());
	}
}

/// Runs the functions in as many threads, released together.
inline void Together(const std::vector<std::function<void()>>& work) {
	std::atomic<size_t> ready{ 0 };
	std::vector<std::thread> threads;
	for (auto& w : work)
		threads.emplace_back([&] {
			ready.fetch_add(1);
			while (ready.load() < work.size()) std::this_thread::yield();
			w();
		});
	for (auto& t : threads) t.join();
}

template <class T>
void Threads(Gen& g) {
	const auto shared = MakeShared<T>(g);
	const size_t count = g.range<size_t>(2, 5);
	std::vector<std::vector<Job>> jobs(count);
	std::vector<std::vector<Result>> want(count), got(count);
	std::vector<std::vector<int>> failed(count);
	size_t total = 0;
	for (auto& list : jobs) {
		g.note("| ");
		list.resize(g.size(1, 4));
		total += list.size();
		for (auto& j : list) j = MakeJob(g, shared);
	}
	// The same call in several threads at once.
	if (g.chance(1, 3)) {
		g.note(" same jobs everywhere");
		for (auto& list : jobs) list = jobs[0];
	}
	const bool before = g.flag(); // alone first, or in the crowd first
	g.note(before ? " alone first" : " together first");
	g.nontrivial(total >= 4);
	const auto alone = [&] {
		for (size_t t = 0; t < count; ++t) {
			want[t].clear();
			for (auto& j : jobs[t]) want[t].push_back(j());
		}
	};
	if (before) alone();
	const size_t rounds = 1 + g.draw(3);
	std::vector<std::function<void()>> work;
	for (size_t t = 0; t < count; ++t)
		work.push_back([&, t] {
			for (size_t r = 0; r < rounds; ++r)
				for (auto& j : jobs[t]) {
					try {
						got[t].push_back(j());
					}
					catch (const std::exception& e) {
						got[t].push_back({ -1e300 });
					}
				}
		});
	Together(work);
	if (!before) alone();
	for (size_t t = 0; t < count; ++t)
		for (size_t i = 0; i < got[t].size(); ++i) {
			const auto& w = want[t][i % jobs[t].size()];
			size_t at;
			CHK(Equal(w, got[t][i], at), "concurrent", "thread ", t, " call ", i, ": ", at < got[t][i].size() ? got[t][i][at] : NAN, " instead of ", at < w.size() ? w[at] : NAN, " at ", at, " of ", w.size());
		}
}

/// Threads fill neighbouring windows of one signal.
template <class T>
void Neighbours(Gen& g) {
	const size_t count = g.range<size_t>(2, 5);
	std::vector<size_t> at{ 0 };
	for (size_t i = 0; i < count; ++i) at.push_back(at.back() + g.size(0, 40));
	const size_t n = at.back();
	const auto x = Sig(Data<T>(g, n, STYLE_UNIFORM)), y = Sig(Data<T>(g, n, STYLE_UNIFORM)), f = Sig(Data<T>(g, 1 + g.draw(5), STYLE_UNIFORM));
	const auto start = Data<T>(g, n, STYLE_UNIFORM);
	std::vector<int> kinds;
	for (size_t i = 0; i < count; ++i) kinds.push_back((int)g.draw(8));
	g.note(TypeName<T>(), " windows at ", Show(at), " operations ", Show(kinds));
	g.nontrivial(n >= 8);
	const auto fill = [&](BasicSignal<T, TIME_DOMAIN>& out, size_t i) {
		const size_t from = at[i], len = at[i + 1] - at[i];
		auto o = AsView(out).subsignal(from, len);
		const auto a = AsConstView(x).subsignal(from, len), b = AsConstView(y).subsignal(from, len);
		switch (kinds[i]) {
			case 0: Add(o, a, b); break;
			case 1: o *= a; break;
			case 2: Multiply(o, a, T(3)); break;
			case 3: Exp(o, a); break;
			case 4: {
				// The window of the convolution that belongs here.
				if (len) Convolution(o, AsConstView(x), AsConstView(f), from);
				break;
			}
			case 5:
				if (len) Convolution(o, AsConstView(x), AsConstView(f), from, false);
				break;
			case 6:
				if (len) OverlapAdd(o, AsConstView(x), AsConstView(f), from);
				break;
			case 7: {
				if constexpr (!is_cplx_v<T>) LinSpace(o, T(0), T(1), true);
				else FftShift(o, a);
				break;
			}
			default: {
				BasicSignal<T, TIME_DOMAIN> state(f.size() - 1, T(0));
				if (len) Filter(o, a, f, state, FILTER_CONV);
				break;
			}
		}
	};
	BasicSignal<T, TIME_DOMAIN> want(start.begin(), start.end()), got = want;
	for (size_t i = 0; i < count; ++i) fill(want, i);
	std::vector<std::function<void()>> work;
	for (size_t i = 0; i < count; ++i) work.push_back([&, i] { fill(got, i); });
	Together(work);
	for (size_t i = 0; i < n; ++i) CHK(Same(got[i], want[i]), "concurrent", "sample ", i, ": ", CStr(ToC(got[i])), " instead of ", CStr(ToC(want[i])));
}

/// Transforms of many related lengths, one after the other, against the transform of an impulse.
template <class T>
void Lengths(Gen& g) {
	using C = std::complex<T>;
	std::vector<size_t> lengths;
	const size_t base = g.size(1, 300);
	const size_t count = g.size(2, 24);
	while (lengths.size() < count) {
		const size_t previous = lengths.empty() || g.chance(1, 2) ? base : lengths[g.draw(lengths.size() - 1)];
		size_t n = previous;
		switch (g.draw(5)) {
			case 0: break;
			case 1: n += (size_t)1 << g.draw(g.chance(1, 4) ? 17 : 10); break;
			case 2: n = previous * (1 + g.draw(7)); break;
			case 3: n = previous + 1; break;
			case 4: n = previous > 1 ? previous - 1 : 1; break;
			default: n = g.size(1, 600); break;
		}
		lengths.push_back(n <= 140000 ? n : base);
	}
	g.note(TypeName<T>(), " lengths ", Show(lengths));
	g.nontrivial(count >= 3);
	for (size_t i = 0; i < count; ++i) {
		const size_t n = lengths[i], at = g.draw(n - 1), kind = g.draw(3);
		const double tolerance = 64 * std::numeric_limits<T>::epsilon() * (2 + std::log2(double(n)));
		const auto turn = [&](size_t k) { return std::polar(1.0, -2 * double(PI) * double((uint64_t)k * at % n) / double(n)); };
		g.note(" ", n, kind == 0 ? "c" : kind == 1 ? "r" : kind == 2 ? "h" : "i", at);
		const auto check = [&](const auto& z) {
			for (size_t k = 0; k < z.size(); ++k)
				if (!(std::abs(std::complex<double>(z[k]) - turn(k)) <= tolerance)) g.fail("history", "transform ", i, " of length ", n, ", bin ", k, ": got ", CStr(ToC(z[k])), " want ", CStr(ToC(turn(k))));
			g.m_checks += z.size();
		};
		if (kind == 0) {
			Signal<C> x(n, C(0));
			x[at] = C(1);
			const auto z = Fft(x);
			CHK(z.size() == n, "size", "got ", z.size(), " want ", n);
			check(z);
		}
		else if (kind <= 2) {
			Signal<T> x(n, T(0));
			x[at] = T(1);
			if (kind == 1) check(Fft(x, FFT_FULL));
			else check(Fft(x, FFT_HALF));
		}
		else {
			Spectrum<C> z(n);
			for (size_t k = 0; k < n; ++k) z[k] = C(turn(k));
			const auto x = Ifft(z);
			for (size_t k = 0; k < n; ++k)
				if (!(std::abs(std::complex<double>(x[k]) - std::complex<double>(k == at ? 1 : 0)) <= tolerance)) g.fail("history", "inverse ", i, " of length ", n, ", sample ", k, ": ", CStr(ToC(x[k])));
			g.m_checks += n;
		}
	}
}

PROP("history", 4000, "1..40 calls from 24 kinds (transforms, elliptic functions, designs, filters, statistics, generators, ...), then drawn repeats in another order, equal bit for bit; non-trivial = 3 calls and 3 repeats") {
	if (g.flag()) History<double>(g);
	else History<float>(g);
}
PROP("threads", 3000, "2..5 threads of 1..4 calls each on shared read-only objects, run alone before or after, equal bit for bit; under ThreadSanitizer every unordered access; non-trivial = 4 calls") {
	if (g.flag()) Threads<double>(g);
	else Threads<float>(g);
}
PROP("neighbours", 3000, "2..5 threads writing neighbouring windows of one signal by 9 kinds of operation; non-trivial = 8 samples") {
	WithType<double, float, cf, cd>(g, [&](auto t) { Neighbours<typename decltype(t)::type>(g); });
}
PROP("lengths", 1500, "2..24 transforms (complex, real full/half, inverse) of lengths that differ by powers of two, factors or one, each of an impulse; non-trivial = 3 transforms") {
	if (g.flag()) Lengths<double>(g);
	else Lengths<float>(g);
}
