// P29: waveform generators.
#include "common.hpp"
#include <dspbb/Generators/Waveforms.hpp>
using namespace h;

enum eWave { SINE, SAWTOOTH, PWM, SQUARE };

/// Waveform at a phase in turns (any real number), and how it may differ when the phase is off by up to err turns.
struct Wave {
	eWave kind;
	ld shape; // tilt or fill

	ld at(ld turns) const {
		const ld u = turns - std::floor(turns);
		switch (kind) {
			case SINE: return std::sin(2 * PI * u);
			case SAWTOOTH:
				if (u <= shape) return shape == 0 ? 1 : 2 * u / shape - 1;
				return 1 - 2 * (u - shape) / (1 - shape);
			case PWM: return u < shape || shape >= 1 ? 1 : 0;
			default: return u < 0.5L ? 1 : -1;
		}
	}
	/// Whether a value is what the wave takes somewhere within err turns (closed at jumps, either limit).
	bool matches(ld turns, ld err, ld value, ld tol) const {
		if (std::abs(value - at(turns)) <= tol) return true;
		if (err == 0) return false;
		// The wave is monotone between its knots: compare with the range it takes around the phase.
		const ld u = turns - std::floor(turns);
		ld lo = std::min(at(turns - err), at(turns + err)), hi = std::max(at(turns - err), at(turns + err));
		const auto touch = [&](ld knot, ld a, ld b) {
			const ld d = std::abs(u - knot), dist = std::min(d, 1 - d);
			if (dist <= err) lo = std::min({ lo, a, b }), hi = std::max({ hi, a, b });
		};
		switch (kind) {
			case SINE: lo = at(turns) - 2 * PI * err, hi = at(turns) + 2 * PI * err; break;
			case SAWTOOTH:
				if (shape == 0 || shape == 1) {
					const ld d = std::min(u, 1 - u);
					if (d <= err) return std::abs(std::abs(value) - 1) <= tol + 4 * err; // the jump
				}
				else touch(0, -1, -1), touch(shape, 1, 1);
				break;
			case PWM:
				if (shape > 0 && shape < 1) touch(0, 0, 1), touch(shape, 0, 1);
				break;
			default: touch(0, -1, 1), touch(0.5L, -1, 1); break;
		}
		if (kind == PWM || kind == SQUARE) return std::abs(value - lo) <= tol || std::abs(value - hi) <= tol;
		return value >= lo - tol && value <= hi + tol;
	}
	/// Close to a jump or corner, where two correctly rounded phases may disagree.
	bool delicate(ld turns, ld err) const {
		const ld u = turns - std::floor(turns);
		const auto close = [&](ld k) { const ld d = std::abs(u - k); return std::min(d, 1 - d) <= err; };
		return kind != SINE && (close(0) || close(kind == SQUARE ? 0.5L : shape));
	}
};

struct Setup {
	Wave wave;
	bool chirp;
	size_t n;
	uint64_t rate;
	double f0, f1, phase;
	bool defaultPhase, defaultShape;

	explicit Setup(Gen& g) {
		wave.kind = (eWave)g.draw(3);
		chirp = g.flag();
		n = g.length(0, g.chance(1, 4) ? 400 : 40, 180);
		rate = g.flag() ? g.pick({ 44100, 100, 16, 8, 1, 48000 }) : 1 + g.draw(100000);
		const auto freq = [&]() -> double {
			double f = 0;
			switch (g.draw(3)) {
				case 0: f = double(rate) * g.pick({ 0.25, 0.125, 0.5, 0.0, 1.0, 0.0625, 2.0, 0.75 }); break;
				case 1: f = double(rate) * g.unit(); break;
				case 2: f = double(g.draw(20000)); break;
				default: f = double(rate) * 0.01 * g.unit(); break;
			}
			return g.chance(1, 5) ? -f : f;
		};
		f0 = freq();
		f1 = freq();
		const double turn = 2.0 * pi_v<double>;
		switch (g.draw(5)) {
			case 0: phase = 0; break;
			case 5: phase = -turn * std::pow(10.0, -(double)g.range(8, 25)); break; // the last moment of a period
			case 1: phase = turn * g.unit(); break;
			case 2: phase = -turn * g.unit(); break;
			case 3: phase = turn * (double)g.sym(1000) * 0.25; break;
			default: phase = (2 * g.unit() - 1) * 2000; break;
		}
		const bool shaped = wave.kind == SAWTOOTH || wave.kind == PWM;
		const double shape = g.flag() ? g.pick({ 0.5, 1.0, 0.0, 0.25, 0.75 }) : g.unit();
		wave.shape = shape;
		defaultPhase = phase == 0 && g.flag();
		defaultShape = shaped && g.chance(1, 4);
		if (defaultPhase && !defaultShape && shaped) defaultPhase = false;
		if (defaultShape) wave.shape = wave.kind == SAWTOOTH ? 1.0 : 0.5;
		static const char* names[] = { "sine", "sawtooth", "pwm", "square" };
		g.note(names[wave.kind], chirp ? " chirp" : " tone", " length ", n, " rate ", rate, " frequency ", f0, chirp ? "->" : "", chirp ? f1 : 0.0, " phase ", phase, " shape ", (double)wave.shape);
		g.label(std::string(names[wave.kind]) + (chirp ? " chirp" : " tone"));
		g.labelIf(phase < 0 || f0 < 0, "negative phase");
		g.nontrivial(n >= 3 && f0 != 0);
	}
	ld turns(size_t i) const {
		const ld t = (ld)i / (ld)rate;
		if (!chirp) return t * f0 + phase / (2 * PI);
		const ld length = (ld)n / (ld)rate;
		return t * f0 + t * t / 2 * ((ld)f1 - f0) / length + phase / (2 * PI);
	}
	/// Rounding of the phase, in turns, for double evaluation.
	ld err(size_t i) const {
		const ld t = (ld)i / (ld)rate;
		const ld mag = std::abs(t * f0) + (chirp ? std::abs(t * f0) + std::abs(t * f1) : 0) + std::abs(phase / (2 * PI));
		// Below zero, the distance from the turn before is rounded too.
		return (ld)std::numeric_limits<double>::epsilon() * (8 * mag + (turns(i) < 0 ? 2 : 0));
	}
};

template <class T>
std::vector<T> Run(Gen& g, const Setup& s, double phase, int form) {
	// Every trailing argument that has its default value may be left out.
	const bool noPhase = s.defaultPhase && phase == 0;
	const double shape = (double)s.wave.shape;
	const auto call = [&](auto f) {
		const bool shaped = s.wave.kind == SAWTOOTH || s.wave.kind == PWM;
		if (noPhase && (!shaped || s.defaultShape)) return f();
		if (!shaped || s.defaultShape) return f(phase);
		return f(phase, shape);
	};
	const auto into = [&](auto& out) {
		switch (s.wave.kind) {
#define INTO(NAME, MAX, WAVE, CHIRP)                                                                      \
	case NAME:                                                                                            \
		call([&](auto... a) {                                                                             \
			if constexpr (sizeof...(a) <= MAX) {                                                          \
				if (s.chirp) CHIRP(out, s.rate, s.f0, s.f1, a...);                                        \
				else WAVE(out, s.rate, s.f0, a...);                                                       \
			}                                                                                             \
		});                                                                                               \
		break;
			INTO(SINE, 1, SineWave, SineChirp)
			INTO(SAWTOOTH, 2, SawtoothWave, SawtoothChirp)
			INTO(PWM, 2, PwmWave, PwmChirp)
			default: INTO(SQUARE, 1, SquareWave, SquareChirp)
		}
	};
	const auto returning = [&](auto domain) -> std::vector<T> {
		constexpr eSignalDomain D = decltype(domain)::value;
		switch (s.wave.kind) {
#define RETURNING(NAME, MAX, WAVE, CHIRP)                                                                 \
	case NAME:                                                                                            \
		return call([&](auto... a) -> std::vector<T> {                                                    \
			if constexpr (sizeof...(a) <= MAX) {                                                          \
				if (s.chirp) return Vec(CHIRP<T, D>(s.n, s.rate, s.f0, s.f1, a...));                      \
				return Vec(WAVE<T, D>(s.n, s.rate, s.f0, a...));                                          \
			}                                                                                             \
			return {};                                                                                    \
		});
			RETURNING(SINE, 1, SineWave, SineChirp)
			RETURNING(SAWTOOTH, 2, SawtoothWave, SawtoothChirp)
			RETURNING(PWM, 2, PwmWave, PwmChirp)
			default: RETURNING(SQUARE, 1, SquareWave, SquareChirp)
		}
	};
	using R = real_of_t<T>;
	switch (form) {
		case 0: return returning(std::integral_constant<eSignalDomain, TIME_DOMAIN>{});
		case 1: return returning(std::integral_constant<eSignalDomain, FREQUENCY_DOMAIN>{});
		case 2: {
			BasicSignal<T, TIME_DOMAIN> out(s.n, T(R(7)));
			into(out);
			return Vec(out);
		}
		default: {
			Guarded<T> out(std::vector<T>(s.n, T(R(7))), g.draw(3), 5);
			auto v = out.view();
			into(v);
			CHK(out.padIntact(), "stray-write", "");
			return out.vec();
		}
	}
}

template <class T>
void Waves(Gen& g) {
	const Setup s(g);
	const int form = (int)g.draw(3);
	const auto got = Run<T>(g, s, s.phase, form);
	CHK(got.size() == s.n, "size", got.size());
	const ld tol = 4 * std::max(Eps<T>(), (ld)std::numeric_limits<double>::epsilon());
	const auto value = [](const T& v) { return ToC(v).real(); };
	for (size_t i = 0; i < s.n; ++i) {
		CHK(ToC(got[i]).imag() == 0, "imaginary part", "sample ", i);
		CHK(value(got[i]) <= 1 && value(got[i]) >= (s.wave.kind == PWM ? 0 : -1), "range", "sample ", i, " is ", (double)value(got[i]));
		CHK(s.wave.matches(s.turns(i), s.err(i), value(got[i]), tol), "waveform", "sample ", i, " is ", (double)value(got[i]), " instead of ", (double)s.wave.at(s.turns(i)), " at ", (double)s.turns(i), " turns");
	}
	// Whole turns of phase.
	const long turns = g.sym(5);
	const double shifted = s.phase + 2.0 * pi_v<double> * (double)turns;
	const auto again = Run<T>(g, s, shifted, (int)g.draw(3));
	for (size_t i = 0; i < s.n; ++i) {
		const ld err = 2 * s.err(i) + 8 * std::numeric_limits<double>::epsilon() * (ld)std::abs(turns);
		if (s.wave.delicate(s.turns(i), err)) continue;
		ld slope = 2 * PI;
		if (s.wave.kind == SAWTOOTH) slope = 2 / std::max(1e-12L, std::min(s.wave.shape > 0 ? s.wave.shape : 1.0L, s.wave.shape < 1 ? 1 - s.wave.shape : 1.0L));
		if (s.wave.kind == PWM || s.wave.kind == SQUARE) slope = 0;
		NEAR("whole turns", again[i], ToC(got[i]), 2 * tol + 2 * slope * err, "sample ", i, " with ", turns, " more turns");
	}
}
PROP("waveforms", 40000, "sine, sawtooth, PWM, square tones and chirps, length 0..400, rates 1..100000, positive and negative frequencies and phases of many turns, tilt/fill in [0,1], four call forms, float/double/complex; every sample against the waveform at the exact phase, ranges, whole turns of phase; non-trivial = 3 samples or more and a non-zero frequency") {
	WithType<double, float, cf, cd>(g, [&](auto t) { Waves<typename decltype(t)::type>(g); });
}
