// Shared generators and oracles for the DSPBB harnesses.
#pragma once

#include "pbt.hpp"

#include <complex>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

namespace h {

using namespace dspbb;
using pbt::Gen;

using cf = std::complex<float>;
using cd = std::complex<double>;
using ld = long double;
using cld = std::complex<long double>;

constexpr ld PI = 3.141592653589793238462643383279502884L;

template <class T>
struct is_cplx : std::false_type {};
template <class T>
struct is_cplx<std::complex<T>> : std::true_type {};
template <class T>
constexpr bool is_cplx_v = is_cplx<std::remove_cv_t<T>>::value;
template <class T>
struct real_of {
	using type = T;
};
template <class T>
struct real_of<std::complex<T>> {
	using type = T;
};
template <class T>
using real_of_t = typename real_of<std::remove_cv_t<T>>::type;

template <class T>
const char* TypeName() {
	using U = std::remove_cv_t<T>;
	if constexpr (std::is_same_v<U, float>) return "float";
	else if constexpr (std::is_same_v<U, double>) return "double";
	else if constexpr (std::is_same_v<U, cf>) return "cfloat";
	else if constexpr (std::is_same_v<U, cd>) return "cdouble";
	else if constexpr (std::is_same_v<U, int8_t>) return "int8";
	else if constexpr (std::is_same_v<U, int16_t>) return "int16";
	else if constexpr (std::is_same_v<U, int32_t>) return "int32";
	else if constexpr (std::is_same_v<U, int64_t>) return "int64";
	else if constexpr (std::is_same_v<U, uint8_t>) return "uint8";
	else if constexpr (std::is_same_v<U, uint32_t>) return "uint32";
	else return "other";
}

/// Unit roundoff of the (real) sample type; 0 for integers.
template <class T>
ld Eps() {
	using R = real_of_t<T>;
	if constexpr (std::is_floating_point_v<R>) {
		return (ld)std::numeric_limits<R>::epsilon();
	}
	else {
		return 0.0L;
	}
}

template <class T>
cld ToC(const T& v) {
	if constexpr (is_cplx_v<T>) {
		return { (ld)v.real(), (ld)v.imag() };
	}
	else {
		return { (ld)v, 0.0L };
	}
}

inline ld AbsC(const cld& v) { return std::hypot(v.real(), v.imag()); }
template <class T>
ld AbsL(const T& v) { return AbsC(ToC(v)); }
template <class T>
bool Finite(const T& v) {
	const cld c = ToC(v);
	return std::isfinite((double)c.real()) && std::isfinite((double)c.imag());
}

/// Bitwise-style equality that treats all NaN as equal.
template <class T>
bool Same(const T& a, const T& b) {
	if constexpr (is_cplx_v<T>) {
		return Same(a.real(), b.real()) && Same(a.imag(), b.imag());
	}
	else if constexpr (std::is_floating_point_v<T>) {
		return a == b || (a != a && b != b);
	}
	else {
		return a == b;
	}
}

inline std::string CStr(const cld& v) {
	std::ostringstream s;
	s.precision(12);
	s << (double)v.real();
	if (v.imag() != 0) {
		s << (v.imag() < 0 ? "" : "+") << (double)v.imag() << "i";
	}
	return s.str();
}

template <class V>
std::string Show(const V& v, size_t maxN = 12) {
	std::ostringstream s;
	s << "[" << v.size() << "]{";
	for (size_t i = 0; i < v.size() && i < maxN; ++i) {
		s << (i ? "," : "") << CStr(ToC(v[i]));
	}
	if (v.size() > maxN) {
		s << ",...";
	}
	s << "}";
	return s.str();
}

// ---------------------------------------------------------------------------------------------------------------
// Sample data. One "style" choice and one seed choice describe a whole block, so shrinking stays cheap.
// ---------------------------------------------------------------------------------------------------------------
enum eStyle {
	STYLE_RAMP = 0, // 1, 2, 3, ... (distinct, exactly representable)
	STYLE_IMPULSE,
	STYLE_SMALLINT,
	STYLE_UNIFORM,
	STYLE_SPARSE,
	STYLE_WIDE, // magnitudes spread over many decades
	NUM_STYLES,
};

inline double U01(uint64_t& s) { return double(pbt::SplitMix(s) >> 11) * 0x1p-53; }

template <class R>
R RandReal(uint64_t& s, int style, size_t i, size_t pos) {
	double v = 0;
	switch (style) {
		case STYLE_RAMP: v = double(i % 97 + 1); break;
		case STYLE_IMPULSE: v = i == pos ? 1 : 0; break;
		case STYLE_SMALLINT: v = double(int64_t(pbt::SplitMix(s) % 9) - 4); break;
		case STYLE_UNIFORM: v = 2 * U01(s) - 1; break;
		case STYLE_SPARSE: v = pbt::SplitMix(s) % 4 == 0 ? 2 * U01(s) - 1 : 0; break;
		default: v = (U01(s) < 0.5 ? -1 : 1) * std::pow(10.0, 8 * U01(s) - 4); break;
	}
	if constexpr (std::is_integral_v<R>) {
		const double scaled = style == STYLE_UNIFORM || style == STYLE_SPARSE ? v * 50 : v;
		double lim = std::is_unsigned_v<R> ? std::abs(scaled) : scaled;
		if (sizeof(R) == 1) {
			lim = std::fmod(lim, 100);
		}
		return R((int64_t)lim);
	}
	else {
		return R(v);
	}
}

template <class T>
std::vector<T> Data(Gen& g, size_t n, int maxStyle = STYLE_WIDE, const char* name = nullptr) {
	const int style = (int)g.draw((uint64_t)maxStyle);
	uint64_t s = 0;
	size_t pos = 0;
	if (style == STYLE_IMPULSE) {
		pos = n ? g.draw(n - 1) : 0;
	}
	else if (style != STYLE_RAMP) {
		s = g.draw(0xffff) * 0x9E3779B97F4A7C15ull + 12345;
	}
	std::vector<T> v(n);
	for (size_t i = 0; i < n; ++i) {
		if constexpr (is_cplx_v<T>) {
			using R = real_of_t<T>;
			const R re = RandReal<R>(s, style, i, pos);
			R im = RandReal<R>(s, style, i + 13, pos + 17);
			v[i] = T(re, style == STYLE_RAMP ? R(-R(int(i % 31) - 7)) : im);
		}
		else {
			v[i] = RandReal<T>(s, style, i, pos);
		}
	}
	// Quiet and loud signals: no result may depend on an absolute magnitude.
	using R = real_of_t<T>;
	if constexpr (std::is_floating_point_v<R>) {
		if (maxStyle > STYLE_SMALLINT && style != STYLE_WIDE && g.chance(1, 6)) { // (small whole numbers stay exact)
			const R scale = std::is_same_v<R, float> ? std::ldexp(R(1), int(g.draw(22)) - 14) : std::ldexp(R(1), int(g.draw(48)) - 24);
			for (auto& x : v) {
				x *= scale;
			}
			g.label("scaled data");
		}
	}
	if (name) {
		g.note(name, ":", TypeName<T>(), " ", Show(v, 6));
	}
	return v;
}

// ---------------------------------------------------------------------------------------------------------------
// A buffer of exactly n samples at a chosen misalignment, surrounded by canaries (and, under ASan, by red zones
// only when used with exact heap buffers).
// ---------------------------------------------------------------------------------------------------------------
template <class T>
class Guarded {
public:
	Guarded(size_t n, size_t shift, uint64_t salt = 1) : m_n(n), m_off(kPad + shift), m_all(n + 2 * kPad + shift) {
		uint64_t s = salt;
		for (auto& v : m_all) {
			v = Canary(s);
		}
		m_copy = m_all;
	}
	Guarded(const std::vector<T>& data, size_t shift, uint64_t salt = 1) : Guarded(data.size(), shift, salt) {
		std::copy(data.begin(), data.end(), m_all.begin() + m_off);
		m_copy = m_all;
	}
	T* data() { return m_all.data() + m_off; }
	size_t size() const { return m_n; }
	T& operator[](size_t i) { return m_all[m_off + i]; }
	const T& operator[](size_t i) const { return m_all[m_off + i]; }
	template <eSignalDomain D = TIME_DOMAIN>
	BasicSignalView<T, D> view() { return BasicSignalView<T, D>(data(), data() + m_n); }
	template <eSignalDomain D = TIME_DOMAIN>
	BasicSignalView<const T, D> cview() const { return BasicSignalView<const T, D>(m_all.data() + m_off, m_all.data() + m_off + m_n); }
	/// True if nothing outside the n samples changed.
	bool padIntact() const {
		for (size_t i = 0; i < m_all.size(); ++i) {
			if ((i < m_off || i >= m_off + m_n) && !Same(m_all[i], m_copy[i])) {
				return false;
			}
		}
		return true;
	}
	/// True if neither surroundings nor samples changed.
	bool untouched() const {
		for (size_t i = 0; i < m_all.size(); ++i) {
			if (!Same(m_all[i], m_copy[i])) {
				return false;
			}
		}
		return true;
	}
	std::vector<T> vec() const { return std::vector<T>(m_all.begin() + m_off, m_all.begin() + m_off + m_n); }

private:
	static T Canary(uint64_t& s) {
		using R = real_of_t<T>;
		const R a = R((pbt::SplitMix(s) % 100) + 11);
		if constexpr (is_cplx_v<T>) {
			return T(a, R((pbt::SplitMix(s) % 100) + 11));
		}
		else {
			return a;
		}
	}
	static constexpr size_t kPad = 40;
	size_t m_n, m_off;
	std::vector<T> m_all, m_copy;
};

/// A heap block of exactly n samples: under AddressSanitizer any access beyond it is reported.
template <class T>
struct Exact {
	explicit Exact(const std::vector<T>& v) : n(v.size()), p(new T[v.size()]) { std::copy(v.begin(), v.end(), p.get()); }
	template <eSignalDomain D = TIME_DOMAIN>
	BasicSignalView<T, D> view() { return BasicSignalView<T, D>(p.get(), p.get() + n); }
	template <eSignalDomain D = TIME_DOMAIN>
	BasicSignalView<const T, D> cview() const { return BasicSignalView<const T, D>(p.get(), p.get() + n); }
	size_t n;
	std::unique_ptr<T[]> p;
};

template <class T, eSignalDomain D = TIME_DOMAIN>
BasicSignal<T, D> Sig(const std::vector<T>& v) { return BasicSignal<T, D>(v.begin(), v.end()); }

template <class S>
auto Vec(const S& s) { return std::vector<std::remove_cv_t<typename S::value_type>>(s.begin(), s.end()); }

/// Checks |got - want| <= tol for one value (NaN/inf never pass).
#define NEAR(kind, got_, want_, tol_, ...)                                                                                          \
	do {                                                                                                                           \
		++g.m_checks;                                                                                                              \
		const h::cld gc__ = h::ToC(got_);                                                                                          \
		const h::cld wc__ = h::ToC(want_);                                                                                         \
		const h::ld tl__ = (tol_);                                                                                                 \
		const h::ld er__ = h::AbsC(gc__ - wc__);                                                                                   \
		if (!(er__ <= tl__)) {                                                                                                     \
			g.fail(kind __VA_OPT__(,) __VA_ARGS__, ": got ", h::CStr(gc__), " want ", h::CStr(wc__), " error ", (double)er__, " tolerance ", (double)tl__); \
		}                                                                                                                          \
	} while (0)

/// One type out of a list.
template <class... Ts, class F>
void WithType(Gen& g, F&& f) {
	const size_t k = g.draw(sizeof...(Ts) - 1);
	size_t i = 0;
	(void)((i++ == k ? (f(std::type_identity<Ts>{}), true) : false) || ...);
}

} // namespace h
