// P12: rational numbers compute exactly like mathematical fractions.
#include "common.hpp"

#include <dspbb/Math/Rational.hpp>
using namespace h;

using i128 = __int128;
inline i128 Gcd(i128 a, i128 b) {
	a = a < 0 ? -a : a;
	b = b < 0 ? -b : b;
	while (b) {
		const i128 t = a % b;
		a = b;
		b = t;
	}
	return a;
}
// Reference fraction in lowest terms with positive denominator.
struct Frac {
	i128 n = 0, d = 1;
	Frac() = default;
	Frac(i128 num, i128 den) {
		if (den < 0) {
			num = -num;
			den = -den;
		}
		const i128 c = Gcd(num, den);
		n = num / c;
		d = den / c;
	}
};
inline Frac operator+(Frac a, Frac b) { return { a.n * b.d + b.n * a.d, a.d * b.d }; }
inline Frac operator-(Frac a, Frac b) { return { a.n * b.d - b.n * a.d, a.d * b.d }; }
inline Frac operator*(Frac a, Frac b) { return { a.n * b.n, a.d * b.d }; }
inline Frac operator/(Frac a, Frac b) { return { a.n * b.d, a.d * b.n }; }
inline i128 FloorDiv(i128 a, i128 b) { return a / b - (a % b < 0 ? 1 : 0); }
inline std::string Str(Frac f) { return std::to_string((int64_t)f.n) + "/" + std::to_string((int64_t)f.d); }

template <class T>
void Equal(Gen& g, const Rational<T>& got, Frac want, const char* what) {
	CHK(got.Denominator() > 0, "denominator", what, ": denominator ", +got.Denominator());
	CHK((i128)got.Numerator() == want.n && (i128)got.Denominator() == want.d, "value", what, ": got ", +got.Numerator(), "/", +got.Denominator(), " want ", Str(want));
}

template <class T>
constexpr long Mag() { return sizeof(T) == 8 ? 500000 : sizeof(T) == 4 ? 700 : 20; }

template <class T>
T Num(Gen& g) { return T(g.sym(g.flag() ? 12 : Mag<T>())); }
template <class T>
T Den(Gen& g) { return T(g.range<long>(1, g.flag() ? 12 : Mag<T>())); }

template <class T>
void Ops(Gen& g) {
	const T an = Num<T>(g), ad = Den<T>(g), bn = Num<T>(g), bd = Den<T>(g), k = Num<T>(g);
	g.note(TypeName<T>(), " a=", +an, "/", +ad, " b=", +bn, "/", +bd, " k=", +k);
	g.label(TypeName<T>());
	g.labelIf(an < 0 || bn < 0, "negative");
	g.labelIf(k < 0, "negative integer operand");
	g.labelIf(an == 0 || bn == 0 || k == 0, "zero");
	g.nontrivial(ad != 1 && bd != 1);
	const Rational<T> a{ an, ad }, b{ bn, bd };
	const Frac fa(an, ad), fb(bn, bd), fk(k, 1);
	Equal(g, a, fa, "construction");
	Equal(g, Rational<T>(k), fk, "construction from integer");
	Equal(g, Rational<T>(a), fa, "copy");
	{
		Rational<T> c;
		c = b;
		Equal(g, c, fb, "assignment");
	}
	Equal(g, a + b, fa + fb, "a+b");
	Equal(g, a - b, fa - fb, "a-b");
	Equal(g, a * b, fa * fb, "a*b");
	if (bn != 0) Equal(g, a / b, fa / fb, "a/b");
	Equal(g, a + k, fa + fk, "a+k");
	Equal(g, a - k, fa - fk, "a-k");
	Equal(g, a * k, fa * fk, "a*k");
	if (k != 0) Equal(g, a / k, fa / fk, "a/k");
	Equal(g, k + a, fk + fa, "k+a");
	Equal(g, k - a, fk - fa, "k-a");
	Equal(g, k * a, fk * fa, "k*a");
	if (an != 0) Equal(g, k / a, fk / fa, "k/a");
	{
		Rational<T> c = a;
		Rational<T>& r = (c += b);
		CHK(&r == &c, "return", "compound assignment does not return its object");
		Equal(g, c, fa + fb, "a+=b");
		Equal(g, c -= b, fa, "a-=b");
		Equal(g, Rational<T>(a) *= b, fa * fb, "a*=b");
		if (bn != 0) Equal(g, Rational<T>(a) /= b, fa / fb, "a/=b");
		Equal(g, Rational<T>(a) += k, fa + fk, "a+=k");
		Equal(g, Rational<T>(a) -= k, fa - fk, "a-=k");
		Equal(g, Rational<T>(a) *= k, fa * fk, "a*=k");
		if (k != 0) Equal(g, Rational<T>(a) /= k, fa / fk, "a/=k");
		// An operand aliasing the target.
		Rational<T> s = a;
		s += s;
		Equal(g, s, fa + fa, "a+=a");
		s = a;
		s *= s;
		Equal(g, s, fa * fa, "a*=a");
	}
	{
		const Frac one(1, 1);
		Rational<T> c = a;
		Equal(g, c++, fa, "a++ result");
		Equal(g, c, fa + one, "a++");
		Equal(g, c--, fa + one, "a-- result");
		Equal(g, c, fa, "a--");
		Equal(g, ++c, fa + one, "++a");
		Equal(g, --c, fa, "--a");
		Equal(g, --c, fa - one, "--a");
	}
	// Floor, ceiling and fraction.
	const i128 fl = FloorDiv(fa.n, fa.d), ce = -FloorDiv(-fa.n, fa.d);
	CHK((i128)floor(a) == fl, "floor", "floor(", Str(fa), ") = ", +floor(a));
	CHK((i128)ceil(a) == ce, "ceil", "ceil(", Str(fa), ") = ", +ceil(a));
	Equal(g, frac(a), fa - Frac(fl, 1), "frac");
	// Floating point.
	const ld q = (ld)fa.n / (ld)fa.d;
	NEAR("double", (double)a, q, Eps<double>() * std::abs(q), "conversion to double");
	NEAR("float", (float)a, q, 2 * Eps<float>() * std::abs(q), "conversion to float");
}

template <class T, class U>
void Compare(Gen& g) {
	const T an = Num<T>(g), ad = Den<T>(g), k = Num<T>(g);
	U bn, bd;
	switch (g.draw(2)) {
		case 0:
			bn = Num<U>(g);
			bd = Den<U>(g);
			break;
		case 1: { // equal value, written differently
			const long m = g.range(1, 3);
			bn = U(an * m);
			bd = U(ad * m);
			g.label("equal");
			break;
		}
		default: // neighbouring fraction
			bn = U(an + g.sym(1));
			bd = U(std::max<long>(1, (long)ad + g.sym(1)));
			break;
	}
	g.note("a=", +an, "/", +ad, " b=", +bn, "/", +bd, " k=", +k);
	g.nontrivial(ad != 1);
	const Rational<T> a{ an, ad };
	const Rational<U> b{ bn, bd };
	const i128 l = (i128)an * bd, r = (i128)bn * ad;
	CHK((a == b) == (l == r), "==", "a==b");
	CHK((a != b) == (l != r), "!=", "a!=b");
	CHK((a < b) == (l < r), "<", "a<b");
	CHK((a > b) == (l > r), ">", "a>b");
	CHK((a <= b) == (l <= r), "<=", "a<=b");
	CHK((a >= b) == (l >= r), ">=", "a>=b");
	const i128 kk = (i128)k * ad, aa = an;
	CHK((a == k) == (aa == kk) && (k == a) == (aa == kk), "int==", "a==k");
	CHK((a != k) == (aa != kk) && (k != a) == (aa != kk), "int!=", "a!=k");
	CHK((a < k) == (aa < kk) && (k < a) == (kk < aa), "int<", "a<k");
	CHK((a > k) == (aa > kk) && (k > a) == (kk > aa), "int>", "a>k");
	CHK((a <= k) == (aa <= kk) && (k <= a) == (kk <= aa), "int<=", "a<=k");
	CHK((a >= k) == (aa >= kk) && (k >= a) == (kk >= aa), "int>=", "a>=k");
}

PROP("operations", 120000, "int32/int64/int16 fractions and an integer operand of any sign; non-trivial = both denominators above 1") {
	WithType<int32_t, int64_t>(g, [&](auto t) { Ops<typename decltype(t)::type>(g); });
}
PROP("comparisons", 60000, "pairs of fractions (also of different integer types), equal and neighbouring values included; non-trivial = denominator above 1") {
	switch (g.draw(2)) {
		case 0: Compare<int32_t, int32_t>(g); break;
		case 1: Compare<int64_t, int64_t>(g); break;
		default: Compare<int64_t, int32_t>(g); break;
	}
}
PROP("histories", 30000, "a chain of up to 20 random operations checked after each step against exact fractions; non-trivial = at least 5 steps") {
	Rational<int64_t> r{ 0 };
	Frac f;
	const int steps = (int)g.range(1, 20);
	g.nontrivial(steps >= 5);
	for (int i = 0; i < steps; ++i) {
		const long n = g.sym(12), d = g.range(1, 9);
		const int op = (int)g.draw(9);
		const Rational<int64_t> b{ n, d };
		const Frac fb(n, d), fn(n, 1);
		// Keep everything far from overflow.
		if ((f.n < 0 ? -f.n : f.n) > 1000000 || f.d > 1000000) {
			r = Rational<int64_t>(n);
			f = fn;
		}
		g.note("op", op, " ", n, "/", d);
		switch (op) {
			case 0: r += b; f = f + fb; break;
			case 1: r -= b; f = f - fb; break;
			case 2: r *= b; f = f * fb; break;
			case 3: if (n) { r /= b; f = f / fb; } break;
			case 4: r += int64_t(n); f = f + fn; break;
			case 5: r -= int64_t(n); f = f - fn; break;
			case 6: r *= int64_t(n); f = f * fn; break;
			case 7: if (n) { r /= int64_t(n); f = f / fn; } break;
			case 8: ++r; f = f + Frac(1, 1); break;
			default: r--; f = f - Frac(1, 1); break;
		}
		Equal(g, r, f, "after step");
	}
}
