// P06: moments, corrected moments, covariance and correlation against their definitions.
#include "common.hpp"

#include <dspbb/Math/Statistics.hpp>
using namespace h;

// Value with a rigorous-ish bound.
struct Bound {
	ld v = 0, t = 0;
};
inline Bound operator*(Bound a, Bound b) { return { a.v * b.v, std::abs(a.v) * b.t + std::abs(b.v) * a.t + a.t * b.t }; }
inline Bound operator+(Bound a, Bound b) { return { a.v + b.v, a.t + b.t }; }
inline Bound operator-(Bound a, Bound b) { return { a.v - b.v, a.t + b.t }; }
inline Bound Exactly(ld v) { return { v, 0 }; }

template <class T>
struct Stats {
	explicit Stats(const std::vector<T>& x_) : x(x_), n(x_.size()) {
		for (auto v : x) {
			mean += v;
			meanAbs += std::abs((ld)v);
		}
		mean /= n;
		meanAbs /= n;
		e = Eps<T>() * (8 + (ld)n / 6);
	}
	/// k-th power mean of deviations from centre c, known to dc.
	Bound Moment(int k, ld c, ld dc) const {
		Bound b;
		ld up = 0, mag = 0, pow = 0;
		for (auto v : x) {
			const ld d = v - c;
			b.v += std::pow(d, k);
			const ld u = std::pow(std::abs(d) * (1 + Eps<T>()) + dc, k);
			up += u - std::pow(std::abs(d), k);
			mag += u;
			// Orders from five on are computed with the power function.
			if (k >= 5 && d != 0) pow += u * Eps<T>() * (6 + 2 * (k - 1) * std::abs(std::log(std::abs(d))));
		}
		b.v /= n;
		b.t = (up + pow) / n + (e + Eps<T>() * (8 + 4 * k)) * mag / n + (ld)std::numeric_limits<T>::min();
		return b;
	}
	ld MeanTol() const { return (e + 2 * Eps<T>()) * meanAbs; }
	Bound Central(int k) const { return Moment(k, mean, MeanTol()); }
	const std::vector<T>& x;
	size_t n;
	ld mean = 0, meanAbs = 0, e = 0;
};

// a / b^p with b > 0 well determined; returns false if b is too uncertain.
inline bool DivPow(Bound a, Bound b, ld p, ld eps, Bound& out) {
	if (!(b.v > 0) || b.t > 0.05L * b.v) {
		return false;
	}
	const ld d = std::pow(b.v, p);
	if (d < (eps > 1e-10L ? 1e-28L : 1e-280L)) {
		return false; // would underflow in the sample type
	}
	out.v = a.v / d;
	const ld rel = std::pow(1 - b.t / b.v, -p) - 1;
	out.t = a.t / d * (1 + rel) + std::abs(out.v) * (rel + 32 * eps);
	return true;
}

template <class T>
std::vector<T> Sample(Gen& g, size_t n) {
	auto x = Data<T>(g, n, STYLE_SPARSE);
	const double scale = g.flag() ? 1.0 : g.logu(1e-3, 1e3);
	const double off = g.flag() ? 0.0 : g.nice(-50, 50);
	for (auto& v : x) {
		v = T(v * scale + off);
	}
	g.note(TypeName<T>(), " n=", n, " ", Show(x, 6));
	g.label(TypeName<T>());
	return x;
}

template <class T, class S>
void Moments(Gen& g, const S& s, const std::vector<T>& x) {
	const Stats<T> st(x);
	const ld eps = Eps<T>();
	int k = (int)g.range(1, 9);
	if (std::is_same_v<T, float>) {
		// Stay inside the range of single precision.
		ld dev = 3;
		for (auto v : x) dev = std::max(dev, std::abs(v - st.mean) + 3);
		while (k > 1 && std::pow(dev, k) * x.size() > 1e34L) --k;
	}
	g.label("order " + std::to_string(k));
	const bool given = g.flag();
	g.note("order ", k, given ? " mean given" : "");
	const T gm = given ? T(st.mean + (g.flag() ? g.nice(-2, 2) : 0.0)) : T(0);
	// With an explicit mean the moment is about that value (order 1 is zero by convention).
	const auto central = [&](int kk) {
		Bound b = given ? st.Moment(kk, gm, 0) : st.Central(kk);
		return b;
	};
	const Bound v = central(2);
	Bound want = k == 1 ? (given ? Exactly(0) : Bound{ 0, st.Central(1).t }) : central(k);
	{
		const T got = given ? CentralMoment(s, (size_t)k, gm) : CentralMoment(s, (size_t)k);
		NEAR("central-moment", got, want.v, want.t, "CentralMoment order ", k);
	}
	Bound q;
	if (DivPow(want, v, k / 2.0L, eps, q)) {
		g.label("standardised");
		const T got = given ? StandardizedMoment(s, (size_t)k, gm) : StandardizedMoment(s, (size_t)k);
		NEAR("standardised-moment", got, q.v, q.t, "StandardizedMoment order ", k);
	}
	{
		const T got = given ? Variance(s, gm) : Variance(s);
		NEAR("variance", got, v.v, v.t, "Variance");
		CHK(got >= 0, "variance", "negative variance ", got);
		const T sd = given ? StandardDeviation(s, gm) : StandardDeviation(s);
		const ld lo = std::sqrt(std::max(0.0L, v.v - v.t)), hi = std::sqrt(v.v + v.t);
		CHK(sd >= lo * (1 - 4 * eps) && sd <= hi * (1 + 4 * eps), "standard-deviation", "StandardDeviation ", sd, " outside [", (double)lo, ",", (double)hi, "]");
	}
	if (DivPow(central(3), v, 1.5L, eps, q)) {
		const T got = given ? Skewness(s, gm) : Skewness(s);
		NEAR("skewness", got, q.v, q.t, "Skewness");
	}
	if (DivPow(central(4), v, 2, eps, q)) {
		const T got = given ? Kurtosis(s, gm) : Kurtosis(s);
		NEAR("kurtosis", got, q.v, q.t, "Kurtosis");
	}
}

template <class T, class S>
void Corrected(Gen& g, const S& s, const std::vector<T>& x) {
	const Stats<T> st(x);
	const ld eps = Eps<T>();
	const ld n = (ld)x.size();
	const Bound m2 = st.Central(2), m3 = st.Central(3), m4 = st.Central(4);
	Bound q;
	if (n >= 2) {
		const ld f = n / (n - 1);
		NEAR("corrected-variance", CorrectedVariance(s), m2.v * f, m2.t * f + 8 * eps * m2.v * f, "CorrectedVariance");
		const ld lo = std::sqrt(std::max(0.0L, m2.v - m2.t) * f), hi = std::sqrt((m2.v + m2.t) * f);
		const T sd = CorrectedStandardDeviation(s);
		CHK(sd >= lo * (1 - 8 * eps) && sd <= hi * (1 + 8 * eps), "corrected-sd", "CorrectedStandardDeviation ", sd, " outside [", (double)lo, ",", (double)hi, "]");
	}
	if (n >= 3 && DivPow(m3 * Exactly(n * n / ((n - 1) * (n - 2))), m2 * Exactly(n / (n - 1)), 1.5L, eps, q)) {
		g.label("corrected skewness");
		NEAR("corrected-skewness", CorrectedSkewness(s), q.v, q.t + 32 * eps * std::abs(q.v), "CorrectedSkewness");
	}
	if (n >= 4) {
		// Klemens, "moments" (the reference cited by the header).
		const Bound Kx = Exactly((n - 1) / (n * n * n)) * (Exactly(n * n - 3 * n + 3) * m4 + Exactly(6 * n - 9) * m2 * m2);
		const Bound s2 = Exactly((n - 1) / n) * m2;
		const Bound A = Exactly(n * (n - 1) * (n - 1) + 6 * n - 9) * Kx;
		const Bound B = Exactly(n * (6 * n - 9)) * s2 * s2;
		const Bound c = Exactly(n * n / ((n - 1) * (n - 1) * (n - 1) * (n * n - 3 * n + 3)));
		Bound K = c * (A - B);
		K.t += 32 * eps * c.v * (std::abs(A.v) + std::abs(B.v));
		if (DivPow(K, m2 * Exactly(n / (n - 1)), 2, eps, q)) {
			g.label("corrected kurtosis");
			NEAR("corrected-kurtosis", CorrectedKurtosis(s), q.v, q.t + 32 * eps * std::abs(q.v), "CorrectedKurtosis");
		}
	}
}

template <class T, class F>
void Forms(Gen& g, const std::vector<T>& x, F&& f) {
	if (g.flag()) {
		Guarded<T> b(x, g.draw(9), 5);
		f(b.cview());
		CHK(b.untouched(), "input-changed", "input modified");
	}
	else {
		const Signal<T> s(x.begin(), x.end());
		f(s);
	}
}

PROP("moments", 40000, "type, data, offset and scale, order 1..9, mean given or computed; non-trivial = at least 5 samples") {
	WithType<double, float>(g, [&](auto t) {
		using T = typename decltype(t)::type;
		const auto x = Sample<T>(g, g.length(1, 300));
		g.nontrivial(x.size() >= 5);
		Forms(g, x, [&](const auto& s) { Moments<T>(g, s, x); });
	});
}
PROP("corrected", 30000, "type, data, offset and scale; non-trivial = at least 5 samples") {
	WithType<double, float>(g, [&](auto t) {
		using T = typename decltype(t)::type;
		const auto x = Sample<T>(g, g.length(2, 300));
		g.nontrivial(x.size() >= 5);
		Forms(g, x, [&](const auto& s) { Corrected<T>(g, s, x); });
	});
}
PROP("invariance", 30000, "dyadic data, constant added and scale applied exactly; non-trivial = at least 5 samples and non-zero variance") {
	// Small integers, integer offsets and power-of-two scales keep the data exact.
	const size_t n = g.length(2, 200);
	auto x = Data<double>(g, n, STYLE_SMALLINT);
	const double off = (double)g.sym(64);
	const double sc = std::ldexp(g.flag() ? 1.0 : -1.0, (int)g.sym(4));
	const int k = (int)g.range(2, 8);
	g.note("n=", n, " off ", off, " scale ", sc, " order ", k, " ", Show(x, 6));
	const Signal<double> a(x.begin(), x.end());
	Signal<double> b(x.begin(), x.end()), c(x.begin(), x.end());
	for (size_t i = 0; i < n; ++i) {
		b[i] = x[i] + off;
		c[i] = x[i] * sc;
	}
	const Stats<double> sa(x);
	const auto vb = Vec(b), vc = Vec(c);
	const Stats<double> sb(vb), sc_(vc);
	const ld ma = sa.Central(k).t, mb = sb.Central(k).t, mc = sc_.Central(k).t;
	g.nontrivial(n >= 5 && Variance(a) > 0);
	NEAR("shift-invariance", CentralMoment(b, k), CentralMoment(a, k), ma + mb, "central moment changed when a constant was added");
	NEAR("scaling", CentralMoment(c, k), CentralMoment(a, k) * std::pow(sc, k), ma * std::pow(std::abs((ld)sc), k) + mc, "central moment did not scale");
	const ld v = sa.Central(2).v;
	if (v > 1e-3L) {
		// sign(scale)^3 for skewness, unchanged kurtosis
		NEAR("scaling", Skewness(c), (sc < 0 ? -1 : 1) * Skewness(a), 1e-9L * (1 + std::abs(Skewness(a))), "skewness under scaling");
		NEAR("scaling", Kurtosis(c), Kurtosis(a), 1e-9L * (1 + Kurtosis(a)), "kurtosis under scaling");
	}
}
PROP("covariance", 40000, "type, two data sets of equal length (independent or affinely related); non-trivial = at least 5 samples") {
	WithType<double, float>(g, [&](auto t) {
		using T = typename decltype(t)::type;
		const size_t n = g.length(1, 300);
		const auto x = Sample<T>(g, n);
		std::vector<T> y;
		const bool affine = g.flag();
		const double slope = g.flag() ? g.nice(0.25, 4) : -g.nice(0.25, 4);
		if (affine) {
			const double icpt = g.nice(-3, 3);
			y = x;
			for (auto& v : y) v = T(slope * v + icpt);
		}
		else {
			y = Sample<T>(g, n);
		}
		g.nontrivial(n >= 5);
		g.label(affine ? "affine" : "independent");
		Guarded<T> gx(x, g.draw(9), 3), gy(y, g.draw(9), 4);
		const auto a = gx.cview(), b = gy.cview();
		const Stats<T> sx(x), sy(y);
		const ld eps = Eps<T>();
		ld cov = 0, tol = 0;
		for (size_t i = 0; i < n; ++i) {
			const ld dx = x[i] - sx.mean, dy = y[i] - sy.mean;
			cov += dx * dy;
			const ld ux = std::abs(dx) * (1 + eps) + sx.MeanTol(), uy = std::abs(dy) * (1 + eps) + sy.MeanTol();
			tol += ux * uy - std::abs(dx * dy) + (sx.e + 8 * eps) * ux * uy;
		}
		cov /= n;
		tol = tol / n + (ld)std::numeric_limits<T>::min();
		NEAR("covariance", Covariance(a, b), cov, tol, "Covariance");
		NEAR("covariance-symmetry", Covariance(b, a), Covariance(a, b), tol, "Covariance not symmetric");
		// Means given explicitly.
		{
			const T mx = T(g.nice(-2, 2)), my = T(g.nice(-2, 2));
			ld c2 = 0, t2 = 0;
			for (size_t i = 0; i < n; ++i) {
				const ld dx = x[i] - (ld)mx, dy = y[i] - (ld)my;
				c2 += dx * dy;
				t2 += std::abs(dx * dy);
			}
			NEAR("covariance-given-means", Covariance(a, b, mx, my), c2 / n, (sx.e + 8 * eps) * t2 / n, "Covariance with given means");
		}
		if (n >= 2) {
			const ld f = (ld)n / (n - 1);
			NEAR("corrected-covariance", CorrectedCovariance(a, b), cov * f, tol * f + 4 * eps * std::abs(cov) * f, "CorrectedCovariance");
		}
		const Bound vx = sx.Central(2), vy = sy.Central(2);
		Bound q;
		if (DivPow(Bound{ cov, tol }, vx * vy, 0.5L, eps, q)) {
			g.label("correlation");
			const T r = Correlation(a, b);
			NEAR("correlation", r, q.v, q.t, "Correlation");
			CHK(std::abs((ld)r) <= 1 + q.t, "correlation-range", "Correlation ", r);
			NEAR("correlation-symmetry", Correlation(b, a), r, q.t * 2, "Correlation not symmetric");
			if (affine) {
				// y was rounded to T: its deviation from the exact affine image is below one unit of its magnitude.
				ld ry = 0;
				for (auto v : y) ry = std::max(ry, std::abs((ld)v));
				const ld noise = 4 * eps * (ry + std::abs((ld)slope) * sx.meanAbs * 4 + 8);
				const ld sdy = std::sqrt(vy.v);
				if (noise < 0.01L * sdy) {
					NEAR("correlation-affine", r, slope > 0 ? 1 : -1, q.t + 4 * noise / sdy, "Correlation of affinely related signals");
				}
			}
		}
	});
}
