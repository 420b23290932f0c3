// P14: coefficient and root form of polynomials, and the value semantics of the root form.
#include "common.hpp"

#include <dspbb/Math/Polynomials.hpp>
using namespace h;

// ---- Evaluation -----------------------------------------------------------------------------------------------
template <class T>
void EvalCase(Gen& g) {
	const size_t n = g.size(0, 12);
	std::vector<T> c(n);
	for (auto& v : c) v = T(g.nice(-4, 4));
	Polynomial<T> p(c.begin(), c.end());
	if (g.flag()) {
		Polynomial<T> q;
		q.resize(n, T(7));
		std::copy(c.begin(), c.end(), q.coefficients().begin());
		p = q;
	}
	CHK(p.size() == n && p.order() == (n ? n - 1 : 0), "size", "size ", p.size(), " order ", p.order(), " for ", n, " coefficients");
	CHK(p.coefficients().size() == n, "size", "coefficient view size");
	for (size_t i = 0; i < n; ++i) CHK(std::as_const(p).coefficients()[i] == c[i], "coefficients", "coefficient ", i);
	const T x = T(g.nice(-2, 2));
	const std::complex<T> z(T(g.nice(-2, 2)), T(g.nice(-2, 2)));
	g.note(TypeName<T>(), " coefficients ", Show(c), " x=", x, " z=", CStr(ToC(z)));
	g.nontrivial(n >= 3);
	ld y = 0, mag = 0, zmag = 0;
	cld w = 0;
	for (size_t i = n; i-- > 0;) {
		y = y * x + c[i];
		w = w * ToC(z) + (ld)c[i];
		mag = mag * std::abs((ld)x) + std::abs((ld)c[i]);
		zmag = zmag * AbsL(z) + std::abs((ld)c[i]);
	}
	const ld e = Eps<T>() * (4 + 4 * n);
	NEAR("value", p(x), y, e * mag, "real evaluation");
	NEAR("value", p(z), w, e * zmag, "complex evaluation");
}
PROP("coefficient-evaluation", 40000, "type, 0..12 coefficients, a real and a complex point; non-trivial = at least 3 coefficients") {
	if (g.flag()) EvalCase<float>(g);
	else EvalCase<double>(g);
}

// ---- Root form ------------------------------------------------------------------------------------------------
template <class T>
struct Model {
	std::vector<T> real;
	std::vector<std::complex<T>> pairs;
};

template <class T>
T Coord(Gen& g) { return T(g.nice(-2, 2)); }
template <class T>
std::complex<T> PairRoot(Gen& g) { return { Coord<T>(g), T(g.nice(0.125, 2)) }; }

template <class T>
Model<T> RandomModel(Gen& g, size_t maxN) {
	Model<T> m;
	m.real.resize(g.draw(maxN));
	m.pairs.resize(g.draw(maxN));
	for (auto& r : m.real) r = Coord<T>(g);
	for (auto& r : m.pairs) r = PairRoot<T>(g);
	return m;
}
template <class T>
FactoredPolynomial<T> Build(Gen& g, const Model<T>& m) {
	if (g.flag()) {
		// From a list of roots in arbitrary interleaving; relative order of reals and of pairs is kept.
		std::vector<std::complex<T>> roots;
		std::vector<std::complex<T>> conj;
		size_t ir = 0, ip = 0;
		while (ir < m.real.size() || ip < m.pairs.size() || !conj.empty()) {
			const int w = (int)g.draw(2);
			if (w == 0 && ir < m.real.size()) roots.emplace_back(m.real[ir++], T(0));
			else if (w == 1 && ip < m.pairs.size()) {
				if (g.flag()) {
					roots.push_back(std::conj(m.pairs[ip]));
					conj.push_back(m.pairs[ip]);
				}
				else {
					roots.push_back(m.pairs[ip]);
					conj.push_back(std::conj(m.pairs[ip]));
				}
				// Flush: the positive ones must appear in model order.
				roots.push_back(conj.back());
				conj.pop_back();
				++ip;
			}
			else if (ir < m.real.size()) roots.emplace_back(m.real[ir++], T(0));
			else if (ip < m.pairs.size()) {
				roots.push_back(m.pairs[ip]);
				roots.push_back(std::conj(m.pairs[ip]));
				++ip;
			}
		}
		return FactoredPolynomial<T>(roots.begin(), roots.end());
	}
	FactoredPolynomial<T> f;
	f.resize(m.real.size(), m.pairs.size());
	std::copy(m.real.begin(), m.real.end(), f.real_roots().begin());
	std::copy(m.pairs.begin(), m.pairs.end(), f.complex_pairs().begin());
	return f;
}
template <class T>
std::string Str(const Model<T>& m) { return "real " + Show(m.real) + " pairs " + Show(m.pairs); }

template <class T>
void Agree(Gen& g, const FactoredPolynomial<T>& f, const Model<T>& m, const std::string& what) {
	CHK(f.num_real_roots() == m.real.size(), "counts", what, ": real roots ", f.num_real_roots(), " want ", m.real.size());
	CHK(f.num_complex_pairs() == m.pairs.size() && f.num_complex_roots() == 2 * m.pairs.size(), "counts", what, ": pairs ", f.num_complex_pairs(), " want ", m.pairs.size());
	CHK(f.num_roots() == m.real.size() + 2 * m.pairs.size() && f.order() == f.num_roots(), "counts", what, ": roots ", f.num_roots(), " order ", f.order());
	CHK(f.real_roots().size() == m.real.size() && f.complex_pairs().size() == m.pairs.size(), "counts", what, ": view sizes");
	for (size_t i = 0; i < m.real.size(); ++i) CHK(Same(f.real_roots()[i], m.real[i]), "real-root", what, ": real root ", i, " is ", f.real_roots()[i], " want ", m.real[i]);
	for (size_t i = 0; i < m.pairs.size(); ++i) CHK(Same(f.complex_pairs()[i], m.pairs[i]), "complex-pair", what, ": pair ", i, " is ", CStr(ToC(f.complex_pairs()[i])), " want ", CStr(ToC(m.pairs[i])));
}

template <class T>
void RootCase(Gen& g) {
	const auto m = RandomModel<T>(g, 5);
	const auto f = Build(g, m);
	g.note(TypeName<T>(), " ", Str(m));
	g.nontrivial(m.real.size() >= 1 && m.pairs.size() >= 1);
	Agree(g, f, m, "construction");
	const Polynomial<T> e = ExpandPolynomial(f);
	const size_t n = m.real.size() + 2 * m.pairs.size();
	CHK(e.size() == n + 1 && e.order() == n, "expand", "expanded size ", e.size(), " for ", n, " roots");
	CHK(e.coefficients()[n] == T(1), "expand", "leading coefficient ", e.coefficients()[n]);
	const auto at = [&](cld x, ld& mag) {
		cld v = 1;
		mag = 1;
		const ld ax = AbsC(x);
		for (auto r : m.real) {
			v *= x - (ld)r;
			mag *= ax + std::abs((ld)r);
		}
		for (auto r : m.pairs) {
			v *= (x - ToC(r)) * (x - std::conj(ToC(r)));
			mag *= (ax + AbsL(r)) * (ax + AbsL(r));
		}
		return v;
	};
	const ld k = Eps<T>() * (8 + 6 * n);
	for (int i = 0; i < 4; ++i) {
		const T x = T(g.nice(-2.5, 2.5));
		const std::complex<T> z(T(g.nice(-2, 2)), T(g.nice(-2, 2)));
		ld mx, mz;
		const cld wx = at((ld)x, mx), wz = at(ToC(z), mz);
		const ld tx = k * mx + (ld)std::numeric_limits<T>::min(), tz = k * mz + (ld)std::numeric_limits<T>::min();
		NEAR("factored", f(x), wx, tx, "root form at x=", x);
		NEAR("factored", f(z), wz, tz, "root form at z=", CStr(ToC(z)));
		NEAR("expanded", e(x), wx, tx, "expanded form at x=", x);
		NEAR("expanded", e(z), wz, tz, "expanded form at z=", CStr(ToC(z)));
	}
	for (auto r : m.real) {
		ld mag;
		at((ld)r, mag);
		NEAR("root", e(r), 0, k * mag + (ld)std::numeric_limits<T>::min(), "expanded form at its real root ", r);
		CHK(f(r) == T(0), "root", "root form at its real root ", r, " is ", f(r));
	}
}
PROP("root-form", 40000, "0..5 real roots and 0..5 conjugate pairs built from a root list or by resizing; values at 8 points; non-trivial = at least one of each kind") {
	if (g.flag()) RootCase<float>(g);
	else RootCase<double>(g);
}

// ---- Histories ------------------------------------------------------------------------------------------------
template <class T>
void History(Gen& g) {
	constexpr int N = 3;
	FactoredPolynomial<T> f[N];
	Model<T> m[N];
	const int steps = (int)g.range(1, 14);
	g.nontrivial(steps >= 4);
	for (int s = 0; s < steps; ++s) {
		const int i = (int)g.draw(N - 1), j = (int)g.draw(N - 1);
		const int op = (int)g.draw(8);
		g.label("op " + std::to_string(op));
		std::ostringstream what;
		what << "step " << s << " op " << op << " on " << i;
		switch (op) {
			case 0: {
				m[i] = RandomModel<T>(g, 4);
				f[i] = Build(g, m[i]);
				what << " build+move-assign " << Str(m[i]);
				break;
			}
			case 1: {
				auto& r = (f[i] = std::as_const(f[j]));
				CHK(&r == &f[i], "return", "copy assignment does not return its object");
				m[i] = m[j];
				what << " copy-assign from " << j;
				break;
			}
			case 2: {
				if (i == j) break;
				auto& r = (f[i] = std::move(f[j]));
				CHK(&r == &f[i], "return", "move assignment does not return its object");
				m[i] = m[j];
				m[j] = {};
				f[j] = FactoredPolynomial<T>{}; // moved-from: give it a known value
				what << " move-assign from " << j;
				break;
			}
			case 3:
			case 4: {
				const size_t nr = g.draw(5), np = g.draw(5);
				const T rv = Coord<T>(g);
				const auto cv = PairRoot<T>(g);
				f[i].resize(nr, np, rv, cv);
				m[i].real.resize(nr, rv);
				m[i].pairs.resize(np, cv);
				what << " resize " << nr << "," << np;
				break;
			}
			case 5: {
				const size_t total = m[i].real.size() + 2 * m[i].pairs.size();
				const size_t nr = total % 2 + 2 * g.draw(total / 2);
				const T rv = Coord<T>(g);
				const auto cv = PairRoot<T>(g);
				f[i].regroup(nr, rv, cv);
				m[i].real.resize(nr, rv);
				m[i].pairs.resize((total - nr) / 2, cv);
				what << " regroup " << nr;
				break;
			}
			case 6: {
				const FactoredPolynomial<T> c(f[i]);
				Agree(g, c, m[i], what.str() + " copy construction");
				if (!m[i].real.empty()) {
					m[i].real[0] += T(1);
					f[i].real_roots()[0] += T(1);
					CHK(Same(c.real_roots()[0], T(m[i].real[0] - T(1))) || c.real_roots()[0] != f[i].real_roots()[0], "independence", "a copy changed with its source");
				}
				break;
			}
			case 7: {
				FactoredPolynomial<T> c(std::move(f[i]));
				Agree(g, c, m[i], what.str() + " move construction");
				f[i] = c;
				break;
			}
			default: {
				if (!m[i].pairs.empty()) {
					const size_t k = g.draw(m[i].pairs.size() - 1);
					m[i].pairs[k] = PairRoot<T>(g);
					f[i].complex_pairs()[k] = m[i].pairs[k];
				}
				if (!m[i].real.empty()) {
					const size_t k = g.draw(m[i].real.size() - 1);
					m[i].real[k] = Coord<T>(g);
					f[i].real_roots()[k] = m[i].real[k];
				}
				break;
			}
		}
		g.note(what.str());
		for (int k = 0; k < N; ++k) Agree(g, f[k], m[k], what.str() + ", object " + std::to_string(k));
	}
}
PROP("histories", 40000, "up to 14 steps of build, copy, move, resize, regroup and element writes over three objects, all compared after each step; non-trivial = at least 4 steps") {
	if (g.flag()) History<float>(g);
	else History<double>(g);
}
PROP("invalid-roots", 4000, "root lists that are not closed under conjugation and impossible regroupings must throw; non-trivial = all") {
	const auto m = RandomModel<double>(g, 3);
	g.note(Str(m));
	g.nontrivial();
	std::vector<cd> roots;
	for (auto r : m.real) roots.emplace_back(r, 0);
	for (auto r : m.pairs) {
		roots.push_back(r);
		roots.push_back(std::conj(r));
	}
	std::vector<cd> bad = roots;
	const cd extra(9, 1.5);
	bad.push_back(extra);
	if (g.flag()) bad.push_back(cd(9, -1.25));
	bool threw = false;
	try {
		FactoredPolynomial<double> f(bad.begin(), bad.end());
	}
	catch (const std::invalid_argument&) {
		threw = true;
	}
	CHK(threw, "accepted", "a root list that is not closed under conjugation was accepted");
	FactoredPolynomial<double> f(roots.begin(), roots.end());
	threw = false;
	try {
		f.regroup(f.num_roots() + (g.flag() ? 1 : 2));
	}
	catch (const std::invalid_argument&) {
		threw = true;
	}
	CHK(threw, "accepted", "an impossible regrouping was accepted");
	Agree(g, f, m, "after rejected regrouping");
}
