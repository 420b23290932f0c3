// P13: half-open interval algebra against explicit point sets.
#include "common.hpp"

#include <dspbb/Utility/Interval.hpp>
using namespace h;

template <class T>
bool In(const Interval<T>& i, double p) { return (double)i.first <= p && p < (double)i.last; }

template <class T>
void Case(Gen& g) {
	const double scale = std::is_floating_point_v<T> ? 0.5 : 1.0;
	const bool equalEnds = g.flag();
	const auto end = [&] { return T(scale * (double)g.sym(12)); };
	const auto make = [&] {
		T a = end(), b = end();
		if (b < a) std::swap(a, b);
		return Interval<T>{ a, b };
	};
	const Interval<T> a = make();
	Interval<T> b = make();
	if (equalEnds) {
		if (g.flag() && a.first <= b.last) b.first = a.first;
		else if (b.first <= a.last) b.last = a.last;
	}
	const T off = end();
	g.note("a=[", +a.first, ",", +a.last, ") b=[", +b.first, ",", +b.last, ") offset ", +off);
	g.label(a.first == a.last || b.first == b.last ? "an empty operand" : a.last == b.first || b.last == a.first ? "touching" : std::max(a.first, b.first) < std::min(a.last, b.last) ? "overlapping" : "apart");
	g.nontrivial(a.size() > 0 && b.size() > 0);
	CHK(a.size() == a.last - a.first, "size", "size ", +a.size());
	const Interval<T> is = Intersection(a, b), eu = EncompassingUnion(a, b);
	const auto un = Union(a, b);
	bool share = false;
	for (double p = -40; p <= 40; p += 0.25) {
		const bool ia = In(a, p), ib = In(b, p);
		share = share || (ia && ib);
		CHK(In(is, p) == (ia && ib), "intersection", "point ", p, " intersection [", +is.first, ",", +is.last, ")");
		CHK(!(ia || ib) || In(eu, p), "encompassing-union", "point ", p, " not in the encompassing union");
		if (un) {
			CHK(In(*un, p) == (ia || ib), "union", "point ", p, " union [", +un->first, ",", +un->last, ")");
		}
		CHK(In(a + off, p) == In(a, p - (double)off), "shift", "a+offset at ", p);
		CHK(In(a - off, p) == In(a, p + (double)off), "shift", "a-offset at ", p);
	}
	CHK(eu.first == std::min(a.first, b.first) && eu.last == std::max(a.last, b.last), "encompassing-union", "not the smallest enclosing interval");
	CHK(IsDisjoint(a, b) == !share, "disjoint", "IsDisjoint is ", IsDisjoint(a, b));
	CHK(un.has_value() == share, "union", "union presence ", un.has_value(), " overlap ", share);
	CHK(is.size() >= 0 && (is.size() > 0) == share, "intersection", "intersection size ", +is.size());
	// Commutative.
	CHK(IsDisjoint(a, b) == IsDisjoint(b, a) && Intersection(b, a).first == is.first && Intersection(b, a).last == is.last, "commutative", "intersection");
	// Equality: both ends.
	const bool eq = a.first == b.first && a.last == b.last;
	CHK((a == b) == eq && (b == a) == eq, "equality", "a==b is ", a == b);
	CHK((a != b) == !eq, "equality", "a!=b is ", a != b);
	const Interval<T> c = a;
	CHK(c == a && !(c != a), "equality", "an interval differs from its copy");
	// Compound forms.
	Interval<T> s = a;
	Interval<T>& r = (s += off);
	CHK(&r == &s && s.first == (a + off).first && s.last == (a + off).last, "compound", "a+=offset");
	s -= off;
	CHK(s.first == a.first && s.last == a.last, "compound", "a-=offset");
}

PROP("set-algebra", 120000, "two intervals with small integer (or half-integer) ends, also empty, touching and sharing an end, and an offset; every quarter point of [-40,40] is compared; non-trivial = both intervals non-empty") {
	switch (g.draw(2)) {
		case 0: Case<int>(g); break;
		case 1: Case<ptrdiff_t>(g); break;
		default: Case<double>(g); break;
	}
}
