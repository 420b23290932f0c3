// P01: a signal behaves as a plain growable sequence of samples (model: std::vector).
#include "common.hpp"
using namespace h;

template <class T, eSignalDomain D>
void CheckAll(Gen& g, BasicSignal<T, D>& s, const std::vector<T>& m, const char* op) {
	const BasicSignal<T, D>& c = s;
	CHK(s.size() == m.size(), "size", op, ": size ", s.size(), " want ", m.size());
	CHK(s.empty() == m.empty(), "empty", op, ": empty() wrong");
	CHK(s.capacity() >= s.size(), "capacity", op, ": capacity below size");
	CHK(size_t(s.end() - s.begin()) == m.size() && size_t(c.end() - c.begin()) == m.size() && size_t(c.cend() - c.cbegin()) == m.size(), "iter-distance", op, ": iterator distance wrong");
	CHK(size_t(s.rend() - s.rbegin()) == m.size() && size_t(c.rend() - c.rbegin()) == m.size() && size_t(c.crend() - c.crbegin()) == m.size(), "riter-distance", op, ": reverse distance wrong");
	for (size_t i = 0; i < m.size(); ++i) {
		const bool ok = Same(s[i], m[i]) && Same(c[i], m[i]) && Same(s.data()[i], m[i]) && Same(c.data()[i], m[i])
						&& Same(*(s.begin() + i), m[i]) && Same(*(c.begin() + i), m[i]) && Same(*(s.cbegin() + i), m[i])
						&& Same(*(s.rbegin() + (m.size() - 1 - i)), m[i]) && Same(*(c.rbegin() + (m.size() - 1 - i)), m[i]) && Same(*(s.crbegin() + (m.size() - 1 - i)), m[i])
						&& &s[i] == s.data() + i && &c[i] == s.data() + i && &*(s.begin() + i) == s.data() + i && &*(s.end() - (m.size() - i)) == s.data() + i;
		CHK(ok, "content", op, ": sample ", i, " of ", m.size(), " is ", CStr(ToC(s[i])), " want ", CStr(ToC(m[i])), "; signal ", Show(s), " model ", Show(m));
	}
}

template <class T, class U, eSignalDomain D>
void Machine(Gen& g) {
	using S = BasicSignal<T, D>;
	constexpr size_t K = 3;
	S s[K];
	std::vector<T> m[K];
	g.note(TypeName<T>(), "<-", TypeName<U>(), " domain ", int(D));
	const size_t steps = 1 + g.draw(24);
	size_t edits = 0;
	T next = T(1);
	auto fresh = [&] {
		const T v = next;
		next = next + T(1);
		if (ToC(next).real() > 100) {
			next = T(1);
		}
		return v;
	};
	auto freshVec = [&](size_t n) {
		std::vector<T> v(n);
		for (auto& x : v) {
			x = fresh();
		}
		return v;
	};
	for (size_t step = 0; step < steps; ++step) {
		const size_t a = g.draw(K - 1);
		size_t b = g.draw(K - 1);
		if (b == a) {
			b = (a + 1) % K;
		}
		const char* op = "";
		switch (g.draw(27)) {
			case 0: {
				op = "push_back";
				// The value may be one of the signal's own samples.
				const T v = fresh();
				const bool own = !m[a].empty() && g.chance(1, 4);
				const size_t w = own ? g.draw(m[a].size() - 1) : 0;
				s[a].push_back(own ? s[a][w] : v);
				m[a].push_back(own ? T(m[a][w]) : v);
				break;
			}
			case 1: {
				op = "construct(count,value)";
				const size_t n = g.size(0, 40);
				const T v = fresh();
				s[a] = S(n, v);
				m[a].assign(n, v);
				break;
			}
			case 2: {
				op = "construct(count)";
				const size_t n = g.size(0, 40);
				s[a] = S(n);
				m[a].assign(n, T(0));
				break;
			}
			case 3: {
				op = "construct(count,pointer)";
				const auto v = freshVec(g.size(0, 40));
				s[a] = S(v.size(), v.data());
				m[a] = v;
				break;
			}
			case 4: {
				op = "construct(iterators)";
				const auto v = freshVec(g.size(0, 40));
				s[a] = S(v.begin(), v.end());
				m[a] = v;
				break;
			}
			case 5: {
				op = "construct(initializer list)";
				const T x = fresh(), y = fresh(), z = fresh();
				s[a] = S{ x, y, z };
				m[a] = { x, y, z };
				break;
			}
			case 6: {
				op = "copy construct";
				S c(s[b]);
				CheckAll(g, c, m[b], op);
				if (!c.empty()) {
					c[g.draw(c.size() - 1)] = fresh();
				}
				CheckAll(g, s[b], m[b], "copy is independent of its source");
				break;
			}
			case 7: {
				op = "copy assign";
				s[a] = s[b];
				m[a] = m[b];
				break;
			}
			case 8: {
				op = "move construct/assign";
				S c(std::move(s[b]));
				s[a] = std::move(c);
				m[a] = m[b];
				s[b] = S{};
				m[b].clear();
				break;
			}
			case 9: {
				op = "self assign";
				auto& r = s[a];
				s[a] = r;
				break;
			}
			case 10: {
				op = "converting assign";
				const auto src = Data<U>(g, g.size(0, 40), STYLE_SMALLINT);
				const BasicSignal<U, D> u(src.begin(), src.end());
				s[a] = u;
				m[a].assign(src.begin(), src.end());
				break;
			}
			case 11: {
				op = "converting construct";
				const auto src = Data<U>(g, g.size(0, 40), STYLE_SMALLINT);
				const BasicSignal<U, D> u(src.begin(), src.end());
				S c(u);
				s[a] = c;
				m[a] = std::vector<T>(src.begin(), src.end());
				break;
			}
			case 12: {
				op = "append";
				s[a].append(s[b]);
				m[a].insert(m[a].end(), m[b].begin(), m[b].end());
				++edits;
				break;
			}
			case 13: {
				op = "prepend";
				s[a].prepend(s[b]);
				m[a].insert(m[a].begin(), m[b].begin(), m[b].end());
				++edits;
				break;
			}
			case 14: {
				op = "insert(index,signal)";
				const size_t w = g.draw(m[a].size());
				s[a].insert(w, s[b]);
				m[a].insert(m[a].begin() + w, m[b].begin(), m[b].end());
				++edits;
				break;
			}
			case 15: {
				op = "insert(iterator,signal)";
				const size_t w = g.draw(m[a].size());
				s[a].insert(s[a].cbegin() + w, s[b]);
				m[a].insert(m[a].begin() + w, m[b].begin(), m[b].end());
				++edits;
				break;
			}
			case 16: {
				op = "insert(iterator,range)";
				const size_t w = g.draw(m[a].size());
				const auto v = freshVec(g.size(0, 20));
				if (g.flag()) {
					s[a].insert(s[a].cbegin() + w, v.begin(), v.end());
				}
				else {
					s[a].insert(s[a].cbegin() + w, v.data(), v.data() + v.size());
				}
				m[a].insert(m[a].begin() + w, v.begin(), v.end());
				++edits;
				break;
			}
			case 17: {
				op = "erase(one)";
				if (!m[a].empty()) {
					const size_t w = g.draw(m[a].size() - 1);
					s[a].erase(s[a].cbegin() + w);
					m[a].erase(m[a].begin() + w);
					++edits;
				}
				break;
			}
			case 18: {
				op = "erase(range)";
				const size_t w = g.draw(m[a].size());
				const size_t n = g.draw(m[a].size() - w);
				s[a].erase(s[a].cbegin() + w, s[a].cbegin() + w + n);
				m[a].erase(m[a].begin() + w, m[a].begin() + w + n);
				++edits;
				break;
			}
			case 19: {
				op = "resize(count)";
				const size_t n = g.length(0, 60);
				s[a].resize(n);
				m[a].resize(n, T(0));
				++edits;
				break;
			}
			case 20: {
				op = "resize(count,value)";
				const size_t n = g.length(0, 60);
				const T v = fresh();
				const bool own = !m[a].empty() && g.chance(1, 4);
				const size_t w = own ? g.draw(m[a].size() - 1) : 0;
				const T u = own ? T(m[a][w]) : v;
				s[a].resize(n, own ? s[a][w] : v);
				m[a].resize(n, u);
				++edits;
				break;
			}
			case 21: {
				op = "clear";
				s[a].clear();
				m[a].clear();
				break;
			}
			case 22: {
				op = "reserve";
				const size_t n = g.length(0, 100);
				s[a].reserve(n);
				CHK(s[a].capacity() >= n, "capacity", "reserve did not reserve");
				break;
			}
			case 23: {
				op = "extract_front";
				const size_t n = g.draw(m[a].size());
				S part = s[a].extract_front(n);
				std::vector<T> mp(m[a].begin(), m[a].begin() + n);
				m[a].erase(m[a].begin(), m[a].begin() + n);
				CheckAll(g, part, mp, "extract_front result");
				++edits;
				break;
			}
			case 24: {
				op = "extract_back";
				const size_t n = g.draw(m[a].size());
				S part = s[a].extract_back(n);
				std::vector<T> mp(m[a].end() - n, m[a].end());
				m[a].erase(m[a].end() - n, m[a].end());
				CheckAll(g, part, mp, "extract_back result");
				++edits;
				break;
			}
			case 25: {
				op = "write by index/pointer/iterator";
				if (!m[a].empty()) {
					const size_t w = g.draw(m[a].size() - 1);
					const T v = fresh();
					switch (g.draw(3)) {
						case 0: s[a][w] = v; break;
						case 1: s[a].data()[w] = v; break;
						case 2: *(s[a].begin() + w) = v; break;
						default: *(s[a].rbegin() + (m[a].size() - 1 - w)) = v; break;
					}
					m[a][w] = v;
				}
				break;
			}
			case 26: {
				op = "push many";
				const auto v = freshVec(g.size(0, 30));
				for (auto& x : v) {
					s[a].push_back(x);
					m[a].push_back(x);
				}
				break;
			}
			default: {
				op = "swap";
				std::swap(s[a], s[b]);
				std::swap(m[a], m[b]);
				break;
			}
		}
		g.note(op, " s", a, " s", b);
		g.label(op);
		for (size_t k = 0; k < K; ++k) {
			CheckAll(g, s[k], m[k], op);
		}
	}
	g.nontrivial(edits >= 2);
}

#define RULE "history of up to 25 operations on three signals; non-trivial = at least two structural edits (append/prepend/insert/erase/resize/extract)"
#if PBT_IN_PART(0)
PROP("signal-vs-vector-real", 60000, RULE) {
	switch (g.draw(3)) {
		case 0: Machine<float, double, TIME_DOMAIN>(g); break;
		case 1: Machine<double, float, FREQUENCY_DOMAIN>(g); break;
		case 2: Machine<int32_t, float, QUEFRENCY_DOMAIN>(g); break;
		default: Machine<float, int32_t, TIME_DOMAIN>(g); break;
	}
}
#endif
#if PBT_IN_PART(1)
PROP("signal-vs-vector-complex", 60000, RULE) {
	switch (g.draw(3)) {
		case 0: Machine<cf, float, TIME_DOMAIN>(g); break;
		case 1: Machine<int16_t, int32_t, DOMAINLESS>(g); break;
		case 2: Machine<cd, double, FREQUENCY_DOMAIN>(g); break;
		default: Machine<cd, cf, TIME_DOMAIN>(g); break;
	}
}
#endif
