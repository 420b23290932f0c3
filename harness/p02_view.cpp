// P02: a view is an exact, non-owning window onto samples.
#include "common.hpp"
using namespace h;

template <class V, class T>
void CheckView(Gen& g, V v, const T* base, size_t off, size_t n, const char* op) {
	using E = typename V::value_type;
	CHK(v.size() == n, "size", op, ": size ", v.size(), " want ", n);
	CHK(v.size_bytes() == n * sizeof(E), "size_bytes", op, ": size_bytes ", v.size_bytes(), " want ", n * sizeof(E));
	CHK(v.empty() == (n == 0), "empty", op, ": empty() wrong");
	CHK(size_t(v.end() - v.begin()) == n && size_t(v.cend() - v.cbegin()) == n && size_t(v.rend() - v.rbegin()) == n && size_t(v.crend() - v.crbegin()) == n, "iter-distance", op, ": iterator distance wrong");
	if (n) {
		CHK(&v.front() == base + off && &v.back() == base + off + n - 1 && v.data() == base + off, "ends", op, ": front/back/data do not address the window ends");
		CHK(&*v.begin() == base + off && &*(v.rbegin()) == base + off + n - 1 && &*v.cbegin() == base + off && &*v.crbegin() == base + off + n - 1, "iter-ends", op, ": iterators do not address the window ends");
		CHK(&*(v.rend() - 1) == base + off && &*(v.crend() - 1) == base + off && &*(v.end() - 1) == base + off + n - 1 && &*(v.cend() - 1) == base + off + n - 1, "iter-ends", op, ": end iterators do not delimit the window");
	}
	for (size_t i = 0; i < n; ++i) {
		CHK(&v[i] == base + off + i, "alias", op, ": element ", i, " is not the owner's sample ", off + i);
		CHK(&*(v.begin() + i) == base + off + i && &*(v.rbegin() + (n - 1 - i)) == base + off + i, "alias", op, ": iteration visits another sample");
	}
}

template <class T, eSignalDomain D>
void Nest(Gen& g) {
	const size_t n = g.length(0, 60);
	const auto data = Data<T>(g, n, STYLE_RAMP);
	BasicSignal<T, D> owner(data.begin(), data.end());
	std::vector<T> model = data;
	g.note(TypeName<T>(), " owner of ", n);
	T* base = owner.data();
	const BasicSignal<T, D>& cowner = owner;

	// Root view: every construction route.
	BasicSignalView<T, D> v;
	CheckView(g, v, base, 0, 0, "default constructed");
	BasicSignalView<const T, D> cv;
	size_t off = 0, len = n;
	const char* op = "";
	switch (g.draw(7)) {
		case 0: op = "view(signal)"; v = BasicSignalView<T, D>(owner); cv = BasicSignalView<const T, D>(cowner); break;
		case 1: op = "AsView(signal)"; v = AsView(owner); cv = AsView(cowner); break;
		case 2: op = "AsConstView"; v = AsView(AsView(owner)); cv = AsConstView(owner); break;
		case 3: op = "AsConstView(view)"; v = AsView(owner); cv = AsConstView(v); break;
		case 4: {
			op = "view(iterators)";
			off = g.draw(n);
			len = g.draw(n - off);
			v = BasicSignalView<T, D>(owner.begin() + off, owner.begin() + off + len);
			cv = BasicSignalView<const T, D>(cowner.begin() + off, cowner.begin() + off + len);
			break;
		}
		case 5: {
			op = "view(iterator,size)";
			off = g.draw(n);
			len = g.draw(n - off);
			v = BasicSignalView<T, D>(owner.begin() + off, len);
			cv = BasicSignalView<const T, D>(cowner.begin() + off, len);
			break;
		}
		case 6: {
			op = "AsView<domain>(iterators)";
			off = g.draw(n);
			len = g.draw(n - off);
			v = AsView<D>(owner.begin() + off, owner.begin() + off + len);
			cv = AsConstView<D>(cowner.begin() + off, cowner.begin() + off + len);
			break;
		}
		default: {
			op = "AsView<domain>(iterator,size)";
			off = g.draw(n);
			len = g.draw(n - off);
			v = AsView<D>(owner.begin() + off, len);
			cv = AsConstView<D>(cowner.begin() + off, len);
			break;
		}
	}
	g.note(op, " off ", off, " len ", len);
	g.label(op);
	CheckView(g, v, base, off, len, op);
	CheckView(g, cv, (const T*)base, off, len, op);
	const BasicSignalView<const T, D> fromMutable = v;
	CheckView(g, fromMutable, (const T*)base, off, len, "const view from mutable view");

	const size_t depth = g.draw(6);
	for (size_t d = 0; d < depth; ++d) {
		switch (g.draw(4)) {
			case 0: {
				op = "first";
				const size_t k = g.draw(len);
				v = v.first(k);
				cv = cv.first(k);
				len = k;
				break;
			}
			case 1: {
				op = "last";
				const size_t k = g.draw(len);
				v = v.last(k);
				cv = cv.last(k);
				off += len - k;
				len = k;
				break;
			}
			case 2: {
				op = "subsignal(offset)";
				const size_t k = g.draw(len);
				v = v.subsignal(k);
				cv = cv.subsignal(k);
				off += k;
				len -= k;
				break;
			}
			case 3: {
				op = "subsignal(offset,count)";
				const size_t k = g.draw(len);
				const size_t c = g.draw(len - k);
				v = v.subsignal(k, c);
				cv = cv.subsignal(k, c);
				off += k;
				len = c;
				break;
			}
			default: {
				op = "copy/assign";
				BasicSignalView<T, D> w(v);
				v = BasicSignalView<T, D>{};
				v = w;
				break;
			}
		}
		g.note(op, " -> off ", off, " len ", len);
		g.label(op);
		CheckView(g, v, base, off, len, op);
		CheckView(g, cv, (const T*)base, off, len, op);
	}

	// Aliasing: interleaved writes through owner and view.
	const size_t writes = g.draw(6);
	for (size_t w = 0; w < writes && len > 0; ++w) {
		const size_t i = g.draw(len - 1);
		const T val = T(real_of_t<T>(50 + w));
		switch (g.draw(4)) {
			case 0: v[i] = val; break;
			case 1: *(v.begin() + i) = val; break;
			case 2: v.data()[i] = val; break;
			case 3: *(v.rbegin() + (len - 1 - i)) = val; break;
			default: owner[off + i] = val; break;
		}
		model[off + i] = val;
		for (size_t k = 0; k < n; ++k) {
			CHK(Same(owner[k], model[k]), "alias-write", "after writing element ", i, ": owner sample ", k, " is ", CStr(ToC(owner[k])), " want ", CStr(ToC(model[k])));
		}
		for (size_t k = 0; k < len; ++k) {
			CHK(Same(T(cv[k]), model[off + k]) && Same(T(v[k]), model[off + k]), "alias-read", "view does not observe the change");
		}
	}
	CHK(owner.data() == base && owner.size() == n, "owner", "owner was reallocated");
	g.nontrivial(n > 0 && depth >= 1);
}

PROP("view-window", 60000, "owner, construction route, nested sub-views, interleaved writes; non-trivial = non-empty owner and at least one sub-view step") {
	switch (g.draw(4)) {
		case 0: Nest<float, TIME_DOMAIN>(g); break;
		case 1: Nest<double, FREQUENCY_DOMAIN>(g); break;
		case 2: Nest<cf, TIME_DOMAIN>(g); break;
		case 3: Nest<int16_t, QUEFRENCY_DOMAIN>(g); break;
		default: Nest<cd, DOMAINLESS>(g); break;
	}
}
