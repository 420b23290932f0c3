// P03: element-wise arithmetic equals the scalar operation at every index.
#include "common.hpp"
using namespace h;

enum eOp { ADD,
		   SUB,
		   MUL,
		   DIV };
constexpr const char* opName[] = { "+", "-", "*", "/" };

template <class A, class B>
auto Apply(int op, const A& a, const B& b) {
	using R = decltype(a + b);
	switch (op) {
		case ADD: return R(a + b);
		case SUB: return R(a - b);
		case MUL: return R(a * b);
		default: return R(a / b);
	}
}

/// Reference in extended precision.
template <class A, class B>
cld Wide(int op, const A& a, const B& b) {
	const cld x = ToC(a), y = ToC(b);
	switch (op) {
		case ADD: return x + y;
		case SUB: return x - y;
		case MUL: return x * y;
		default: {
			if (y.imag() == 0) {
				return { x.real() / y.real(), x.imag() / y.real() };
			}
			const ld d = y.real() * y.real() + y.imag() * y.imag();
			return cld(x.real() * y.real() + x.imag() * y.imag(), x.imag() * y.real() - x.real() * y.imag()) / d;
		}
	}
}

template <class A, class B>
bool Matches(int op, const A& a, const B& b, const decltype(std::declval<A>() + std::declval<B>())& got) {
	using R = std::remove_cvref_t<decltype(got)>;
	if (Same(R(Apply(op, a, b)), got)) {
		return true;
	}
	if constexpr (is_cplx_v<R>) {
		// SIMD complex products/quotients may round differently from the scalar ones: a few ulp of the operand magnitudes.
		const cld w = Wide(op, a, b);
		ld mag = AbsC(w);
		if (op == ADD || op == SUB) {
			return AbsC(ToC(got) - w) <= 2 * Eps<R>() * (AbsL(a) + AbsL(b));
		}
		return AbsC(ToC(got) - w) <= 8 * Eps<R>() * mag + 1e-30L;
	}
	else {
		return false;
	}
}

template <class T>
T NonZero(const T& v) { return AbsL(v) == 0 ? T(real_of_t<T>(1)) : v; }

template <class A, class B, eSignalDomain D>
void VecVec(Gen& g) {
	using R = decltype(std::declval<A>() * std::declval<B>());
	const int op = (int)g.draw(3);
	const size_t n = g.length(0, 300);
	auto a = Data<A>(g, n);
	auto b = Data<B>(g, n);
	const size_t sa = g.draw(7), sb = g.draw(7), sr = g.draw(7);
	if (op == DIV) {
		for (auto& x : b) {
			x = NonZero(x);
		}
	}
	const int form = (int)g.draw(5);
	if constexpr (std::is_same_v<A, B>) {
		if (g.chance(1, 12)) {
			// One object for both operands, and maybe the result too.
			BasicSignal<A, D> x(b.begin(), b.end());
			const bool in = g.flag();
			g.note(TypeName<A>(), opName[op], "itself n=", n, in ? " in place " : " ", Show(b, 4));
			g.label("operand with itself");
			g.nontrivial(n >= 5);
			const auto r = [&] {
				if (in) {
					switch (op) {
						case ADD: x += x; break;
						case SUB: x -= x; break;
						case MUL: x *= x; break;
						default: x /= x; break;
					}
					return x;
				}
				switch (op) {
					case ADD: return x + x;
					case SUB: return x - x;
					case MUL: return x * x;
					default: return x / x;
				}
			}();
			CHK(r.size() == n, "size", "result size ", r.size());
			for (size_t i = 0; i < n; ++i) CHK(Matches(op, b[i], b[i], r[i]), "value", opName[op], " with itself, index ", i, ": got ", CStr(ToC(r[i])), " want ", CStr(ToC(R(Apply(op, b[i], b[i])))));
			return;
		}
	}
	g.note(TypeName<A>(), opName[op], TypeName<B>(), " n=", n, " form ", form, " align ", sa, sb, sr, " a=", Show(a, 4), " b=", Show(b, 4));
	g.label(std::string("op ") + opName[op]);
	g.label("vec-vec form " + std::to_string(form));
	g.nontrivial(n >= 5);
	auto verify = [&](const auto& r, const char* what) {
		using RR = typename std::remove_cvref_t<decltype(r)>::value_type;
		static_assert(std::is_same_v<std::remove_cv_t<RR>, R>);
		CHK(r.size() == n, "size", what, ": result size ", r.size(), " want ", n);
		for (size_t i = 0; i < n; ++i) {
			CHK(Matches(op, a[i], b[i], r[i]), "value", what, " ", opName[op], " index ", i, " of ", n, ": got ", CStr(ToC(r[i])), " want ", CStr(ToC(R(Apply(op, a[i], b[i])))));
		}
	};
	Guarded<A> ga(a, sa, 3);
	Guarded<B> gb(b, sb, 5);
	auto va = ga.template view<D>();
	auto vb = gb.template view<D>();
	const auto cva = ga.template cview<D>();
	const auto cvb = gb.template cview<D>();
	if (form == 0) { // operators on signals
		const BasicSignal<A, D> sA(a.begin(), a.end());
		const BasicSignal<B, D> sB(b.begin(), b.end());
		switch (op) {
			case ADD: verify(sA + sB, "signal"); break;
			case SUB: verify(sA - sB, "signal"); break;
			case MUL: verify(sA * sB, "signal"); break;
			default: verify(sA / sB, "signal"); break;
		}
		for (size_t i = 0; i < n; ++i) {
			CHK(Same(sA[i], a[i]) && Same(sB[i], b[i]), "input-changed", "operand modified");
		}
	}
	else if (form == 1) { // operators on views
		switch (op) {
			case ADD: verify(va + vb, "view"); break;
			case SUB: verify(va - vb, "view"); break;
			case MUL: verify(va * vb, "view"); break;
			default: verify(va / vb, "view"); break;
		}
	}
	else if (form == 2) { // three operand
		Guarded<R> gr(n, sr, 7);
		auto vr = gr.template view<D>();
		switch (op) {
			case ADD: Add(vr, cva, cvb); break;
			case SUB: Subtract(vr, cva, cvb); break;
			case MUL: Multiply(vr, cva, cvb); break;
			default: Divide(vr, cva, cvb); break;
		}
		verify(vr, "three-operand");
		CHK(gr.padIntact(), "stray-write", "samples outside the output were written");
	}
	else if (form == 3) { // compound, in place on the left
		if constexpr (std::is_same_v<R, A>) {
			switch (op) {
				case ADD: va += vb; break;
				case SUB: va -= vb; break;
				case MUL: va *= vb; break;
				default: va /= vb; break;
			}
			verify(va, "compound");
			CHK(ga.padIntact(), "stray-write", "compound wrote outside the output");
			CHK(gb.untouched(), "input-changed", "compound changed the right operand");
			return;
		}
	}
	else if (form == 4) { // three operand, output aliases an input
		if constexpr (std::is_same_v<R, A>) {
			switch (op) {
				case ADD: Add(va, cva, cvb); break;
				case SUB: Subtract(va, cva, cvb); break;
				case MUL: Multiply(va, cva, cvb); break;
				default: Divide(va, cva, cvb); break;
			}
			verify(va, "output=left");
			CHK(ga.padIntact() && gb.untouched(), "stray-write", "in-place three operand form wrote elsewhere");
			return;
		}
		else if constexpr (std::is_same_v<R, B>) {
			switch (op) {
				case ADD: Add(vb, cva, cvb); break;
				case SUB: Subtract(vb, cva, cvb); break;
				case MUL: Multiply(vb, cva, cvb); break;
				default: Divide(vb, cva, cvb); break;
			}
			verify(vb, "output=right");
			CHK(gb.padIntact() && ga.untouched(), "stray-write", "in-place three operand form wrote elsewhere");
			return;
		}
	}
	else { // output aliases the right input / signals compound
		if constexpr (std::is_same_v<R, B>) {
			BasicSignal<A, D> sA(a.begin(), a.end());
			BasicSignal<B, D> sB(b.begin(), b.end());
			switch (op) {
				case ADD: Add(sB, sA, sB); break;
				case SUB: Subtract(sB, sA, sB); break;
				case MUL: Multiply(sB, sA, sB); break;
				default: Divide(sB, sA, sB); break;
			}
			verify(sB, "signal output=right");
		}
		else if constexpr (std::is_same_v<R, A>) {
			BasicSignal<A, D> sA(a.begin(), a.end());
			const BasicSignal<B, D> sB(b.begin(), b.end());
			switch (op) {
				case ADD: sA += sB; break;
				case SUB: sA -= sB; break;
				case MUL: sA *= sB; break;
				default: sA /= sB; break;
			}
			verify(sA, "signal compound");
		}
	}
	CHK(ga.untouched() && gb.untouched(), "input-changed", "an input that is not the output was modified");
}

template <class A, class S, eSignalDomain D, bool ScalarLeft>
void VecScalar(Gen& g) {
	using R = decltype(std::declval<A>() * std::declval<S>());
	const int op = (int)g.draw(3);
	const size_t n = g.length(0, 300);
	auto a = Data<A>(g, n);
	S s = Data<S>(g, 3, STYLE_WIDE)[2];
	const size_t sa = g.draw(7), sr = g.draw(7);
	if (op == DIV) {
		s = NonZero(s);
		for (auto& x : a) {
			x = NonZero(x);
		}
	}
	const int form = (int)g.draw(4);
	// The scalar may be one of the samples that are overwritten.
	const bool own = form >= 3 && n > 0 && g.chance(1, 3);
	const size_t at = own ? g.draw(n - 1) : 0;
	const S* sp = &s;
	if constexpr (std::is_same_v<A, S>) {
		if (own) {
			s = a[at];
			g.label("scalar in the destination");
		}
	}
	const auto pick = [&]([[maybe_unused]] auto& signal) {
		if constexpr (std::is_same_v<A, S>) {
			if (own) sp = &signal[at];
		}
	};
	g.note(ScalarLeft ? "scalar left " : "scalar right ", TypeName<A>(), opName[op], TypeName<S>(), " n=", n, " form ", form, " s=", CStr(ToC(s)), " a=", Show(a, 4));
	g.label(std::string("op ") + opName[op]);
	g.label(std::string(ScalarLeft ? "scalar-left" : "scalar-right") + " form " + std::to_string(form));
	g.nontrivial(n >= 5);
	auto verify = [&](const auto& r, const char* what) {
		using RR = typename std::remove_cvref_t<decltype(r)>::value_type;
		static_assert(std::is_same_v<std::remove_cv_t<RR>, R>);
		CHK(r.size() == n, "size", what, ": result size ", r.size(), " want ", n);
		for (size_t i = 0; i < n; ++i) {
			if constexpr (ScalarLeft) {
				CHK(Matches(op, s, a[i], r[i]), "value", what, " scalar", opName[op], "signal index ", i, " of ", n, ": got ", CStr(ToC(r[i])), " want ", CStr(ToC(R(Apply(op, s, a[i])))));
			}
			else {
				CHK(Matches(op, a[i], s, r[i]), "value", what, " signal", opName[op], "scalar index ", i, " of ", n, ": got ", CStr(ToC(r[i])), " want ", CStr(ToC(R(Apply(op, a[i], s)))));
			}
		}
	};
	Guarded<A> ga(a, sa, 3);
	auto va = ga.template view<D>();
	const auto cva = ga.template cview<D>();
	auto oper = [&](const auto& x) {
		if constexpr (ScalarLeft) {
			switch (op) {
				case ADD: verify(*sp + x, "operator"); break;
				case SUB: verify(*sp - x, "operator"); break;
				case MUL: verify(*sp * x, "operator"); break;
				default: verify(*sp / x, "operator"); break;
			}
		}
		else {
			switch (op) {
				case ADD: verify(x + *sp, "operator"); break;
				case SUB: verify(x - *sp, "operator"); break;
				case MUL: verify(x * *sp, "operator"); break;
				default: verify(x / *sp, "operator"); break;
			}
		}
	};
	auto three = [&](auto& r, const auto& x) {
		if constexpr (ScalarLeft) {
			switch (op) {
				case ADD: Add(r, *sp, x); break;
				case SUB: Subtract(r, *sp, x); break;
				case MUL: Multiply(r, *sp, x); break;
				default: Divide(r, *sp, x); break;
			}
		}
		else {
			switch (op) {
				case ADD: Add(r, x, *sp); break;
				case SUB: Subtract(r, x, *sp); break;
				case MUL: Multiply(r, x, *sp); break;
				default: Divide(r, x, *sp); break;
			}
		}
	};
	if (form == 0) {
		const BasicSignal<A, D> sA(a.begin(), a.end());
		oper(sA);
	}
	else if (form == 1) {
		oper(va);
	}
	else if (form == 2) {
		Guarded<R> gr(n, sr, 7);
		auto vr = gr.template view<D>();
		three(vr, cva);
		verify(vr, "three-operand");
		CHK(gr.padIntact(), "stray-write", "samples outside the output were written");
	}
	else if (form == 3) {
		if constexpr (std::is_same_v<R, A>) {
			pick(va);
			three(va, cva);
			verify(va, "three-operand in place");
			CHK(ga.padIntact(), "stray-write", "samples outside the output were written");
			return;
		}
	}
	else {
		if constexpr (std::is_same_v<R, A> && !ScalarLeft) {
			if (g.flag()) {
				BasicSignal<A, D> sA(a.begin(), a.end());
				pick(sA);
				switch (op) {
					case ADD: sA += *sp; break;
					case SUB: sA -= *sp; break;
					case MUL: sA *= *sp; break;
					default: sA /= *sp; break;
				}
				verify(sA, "compound");
			}
			else {
				pick(va);
				switch (op) {
					case ADD: va += *sp; break;
					case SUB: va -= *sp; break;
					case MUL: va *= *sp; break;
					default: va /= *sp; break;
				}
				verify(va, "compound");
				CHK(ga.padIntact(), "stray-write", "samples outside the output were written");
			}
			if (g.m_checks) {
				return;
			}
		}
	}
	CHK(ga.untouched(), "input-changed", "an input that is not the output was modified");
}

#if PBT_IN_PART(0)
PROP("vector-vector", 60000, "types, operator, length 0..300, alignments, form (operator on signals/views, three-operand, compound, output aliasing an input); non-trivial = at least 5 samples") {
	switch (g.draw(14)) {
		case 0: VecVec<float, float, TIME_DOMAIN>(g); break;
		case 1: VecVec<double, double, FREQUENCY_DOMAIN>(g); break;
		case 2: VecVec<cf, cf, TIME_DOMAIN>(g); break;
		case 3: VecVec<cd, cd, FREQUENCY_DOMAIN>(g); break;
		case 4: VecVec<float, cf, TIME_DOMAIN>(g); break;
		case 5: VecVec<cf, float, TIME_DOMAIN>(g); break;
		case 6: VecVec<double, cd, QUEFRENCY_DOMAIN>(g); break;
		case 7: VecVec<cd, double, TIME_DOMAIN>(g); break;
		case 8: VecVec<float, double, TIME_DOMAIN>(g); break;
		case 9: VecVec<double, float, DOMAINLESS>(g); break;
		case 10: VecVec<int32_t, int32_t, TIME_DOMAIN>(g); break;
		case 11: VecVec<float, int32_t, TIME_DOMAIN>(g); break;
		case 12: VecVec<uint32_t, float, TIME_DOMAIN>(g); break;
		case 13: VecVec<double, int64_t, TIME_DOMAIN>(g); break;
		default: VecVec<int32_t, float, TIME_DOMAIN>(g); break;
	}
}

#endif
#if PBT_IN_PART(1)
PROP("vector-scalar", 60000, "types, operator, scalar side, length 0..300, alignments, form; non-trivial = at least 5 samples") {
	switch (g.draw(15)) {
		case 0: VecScalar<float, float, TIME_DOMAIN, false>(g); break;
		case 1: VecScalar<float, float, TIME_DOMAIN, true>(g); break;
		case 2: VecScalar<double, double, FREQUENCY_DOMAIN, false>(g); break;
		case 3: VecScalar<double, double, TIME_DOMAIN, true>(g); break;
		case 4: VecScalar<cf, cf, FREQUENCY_DOMAIN, false>(g); break;
		case 5: VecScalar<cf, cf, TIME_DOMAIN, true>(g); break;
		case 6: VecScalar<cf, float, TIME_DOMAIN, false>(g); break;
		case 7: VecScalar<cf, float, FREQUENCY_DOMAIN, true>(g); break;
		case 8: VecScalar<float, cf, TIME_DOMAIN, false>(g); break;
		case 9: VecScalar<float, cf, TIME_DOMAIN, true>(g); break;
		case 10: VecScalar<cd, double, TIME_DOMAIN, false>(g); break;
		case 11: VecScalar<double, cd, QUEFRENCY_DOMAIN, true>(g); break;
		case 12: VecScalar<float, double, TIME_DOMAIN, false>(g); break;
		case 13: VecScalar<float, int32_t, TIME_DOMAIN, true>(g); break;
		case 14: VecScalar<int32_t, int32_t, TIME_DOMAIN, false>(g); break;
		default: VecScalar<int32_t, int32_t, TIME_DOMAIN, true>(g); break;
	}
}

// Compound assignment with a scalar of another type: the signal keeps its type, the value is the converted scalar result.
template <class A, class S>
void Mixed(Gen& g) {
	const int op = (int)g.draw(3);
	const size_t n = g.length(0, 200);
	auto a = Data<A>(g, n, STYLE_SPARSE);
	S s = Data<S>(g, 3, STYLE_SPARSE)[2];
	if (op == DIV) {
		s = NonZero(s);
	}
	g.note(TypeName<A>(), opName[op], "=", TypeName<S>(), " n=", n, " s=", CStr(ToC(s)), " a=", Show(a, 4));
	g.nontrivial(n >= 5);
	Guarded<A> ga(a, g.draw(7), 3);
	auto va = ga.view();
	switch (op) {
		case ADD: va += s; break;
		case SUB: va -= s; break;
		case MUL: va *= s; break;
		default: va /= s; break;
	}
	for (size_t i = 0; i < n; ++i) {
		const cld want = Wide(op, a[i], s);
		NEAR("value", va[i], want, 3 * Eps<A>() * (AbsC(want) + (op < MUL ? AbsL(a[i]) + AbsL(s) : 0.0L)), "signal", opName[op], "=scalar index ", i, " of ", n);
	}
	CHK(ga.padIntact(), "stray-write", "samples outside the output were written");
}
PROP("compound-mixed-scalar", 20000, "float/double signal compound-assigned with a scalar of another real type; non-trivial = at least 5 samples") {
	switch (g.draw(3)) {
		case 0: Mixed<float, int32_t>(g); break;
		case 1: Mixed<float, double>(g); break;
		case 2: Mixed<double, float>(g); break;
		default: Mixed<double, int32_t>(g); break;
	}
}
#endif
