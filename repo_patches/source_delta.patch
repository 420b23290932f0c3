From 78e08ecdd60383e54fd1cbda09e22438bb68f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 01/38] fix: single-precision LGamma was wrong for samples that
 share a SIMD batch with others from a different range

---
 include/dspbb/Kernels/Math.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 2cc1f25..5d035b7 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -84,9 +84,24 @@ using std::tgamma;
 
 using xsimd::erf;
 using xsimd::erfc;
-using xsimd::lgamma;
 using xsimd::tgamma;
 
+template <class Arch>
+xsimd::batch<double, Arch> lgamma(const xsimd::batch<double, Arch>& x) {
+	return xsimd::lgamma(x);
+}
+
+// The single precision xsimd::lgamma gives wrong results when the lanes of a batch fall in different ranges.
+template <class Arch>
+xsimd::batch<float, Arch> lgamma(const xsimd::batch<float, Arch>& x) {
+	alignas(Arch::alignment()) float lanes[xsimd::batch<float, Arch>::size];
+	x.store_aligned(lanes);
+	for (auto& lane : lanes) {
+		lane = std::lgamma(lane);
+	}
+	return xsimd::batch<float, Arch>::load_aligned(lanes);
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 02f4f244b47577f486aa4326811dfa8aededdc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 02/38] fix: even central moments of order six and above kept
 the sign of the deviations

---
 include/dspbb/Math/Statistics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..44fd6ea 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -84,8 +84,9 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 	const auto mg = [](const auto& a, auto mean, auto k) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
-		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		const V d = a - mean;
+		const V sign = k % 2 == 0 ? V(kernels::math_functions::abs(d)) : d; // Even powers are never negative.
+		return sign * kernels::math_functions::pow(V(kernels::math_functions::abs(d)), V(T(k) - T(1)));
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From 7a5e85fec0b485d13ab608362122bed00775ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 03/38] fix: central convolution with an empty operand
 underflowed its offset and asserted

---
 include/dspbb/Math/Convolution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index 359ced7..a646717 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -74,7 +74,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = centralLength != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	Convolution(out, u, v, offset, clearOut);
 }
 
@@ -100,7 +100,7 @@ auto Convolution(const SignalT& u, const SignalU& v, impl::ConvFull) {
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto Convolution(const SignalT& u, const SignalU& v, impl::ConvCentral) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = length != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	return Convolution(u, v, offset, length);
 }
 
-- 
2.43.0


From 0d1db09e594b8fd79e50c7e13d2681c324c71c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 04/38] fix: FftShift and IfftShift garbled samples when
 shifting in place through two view objects

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From 1971865a91f7c3577eb4ccb7db121780041e761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 05/38] fix: multiplying a Rational by a negative integer
 produced a negative denominator and asserted

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 382604de3f015c463732d73b285fbd543fe49197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 06/38] fix: floor and frac of a negative Rational rounded
 towards zero, and ceil overflowed near the maximum

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..16fc423 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() > 0 ? quotient + 1 : quotient;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() < 0 ? quotient - 1 : quotient;
 }
 
 template <class T>
-- 
2.43.0


From 30bbf6482cfe71fc0b9462ceec448396f6436f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 07/38] fix: Interval comparison ignored the value of the upper
 end

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From ebfda1821627c55d55edcc76b6110a466f1cfcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 08/38] fix: FactoredPolynomial assignment operators did not
 return a value

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From 1407897ef867632d3c17c391ed491cf0eabc9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 09/38] fix: growing the real roots of a FactoredPolynomial
 moved the complex pairs to the wrong place

---
 include/dspbb/Math/Polynomials.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..692e4c6 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,8 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		const size_t numKept = 2 * std::min(currentComplexPairs, numComplexPairs);
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + currentRealRoots + numKept, m_mem.begin() + numRealRoots + numKept);
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From ca1d546bf8426564fcf262c8f762262621ebef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 10/38] fix: a cascade made from a system without zeros and
 poles lost its gain

---
 include/dspbb/Filtering/IIR/Realizations.hpp |  4 ++--
 include/dspbb/LTISystems/Systems.hpp         | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..6427400 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -203,13 +203,13 @@ private:
 
 template <class T>
 CascadedForm<T>::CascadedForm(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
 template <class T>
 void CascadedForm<T>::order(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..bef461b 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -97,7 +97,7 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 	std::sort(zeroPolys.begin(), zeroPolys.end(), polyAscending);
 	std::sort(polePolys.begin(), polePolys.end(), polyAscending);
 
-	const size_t numSections = std::max(zeroPolys.size(), polePolys.size());
+	const size_t numSections = std::max({ size_t(1), zeroPolys.size(), polePolys.size() }); // The gain needs at least one section.
 	sections.resize(numSections);
 	for (size_t i = 0; i < zeroPolys.size(); ++i) {
 		sections[i].numerator = zeroPolys[i].second;
@@ -107,11 +107,9 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 		sections[i].denominator = { polePolys[i].second[0], polePolys[i].second[1] };
 		sections[i].denOrder = polePolys[i].first;
 	}
-	if (!sections.empty()) {
-		sections.back().numerator[0] *= zpk.gain;
-		sections.back().numerator[1] *= zpk.gain;
-		sections.back().numerator[2] *= zpk.gain;
-	}
+	sections.back().numerator[0] *= zpk.gain;
+	sections.back().numerator[1] *= zpk.gain;
+	sections.back().numerator[2] *= zpk.gain;
 }
 
 template <class T>
-- 
2.43.0


From a80639cc5fd0649f119b60eac2453960eea7029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 11/38] fix: CascadedBiquad::order reported one more than the
 order of the system

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index bef461b..f5efb91 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -128,13 +128,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From 05878d0ede68311ee293f517ee08b9858b9799dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 12/38] fix: Halfband2Highpass gave NaN or imprecise systems
 for cutoffs at or near one half

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..4938d4d 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
-- 
2.43.0


From 7936ba70d71b5808584a538cfe7f9e8953922a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 13/38] fix: Halfband2Bandpass gave NaN or imprecise systems
 for bands at or near half of the spectrum wide

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 4938d4d..50e60de 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = 1;
+	const T a1 = (std::cos(w1) + std::cos(w2) - std::sin(w1) + std::sin(w2)) / (-1 + std::sin(w1 - w2));
+	const T a0 = -1 - 2 / (-1 + std::tan((w1 - w2) / 2));
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 879f598baadb902f9782f7173f0c63741a3f8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 14/38] fix: CarlsonRF took the wrong branch of the square
 roots for complex arguments in the left half-plane

---
 include/dspbb/Math/EllipticFunctions.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 63e2829..a4f88ec 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -41,11 +41,10 @@ T CarlsonRF(T x, T y, T z) {
 	T lambdan = T(0);
 
 	while (Qn > std::abs(An)) {
-		const auto lambdan2 = lambdan * lambdan;
-		const auto l1 = std::sqrt(x * y + (x + y) * lambdan + lambdan2);
-		const auto l2 = std::sqrt(x * z + (x + z) * lambdan + lambdan2);
-		const auto l3 = std::sqrt(z * y + (z + y) * lambdan + lambdan2);
-		lambdan += l1 + l2 + l3;
+		const auto sx = std::sqrt(x + lambdan);
+		const auto sy = std::sqrt(y + lambdan);
+		const auto sz = std::sqrt(z + lambdan);
+		lambdan += sx * sy + sx * sz + sy * sz;
 		x /= S(4);
 		y /= S(4);
 		z /= S(4);
-- 
2.43.0


From 29519e2fe161f3c21b57d7cee4bd907690277c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 15/38] fix: EllipticArcSN lost the sign of its argument

---
 include/dspbb/Math/EllipticFunctions.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index a4f88ec..e103aed 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -233,11 +233,10 @@ auto EllipticDN(T1 x, T2 k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 T EllipticArcSN(T x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -260,11 +259,10 @@ T EllipticArcDN(T x, T k) {
 
 template <class T>
 std::complex<T> EllipticArcSN(std::complex<T> x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T>
-- 
2.43.0


From 32ac3d6d29e21b692c1941c87bcb6d2cef333359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 16/38] fix: EllipticArcCN lost the sign of its argument

---
 include/dspbb/Math/EllipticFunctions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index e103aed..93790f0 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -245,7 +245,8 @@ T EllipticArcCN(T x, T k) {
 	const auto a = x * x;
 	const auto b = T(1);
 	const auto c = T(1) - k * k + k * k * x * x;
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
+	return std::real(x) < T(0) ? T(2) * EllipticK(k) - u : u; // cn(2K - u) = -cn(u)
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -271,7 +272,8 @@ std::complex<T> EllipticArcCN(std::complex<T> x, T k) {
 	const auto a = x * x;
 	const auto b = T(1);
 	const auto c = T(1) - k * k + k * k * x * x;
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
+	return std::real(x) < T(0) ? T(2) * EllipticK(k) - u : u; // cn(2K - u) = -cn(u)
 }
 
 template <class T>
-- 
2.43.0


From e5a8d9b6bbec8b693ca97d3aebc950a933ce443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 17/38] fix: real Jacobi elliptic functions were wrong for a
 modulus above one

---
 include/dspbb/Math/EllipticFunctions.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 93790f0..c5f11f7 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -156,11 +156,6 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 	if (kPrime < T(0)) {
 		kPrime = -kPrime;
 	}
-	if (kPrime > T(1)) {
-		xPrime *= kPrime;
-		factorSn /= kPrime;
-		kPrime = T(1) / kPrime;
-	}
 
 	if (xPrime > pi_v<T> / 2) {
 		const auto K = EllipticK(k);
@@ -177,6 +172,12 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 std::tuple<T, T, T> EllipticSNCNDN(T x, T k) {
+	if (std::abs(k) > T(1)) { // Reciprocal modulus: cn and dn change places.
+		const T kAbs = std::abs(k);
+		const auto [sn, cn, dn] = EllipticSNCNDN(x * kAbs, T(1) / kAbs);
+		return { sn / kAbs, dn, cn };
+	}
+
 	const auto [xPrime, kPrime, factorSn, factorCn, factorDn] = EllipticReduceRange(x, k);
 
 	const T am = EllipticAM(xPrime, kPrime);
-- 
2.43.0


From c69036f87fc963ddfd50ffe570ab58be76ab4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 18/38] fix: elliptic designs lost the complementary modulus to
 rounding (NaN in single precision for small ripples)

---
 include/dspbb/Filtering/IIR/Elliptic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Elliptic.hpp b/include/dspbb/Filtering/IIR/Elliptic.hpp
index 101bfc3..c43fbe1 100644
--- a/include/dspbb/Filtering/IIR/Elliptic.hpp
+++ b/include/dspbb/Filtering/IIR/Elliptic.hpp
@@ -31,17 +31,18 @@ namespace impl {
 		const T k1 = epsilon / std::sqrt(T(1) / (stopbandRipple * stopbandRipple) - T(1));
 		const T k1p = std::sqrt(T(1) - k1 * k1);
 		const T K1 = EllipticK(k1);
-		const T K1p = EllipticK(k1p);
+		// The complementary integral is K' = RF(0, k^2, 1): going through k' would lose all digits of a small k.
+		const T K1p = CarlsonRF(T(0), k1 * k1, T(1));
 
 		const T Kratio = T(order) * K1 / K1p;
 
 		// Bisecting may not be too efficient...
 		// There is an algorithm in A. H. Gray and J. D. Markel, "A Computer Program for Designing Digital Elliptic Filters"
 		// But I have no damn clue how that works, or even if it does what I want
-		const T k = Bisect([&Kratio](auto k) { return EllipticK(k) / EllipticK(std::sqrt(T(1) - k * k)) - Kratio; }, T(0), T(1));
+		const T k = Bisect([&Kratio](auto k) { return EllipticK(k) / CarlsonRF(T(0), k * k, T(1)) - Kratio; }, T(0), T(1));
 		const T kp = std::sqrt(T(1) - k * k);
 		const T K = EllipticK(k);
-		const T Kp = EllipticK(kp);
+		const T Kp = CarlsonRF(T(0), k * k, T(1));
 
 		return { k, kp, K, Kp, k1, k1p, K1, K1p, epsilon };
 	}
-- 
2.43.0


From fe7ec4132f25939c4bf3611a1006bd75a16966f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 19/38] fix: DirectFormII did not normalize the recursion by
 the leading denominator coefficient

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 6427400..6cb1551 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (static_cast<T>(input) - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From 9aa3ca079e96303df12467b369fa603935bb3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 20/38] fix: overlap-add with an empty operand asserted, and
 with it streaming through a single tap or an empty chunk

---
 include/dspbb/Math/OverlapAdd.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..1d77a61 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,16 +122,19 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
-	if (chunkSize == 0) {
-		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
-	}
-	assert(chunkSize >= 2 * v.size() - 1);
 	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
 	assert(offset + out.size() <= fullLength && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
 	if (clearOut) {
 		using R = typename signal_traits<std::decay_t<SignalR>>::type;
 		std::fill(out.begin(), out.end(), R(remove_complex_t<R>(0)));
 	}
+	if (v.size() == 0) {
+		return; // The convolution is empty, there is nothing to add.
+	}
+	if (chunkSize == 0) {
+		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
+	}
+	assert(chunkSize >= 2 * v.size() - 1);
 
 	using T = std::remove_cv_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	using U = std::remove_cv_t<typename signal_traits<std::decay_t<SignalU>>::type>;
@@ -178,7 +181,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_mutab
 void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = centralLength != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	OverlapAdd(out, u, v, offset, chunkSize, clearOut);
 }
 
@@ -205,7 +208,7 @@ auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvFull, size_t chunk
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = length != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	return OverlapAdd(u, v, offset, length, chunkSize);
 }
 
-- 
2.43.0


From 0f3f65c1f89c1f83b62d841be231c870c0190b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 21/38] fix: windowed low-pass designs with zero cutoff (and
 bands of zero width) were NaN

---
 include/dspbb/Filtering/FIR/Windowed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Windowed.hpp b/include/dspbb/Filtering/FIR/Windowed.hpp
index c214d34..07f69d6 100644
--- a/include/dspbb/Filtering/FIR/Windowed.hpp
+++ b/include/dspbb/Filtering/FIR/Windowed.hpp
@@ -21,7 +21,7 @@ void KernelWindowedLowpass(SignalR&& coefficients, U cutoffNorm, WindowFunc wind
 	windowFunc(coefficients);
 	for (size_t i = 0; i < size / 2; ++i) {
 		const T x = (T(i) - offset) * scale;
-		const T sinc = std::sin(x) / x;
+		const T sinc = x != T(0) ? std::sin(x) / x : T(1);
 		coefficients[i] *= sinc;
 		coefficients[size - i - 1] *= sinc;
 	}
@@ -40,7 +40,7 @@ void KernelWindowedLowpass(SignalR&& coefficients, U cutoffNorm, const SignalW&
 	const size_t size = coefficients.size();
 	for (size_t i = 0; i < size / 2; ++i) {
 		const T x = (T(i) - offset) * scale;
-		const T sinc = std::sin(x) / x;
+		const T sinc = x != T(0) ? std::sin(x) / x : T(1);
 		coefficients[i] = sinc;
 		coefficients[size - i - 1] = sinc;
 	}
-- 
2.43.0


From cbb1fbf47d158c551157eb581aeeaef5ac2cd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 22/38] fix: least-squares designs without a transition band
 were inverted or NaN

---
 include/dspbb/Filtering/FIR.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..c179203 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -65,6 +65,9 @@ namespace impl {
 
 	template <class T>
 	T LerpParam(T x, T lower, T upper) {
+		if (lower == upper) {
+			return x <= lower ? T(0) : T(1); // No transition band, the parameter steps.
+		}
 		return (x - lower) / (upper - lower);
 	}
 
@@ -101,7 +104,7 @@ template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<S
 auto DesignFilter(SignalR&& out, const impl::least_squares::LowpassDesc<ParamType>& desc) {
 	const auto response = [desc](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffEnd), F(desc.cutoffBegin)));
+		return F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffBegin), F(desc.cutoffEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresSplitWeight(f, desc);
@@ -127,7 +130,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandpassDesc<ParamTy
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
 		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
-						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperEnd), F(desc.upperBegin)));
+						: F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresBandWeight(f, desc);
@@ -140,7 +143,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandstopDesc<ParamTy
 	const ParamType fmid = (desc.lowerEnd + desc.upperBegin) / ParamType(2);
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerEnd), F(desc.lowerBegin)))
+		return f < fmid ? F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
 						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
-- 
2.43.0


From e57a303ee79089ed8f40e5df3d458e7ee1e77fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 23/38] fix: least-squares designs never used a grid denser
 than the number of free coefficients

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..15e7d0d 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -73,7 +73,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max(filterLength, gridSize);
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From f1b600f9fc9caca105aa4e2a30aa9697a8bb0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 24/38] fix: least-squares Hilbert designs ignored the
 requested grid

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index c179203..0f251c0 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -191,7 +191,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0


From a9d319dc49005a4261b164cbdb2a5dd345785ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 25/38] fix: least-squares Hilbert designs without an explicit
 transition width always threw

---
 include/dspbb/Filtering/FIR/Descs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/Descs.hpp b/include/dspbb/Filtering/FIR/Descs.hpp
index c20dc8f..7b3fc7f 100644
--- a/include/dspbb/Filtering/FIR/Descs.hpp
+++ b/include/dspbb/Filtering/FIR/Descs.hpp
@@ -189,7 +189,7 @@ namespace impl {
 
 		template <class ParamType>
 		struct HilbertDesc {
-			ParamType transitionWidth = ParamType(1.0);
+			ParamType transitionWidth = ParamType(0.05);
 			ParamType transitionWeight = ParamType(1.0);
 			size_t grid = 0;
 
-- 
2.43.0


From f33ada6e8350bcbaabc2ce8137e0302821412b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 26/38] fix: MirrorResponse did not compile for views of
 constant samples

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..f6ca651 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -15,7 +15,7 @@ template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<Sig
 void MirrorResponse(SignalR&& mirrored, const SignalT& filter) {
 	assert(mirrored.size() == filter.size());
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
-	using T = typename signal_traits<std::decay_t<SignalT>>::type;
+	using T = std::remove_cv_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	T sign = T(1);
 	for (size_t i = 0; i < filter.size(); ++i, sign *= T(-1)) {
 		mirrored[i] = R(sign * filter[i]);
-- 
2.43.0


From fbe6e176457abdfc6695d350b788d781a270962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 27/38] fix: ShiftResponse left the centre tap unset out of
 place

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index f6ca651..69ae497 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 5dc5815fe523495ce2b96bbf6a879fe256790b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 28/38] fix: ShiftResponse was half a sample off center for
 even sizes

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 69ae497..19f5c90 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -34,7 +34,7 @@ void ComplementaryResponse(SignalR&& complementary, const SignalT& filter) {
 template <class SignalR, class SignalT, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency) {
 	assert(moved.size() == filter.size());
-	const auto offset = static_cast<U>(filter.size() / 2);
+	const U offset = (static_cast<U>(filter.size()) - U(1)) / U(2);
 	const U scale = pi_v<U> * normalizedFrequency;
 	const size_t size = filter.size();
 	for (size_t i = 0; i < size / 2; ++i) {
-- 
2.43.0


From 144864104d5298c36a0f8358e23ebda5caa9cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 29/38] fix: even length Hilbert filters did not compile for
 views

---
 include/dspbb/Filtering/FIR.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 0f251c0..22f7781 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -170,7 +170,9 @@ namespace impl {
 	void FirFilterHilbert(SignalR&& out, const HalfbandDesc& halfbandDesc) {
 		if (out.size() % 2 == 0) {
 			const size_t halfbandSize = out.size() * 2 - 1;
-			std::decay_t<SignalR> halfband(halfbandSize);
+			using T = typename signal_traits<std::decay_t<SignalR>>::type;
+			constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
+			BasicSignal<T, Domain> halfband(halfbandSize);
 			DesignFilter(halfband, halfbandDesc);
 			fir::HalfbandToHilbertEven(out, halfband);
 		}
-- 
2.43.0


From 5f84f1427f841f5872ba929f4256840cf91ca41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 30/38] fix: Interpolate left output samples without input
 contribution unset

---
 include/dspbb/Filtering/Resample.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..0396c2d 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,9 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			hrOutput[hrOutputIdx - hrOffset] = typename signal_traits<std::decay_t<SignalR>>::type(0);
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From ace9d458e5867321301c6668d2d895d758fdc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 31/38] fix: returning forms of parametric windows did not
 compile for complex samples

---
 include/dspbb/Filtering/Windowing.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dspbb/Filtering/Windowing.hpp b/include/dspbb/Filtering/Windowing.hpp
index 3c28cf0..8f8a91e 100644
--- a/include/dspbb/Filtering/Windowing.hpp
+++ b/include/dspbb/Filtering/Windowing.hpp
@@ -249,14 +249,14 @@ BasicSignal<T, Domain> BlackmanHarrisWindow(size_t length) {
 }
 
 template <class T, eSignalDomain Domain = eSignalDomain::TIME>
-BasicSignal<T, Domain> GaussianWindow(size_t length, T sigma = T(1)) {
+BasicSignal<T, Domain> GaussianWindow(size_t length, remove_complex_t<T> sigma = remove_complex_t<T>(1)) {
 	BasicSignal<T, Domain> window(length);
 	GaussianWindow(AsView(window), sigma);
 	return window;
 }
 
 template <class T, eSignalDomain Domain = eSignalDomain::TIME>
-BasicSignal<T, Domain> KaiserWindow(size_t length, T alpha = T(1)) {
+BasicSignal<T, Domain> KaiserWindow(size_t length, remove_complex_t<T> alpha = remove_complex_t<T>(1)) {
 	BasicSignal<T, Domain> window(length);
 	KaiserWindow(AsView(window), alpha);
 	return window;
@@ -270,7 +270,7 @@ BasicSignal<T, Domain> LanczosWindow(size_t length) {
 }
 
 template <class T, eSignalDomain Domain = eSignalDomain::TIME>
-BasicSignal<T, Domain> DolphChebyshevWindow(size_t length, T attenuation) {
+BasicSignal<T, Domain> DolphChebyshevWindow(size_t length, remove_complex_t<T> attenuation) {
 	BasicSignal<T, Domain> window(length);
 	DolphChebyshevWindow(AsView(window), attenuation);
 	return window;
@@ -353,7 +353,7 @@ namespace windows {
 		}
 		template <class T, eSignalDomain Domain = eSignalDomain::TIME>
 		auto operator()(size_t length) const {
-			return GaussianWindow<T, Domain>(length, T(m_sigma));
+			return GaussianWindow<T, Domain>(length, remove_complex_t<T>(m_sigma));
 		}
 		template <class T>
 		Gaussian sigma(T sigma) const {
@@ -371,7 +371,7 @@ namespace windows {
 		}
 		template <class T, eSignalDomain Domain = eSignalDomain::TIME>
 		auto operator()(size_t length) const {
-			return KaiserWindow<T, Domain>(length, T(m_alpha));
+			return KaiserWindow<T, Domain>(length, remove_complex_t<T>(m_alpha));
 		}
 		template <class T>
 		Kaiser alpha(T alpha) const {
@@ -400,7 +400,7 @@ namespace windows {
 		}
 		template <class T, eSignalDomain Domain = eSignalDomain::TIME>
 		auto operator()(size_t length) const {
-			return DolphChebyshevWindow<T, Domain>(length, T(m_attenuation));
+			return DolphChebyshevWindow<T, Domain>(length, remove_complex_t<T>(m_attenuation));
 		}
 		template <class T>
 		DolphChebyshev attenuation(T atten) const {
-- 
2.43.0


From 106df679b417d0a8c2bf88caede6a01e34f69c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 32/38] fix: sawtooth, PWM and square waves were wrong for
 negative phases

---
 include/dspbb/Generators/Waveforms.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..f912919 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -4,6 +4,7 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <type_traits>
 
@@ -44,8 +45,8 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double turns = phase / pi2;
+		const double unitPhase = turns - std::floor(turns);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +55,8 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double turns = phase / pi2;
+		const double unitPhase = turns - std::floor(turns);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From a027c9503ec066ae55887d7d4035b53875f56964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 33/38] fix: Bisect lost the root when function values were
 tiny

---
 include/dspbb/Math/Solvers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..81957ac 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -10,7 +10,8 @@ T Bisect(Func func, T a, T b, T tolerance = T(0)) {
 	do {
 		const auto fa = func(a);
 		const auto fc = func(c);
-		if (fa * fc <= 0) {
+		// Comparing signs, as the product could underflow to zero.
+		if ((fa <= 0 && fc >= 0) || (fa >= 0 && fc <= 0)) {
 			b = c;
 		}
 		else {
-- 
2.43.0


From e65f23603806df00776922c7584de65242a7b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 34/38] fix: a window function could not replace window samples
 in windowed FIR descriptions

The overload for window functions required the window being replaced, not the new
one, to be callable, so nothing but samples could follow samples.
---
 include/dspbb/Filtering/FIR/Descs.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Descs.hpp b/include/dspbb/Filtering/FIR/Descs.hpp
index 7b3fc7f..4568e97 100644
--- a/include/dspbb/Filtering/FIR/Descs.hpp
+++ b/include/dspbb/Filtering/FIR/Descs.hpp
@@ -33,7 +33,7 @@ namespace impl {
 				impl::ThrowIfNotNormalized(cutoffNew);
 				return Desc<NewParamType, WindowType>{ { std::move(cutoffNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { cutoff, std::move(windowNew) } };
 			}
@@ -63,7 +63,7 @@ namespace impl {
 				impl::ThrowIfNotSorted(lowerNew, upperNew);
 				return Desc<NewParamType, WindowType>{ { std::move(lowerNew), std::move(upperNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { lower, upper, std::move(windowNew) } };
 			}
@@ -89,7 +89,7 @@ namespace impl {
 			[[nodiscard]] auto Response(NewResponseFunc responseFuncNew) const {
 				return ArbitraryDesc<NewResponseFunc, WindowType>{ std::move(responseFuncNew), window };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return ArbitraryDesc<ResponseFunc, NewWindowType>{ responseFunc, std::move(windowNew) };
 			}
@@ -103,7 +103,7 @@ namespace impl {
 		struct HilbertDesc {
 			WindowType window;
 
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<NewWindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return HilbertDesc<NewWindowType>{ std::move(windowNew) };
 			}
-- 
2.43.0


From ff19bf5327d40cec0c834db385d059394c587984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 35/38] fix: Chebyshev1 gain for orders above 32

2^(order-1) was computed in 32 bit integers: the shift wrapped for order 33 and up,
making the filter's gain wrong by a factor of 2^32.
---
 include/dspbb/Filtering/IIR/Chebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Chebyshev.hpp b/include/dspbb/Filtering/IIR/Chebyshev.hpp
index 773cf08..880715c 100644
--- a/include/dspbb/Filtering/IIR/Chebyshev.hpp
+++ b/include/dspbb/Filtering/IIR/Chebyshev.hpp
@@ -34,7 +34,7 @@ namespace impl {
 template <class T>
 ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1(size_t order, T ripple) {
 	const T epsilon = std::sqrt(T(1) / std::pow(T(1) - ripple, T(2)) - 1);
-	const T gain = T(1) / (T(1u << (order - 1)) * epsilon);
+	const T gain = T(1) / (std::pow(T(2), T(order) - T(1)) * epsilon);
 
 	FactoredPolynomial<T> poles;
 	poles.resize(order % 2, order / 2);
-- 
2.43.0


From cc1202bb81b0b262953ab1e8a7871b568a3fc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 36/38] fix: band transforms of systems with more zeros than
 poles

The excess of poles over zeros was computed unsigned, so for a system with more zeros
the gain of the transformed system became zero.
---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 50e60de..590205e 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -39,8 +39,8 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
@@ -74,8 +74,8 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
-- 
2.43.0


From e9645eeb07abcee42349427f09c638c9c3006dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 37/38] fix: CarlsonRF of nearly equal arguments on both sides
 of the cut

---
 include/dspbb/Math/EllipticFunctions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index c5f11f7..d1d5172 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -40,7 +40,8 @@ T CarlsonRF(T x, T y, T z) {
 	S Qn = std::pow(S(3) * r, -S(1) / S(8)) * std::max({ std::abs(An - x), std::abs(An - y), std::abs(An - z) });
 	T lambdan = T(0);
 
-	while (Qn > std::abs(An)) {
+	// At least one duplication: nearly equal complex arguments may still lie on opposite sides of the cut.
+	do {
 		const auto sx = std::sqrt(x + lambdan);
 		const auto sy = std::sqrt(y + lambdan);
 		const auto sz = std::sqrt(z + lambdan);
@@ -52,7 +53,7 @@ T CarlsonRF(T x, T y, T z) {
 		Qn /= S(4);
 		Amn /= S(4);
 		An = Amn + lambdan;
-	}
+	} while (Qn > std::abs(An));
 
 	const auto X = (Amn - x) / An;
 	const auto Y = (Amn - y) / An;
-- 
2.43.0


From 6e8e4a8f7210da31376974755780eaba87810bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:29 +0000
Subject: [PATCH 38/38] fix: arithmetic of signals of integers and floats under
 clang

---
 include/dspbb/Kernels/Convolution.hpp | 1 +
 include/dspbb/Kernels/Numeric.hpp     | 7 +++++++
 include/dspbb/Kernels/Utility.hpp     | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/include/dspbb/Kernels/Convolution.hpp b/include/dspbb/Kernels/Convolution.hpp
index 3b7eb95..8516461 100644
--- a/include/dspbb/Kernels/Convolution.hpp
+++ b/include/dspbb/Kernels/Convolution.hpp
@@ -18,6 +18,7 @@ struct is_convolution_reduce_vectorized {
 	constexpr static bool get(...) { return false; }
 	template <class T1_ = T1, class T2_ = T2, class OutT_ = OutT,
 			  std::enable_if_t<(xsimd::simd_traits<OutT_>::size > 1)
+								   && !is_raw_register_v<std::invoke_result_t<std::multiplies<>, xsimd::simd_type<T1_>, xsimd::simd_type<T2_>>>
 								   && std::is_invocable_v<std::plus<>, xsimd::simd_type<OutT_>, std::invoke_result_t<std::multiplies<>, xsimd::simd_type<T1_>, xsimd::simd_type<T2_>>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
diff --git a/include/dspbb/Kernels/Numeric.hpp b/include/dspbb/Kernels/Numeric.hpp
index f3787e8..b274d3f 100644
--- a/include/dspbb/Kernels/Numeric.hpp
+++ b/include/dspbb/Kernels/Numeric.hpp
@@ -29,6 +29,7 @@ struct is_transform_vectorized_1 {
 	template <class T_ = T, class U_ = U, class UnaryOp_ = UnaryOp,
 			  std::enable_if_t<(xsimd::simd_traits<T_>::size > 1)
 								   && xsimd::simd_traits<T_>::size == xsimd::simd_traits<U_>::size
+								   && !is_raw_register_v<std::invoke_result_t<UnaryOp, xsimd::simd_type<T_>>>
 								   && std::is_convertible_v<std::invoke_result_t<UnaryOp, xsimd::simd_type<T_>>, xsimd::simd_type<U_>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
@@ -42,6 +43,7 @@ struct is_transform_vectorized_2 {
 			  std::enable_if_t<(xsimd::simd_traits<T1_>::size > 1)
 								   && xsimd::simd_traits<T1_>::size == xsimd::simd_traits<U_>::size
 								   && xsimd::simd_traits<T2_>::size == xsimd::simd_traits<U_>::size
+								   && !is_raw_register_v<std::invoke_result_t<BinaryOp, xsimd::simd_type<T1_>, xsimd::simd_type<T2_>>>
 								   && std::is_convertible_v<std::invoke_result_t<BinaryOp, xsimd::simd_type<T1_>, xsimd::simd_type<T2_>>, xsimd::simd_type<U_>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
@@ -56,6 +58,7 @@ struct is_reduce_vectorized {
 			  class Op_ = Op,
 			  std::enable_if_t<(xsimd::simd_traits<T_>::size > 1)
 								   && xsimd::simd_traits<R_>::size == xsimd::simd_traits<T_>::size
+								   && !is_raw_register_v<std::invoke_result_t<Op, xsimd::simd_type<R_>, xsimd::simd_type<T_>>>
 								   && std::is_convertible_v<std::invoke_result_t<Op, xsimd::simd_type<R_>, xsimd::simd_type<T_>>, xsimd::simd_type<R_>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
@@ -71,6 +74,8 @@ struct is_map_reduce_vectorized {
 			  class MapOp_ = MapOp,
 			  std::enable_if_t<(xsimd::simd_traits<T_>::size > 1)
 								   && xsimd::simd_traits<R_>::size == xsimd::simd_traits<T_>::size
+								   && !is_raw_register_v<std::invoke_result_t<MapOp, xsimd::simd_type<T_>>>
+								   && !is_raw_register_v<std::invoke_result_t<ReduceOp, xsimd::simd_type<R_>, std::invoke_result_t<MapOp, xsimd::simd_type<T_>>>>
 								   && std::is_convertible_v<std::invoke_result_t<ReduceOp, xsimd::simd_type<R_>, std::invoke_result_t<MapOp, xsimd::simd_type<T_>>>, xsimd::simd_type<R_>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
@@ -88,6 +93,8 @@ struct is_inner_product_vectorized {
 			  std::enable_if_t<(xsimd::simd_traits<T_>::size > 1)
 								   && xsimd::simd_traits<R_>::size == xsimd::simd_traits<T_>::size
 								   && xsimd::simd_traits<R_>::size == xsimd::simd_traits<U_>::size
+								   && !is_raw_register_v<std::invoke_result_t<ProductOp_, xsimd::simd_type<T_>, xsimd::simd_type<U_>>>
+								   && !is_raw_register_v<std::invoke_result_t<ReduceOp, xsimd::simd_type<R_>, std::invoke_result_t<ProductOp_, xsimd::simd_type<T_>, xsimd::simd_type<U_>>>>
 								   && std::is_convertible_v<std::invoke_result_t<ReduceOp, xsimd::simd_type<R_>, std::invoke_result_t<ProductOp_, xsimd::simd_type<T_>, xsimd::simd_type<U_>>>, xsimd::simd_type<R_>>,
 							   int> = 0>
 	constexpr static bool get(int) { return true; }
diff --git a/include/dspbb/Kernels/Utility.hpp b/include/dspbb/Kernels/Utility.hpp
index df31577..cbc9b23 100644
--- a/include/dspbb/Kernels/Utility.hpp
+++ b/include/dspbb/Kernels/Utility.hpp
@@ -13,6 +13,12 @@
 
 namespace dspbb::kernels {
 
+/// <summary> Tells if a vectorized operator gives anything else than batches or scalars. </summary>
+/// <remarks> Clang applies its built-in operators to the raw registers when there is no operator for
+///		the two batches, which reinterprets the bits of elements of different types. </remarks>
+template <class R>
+constexpr bool is_raw_register_v = !std::is_class_v<std::decay_t<R>> && !std::is_arithmetic_v<std::decay_t<R>>;
+
 template <class T, class U>
 T uniform_load_unaligned(const U* mem) {
 	if constexpr (xsimd::is_batch<std::decay_t<T>>::value) {
-- 
2.43.0

