From 7c3382681bd4dfbb1e543604f15c5f27f7d15f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:45 +0000
Subject: [PATCH 1/8] fix: isValid(blade) checks every component, not only the
 first

The header documents that isValid() tests all component values of an entity
(e.g. three tests for a Vector), but the blade overload looked only at the
first element. E.g. isValid(BiVector{ 0., nan, 0. }) was true and exp() of
that value returned a valid-looking spinor.
---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..2f5a4fc 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData);
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From 5fa1d4626b1e851f8911e37b5f9554a8f8234db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 2/8] fix: null<MultiVector>() is null in every grade

It fell through to the generic template, MultiVector(double), which set only
the scalar grade to NaN and left the other seven components as valid zeros.
---
 include/g3const.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..2db9dd4 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,20 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null value - specialization for MultiVector
+	template <>  // NOTE: can't be constexpr since MultiVector has ctors
+	inline
+	MultiVector
+	null<MultiVector>()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From 710ea615598057fe490ee386b482a393b29078ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 3/8] fix: exp(MultiVector) returns the exponential and prints
 nothing

The formula used was for another signature (as its own comment noted: it did
not reproduce exp(pi*I) == -1, and exp(e1) gave cos/sin instead of cosh/sinh)
and left debug output on std::cout. Use the ComPlex/DirPlex split instead.
---
 include/g3func.hpp | 136 +++++++++++----------------------------------
 1 file changed, 32 insertions(+), 104 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..33adadd 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -568,30 +568,21 @@ namespace g3
 namespace priv
 {
 
-	//! Evaluation of "sync(x)=sin(x)/x" - including limit case near zero
+	//! Evaluation of "sinh(z)/z" given z*z - including limit case near zero
 	inline
-	double
-	sync
-		( double const & angle
+	std::complex<double>
+	sinhOverArg
+		( std::complex<double> const & zSq
 		)
 	{
-		double result{ g3::nan };
-
-		// use series expansion for sync function ((x-x^2/6+x^5/120)/x)
-		// residual (for alternating series) less than O(x^6),
-		// so to ~18 digits is about (1.e-3)^6.  Use 1.e-4 for safety
-		if (angle < 1.e-4)
-		{
-			// small angle: add from small to large
-			result = (sq(sq(angle))/120.  - sq(angle)/6.  + 1.);
-		}
-		else
+		// use series expansion when argument is small (residual is less
+		// than |z|^6/5040 which is well below significance at |z|=1.e-3)
+		if (std::abs(zSq) < 1.e-6)
 		{
-			// large angle: evaluate sync with std:: library functions
-			result = std::sin(angle) / angle;
+			return { 1. + zSq/6. + zSq*zSq/120. };
 		}
-
-		return result;
+		std::complex<double> const zed{ std::sqrt(zSq) };
+		return { std::sinh(zed) / zed };
 	}
 
 } // [priv]
@@ -599,15 +590,13 @@ namespace priv
 
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
-	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * The argument is partitioned as M = C + D, where C=(Scalar+TriVector)
+	 * is the ComPlex part (which commutes with everything), and where
+	 * D=(Vector+BiVector) is the DirPlex part. Since D*D=z*z is ComPlex,
+	 * splitting the power series into even and odd terms provides
+	 * \arg exp(M) = exp(C) * ( cosh(z) + (sinh(z)/z) * D )
 	 *
+	 * Result is null if argument is not valid.
 	 */
 	inline
 	MultiVector
@@ -619,83 +608,22 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			ComPlex const comPart{ someItem.theSca, someItem.theTri };
+			DirPlex const dirPart{ someItem.theVec, someItem.theBiv };
+
+			// square of the DirPlex part (i.e. dirPart*dirPart)
+			ComPlex const dirSq{ -ampSq(dirPart) };
+			std::complex<double> const zSq{ dirSq[0], dirSq[1] };
+
+			std::complex<double> const expCom
+				{ std::exp(std::complex<double>{ comPart[0], comPart[1] }) };
+			std::complex<double> const zCosh{ std::cosh(std::sqrt(zSq)) };
+			std::complex<double> const zSync{ priv::sinhOverArg(zSq) };
+
+			result = MultiVector
+				{ ComPlex::from(expCom * zCosh)
+				, ComPlex::from(expCom * zSync) * dirPart
+				};
 		}
 
 		return result;
-- 
2.43.0


From 7cee561cdfe388ee73f667268a32102fd32062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 4/8] fix: exp(BiVector) with a subnormal direction component
 is not identity

For a valid angle such as { 1.e-306, 1.e5, 0. } the unit direction has a
subnormal component, for which isValid() is false, so that the rotation was
silently dropped. Decide on the size of the angle instead.
---
 include/g3func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 33adadd..ed44bd0 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,7 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			if (0. < mag)
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From 9a26d91be6a67ecf97fceb15d154b4d89fe94a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 5/8] fix: library builds with clang

projectVersion() and sourceIdentity() need Engabra_Project_Version and
Engabra_Source_Identity, which were only defined for GNU compilers.
---
 CMakeLists.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 99e7526..e477db6 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -37,7 +37,8 @@ add_definitions()
 
 
 set(BUILD_FLAGS_FOR_CLANG
-	""
+	"-DEngabra_Project_Version=\"${aProjVersion}\""
+	"-DEngabra_Source_Identity=\"${aSourceIdentity}\""
 	)
 set(BUILD_FLAGS_FOR_GCC
 	"-DEngabra_Project_Version=\"${aProjVersion}\""
-- 
2.43.0


From 9f19779cfeb65d38656fa85af33b4d68f4183896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 6/8] fix: every public header can be included on its own

---
 include/g3_private.hpp    | 6 ++++++
 include/g3opsAdd_same.hpp | 1 +
 include/g3opsSub_same.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/g3_private.hpp b/include/g3_private.hpp
index b8018dc..658c0e4 100644
--- a/include/g3_private.hpp
+++ b/include/g3_private.hpp
@@ -35,6 +35,12 @@ Example:
 */
 
 
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <numeric>
+
+
 namespace engabra
 {
 
diff --git a/include/g3opsAdd_same.hpp b/include/g3opsAdd_same.hpp
index 914c440..7a68270 100644
--- a/include/g3opsAdd_same.hpp
+++ b/include/g3opsAdd_same.hpp
@@ -40,6 +40,7 @@
 
 #include "g3type.hpp"
 #include "g3_private.hpp"
+#include "g3traits.hpp"
 
 #include <algorithm>
 #include <numeric>
diff --git a/include/g3opsSub_same.hpp b/include/g3opsSub_same.hpp
index 49cfe88..8e54218 100644
--- a/include/g3opsSub_same.hpp
+++ b/include/g3opsSub_same.hpp
@@ -40,6 +40,7 @@ Example:
 
 #include "g3type.hpp"
 #include "g3_private.hpp"
+#include "g3traits.hpp"
 
 #include <algorithm>
 #include <numeric>
-- 
2.43.0


From e366c8faf5c8f642eb5cb6fdd7d025b105268be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 7/8] fix: extraction leaves no stale data when the stream
 throws

---
 include/g3io.hpp | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index 175d888..de2ea7b 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -641,18 +641,36 @@ namespace
 	{
 		using engabra::g3::io::priv::isInputOkay;
 
-		istrm >> data[0];
-		bool okay{ isInputOkay(istrm, data[0]) };
-		for (std::size_t ndx{1u}
-			; okay && (ndx < Dim) ; ++ndx)
+		// place all null data into entire return instance (which stays
+		// so if anything goes wrong, also if istrm throws exceptions)
+		std::fill(data.begin(), data.end(), engabra::g3::nan);
+
+		std::array<double, Dim> values{};
+		std::size_t numOkay{ 0u };
+		try
 		{
-			istrm >> data[ndx];
-			okay = isInputOkay(istrm, data[ndx]);
+			for ( ; numOkay < Dim ; ++numOkay)
+			{
+				istrm >> values[numOkay];
+				if (! isInputOkay(istrm, values[numOkay]))
+				{
+					break;
+				}
+			}
+		}
+		catch (...)
+		{
+			// e.g. istrm configured to throw at end of file
+			bool const lastOkay{ isInputOkay(istrm, values[numOkay]) };
+			if (lastOkay && ((numOkay + 1u) == Dim))
+			{
+				data = values;
+			}
+			throw;
 		}
-		if (! okay) // if anything went wrong...
+		if (numOkay == Dim)
 		{
-			// place all null data into entire return instance
-			std::fill(data.begin(), data.end(), engabra::g3::nan);
+			data = values;
 		}
 		return istrm;
 	}
@@ -682,6 +700,7 @@ namespace
 		)
 	{
 		// includes validity checking of elements
+		spin = engabra::g3::null<engabra::g3::Spinor>(); // even if istrm throws
 		istrm >> spin.theSca.theData;
 		istrm >> spin.theBiv.theData;
 		return istrm;
@@ -696,6 +715,7 @@ namespace
 		)
 	{
 		// includes validity checking of elements
+		imsp = engabra::g3::null<engabra::g3::ImSpin>(); // even if istrm throws
 		istrm >> imsp.theVec.theData;
 		istrm >> imsp.theTri.theData;
 		return istrm;
@@ -709,6 +729,7 @@ namespace
 		, engabra::g3::ComPlex & cplx
 		)
 	{
+		cplx = engabra::g3::null<engabra::g3::ComPlex>(); // even if istrm throws
 		istrm >> cplx.theSca.theData;
 		istrm >> cplx.theTri.theData;
 		return istrm;
@@ -723,6 +744,7 @@ namespace
 		)
 	{
 		// includes validity checking of elements
+		dplx = engabra::g3::null<engabra::g3::DirPlex>(); // even if istrm throws
 		istrm >> dplx.theVec.theData;
 		istrm >> dplx.theBiv.theData;
 		return istrm;
@@ -737,6 +759,7 @@ namespace
 		)
 	{
 		// includes validity checking of elements
+		mv = engabra::g3::null<engabra::g3::MultiVector>(); // even if istrm throws
 		istrm >> mv.theSca.theData;
 		istrm >> mv.theVec.theData;
 		istrm >> mv.theBiv.theData;
-- 
2.43.0


From 29fab9c0951df818b31988b4ce918ca80905f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 8/8] fix: extraction from a throwing stream needs no exception
 support itself

---
 include/g3io.hpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index de2ea7b..e29dcbe 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -641,36 +641,32 @@ namespace
 	{
 		using engabra::g3::io::priv::isInputOkay;
 
-		// place all null data into entire return instance (which stays
-		// so if anything goes wrong, also if istrm throws exceptions)
+		// place all null data into entire return instance...
 		std::fill(data.begin(), data.end(), engabra::g3::nan);
-
-		std::array<double, Dim> values{};
-		std::size_t numOkay{ 0u };
-		try
+		// ... until everything is okay (decided also if istrm throws)
+		struct Keeper
 		{
-			for ( ; numOkay < Dim ; ++numOkay)
+			std::istream const & theStrm;
+			std::array<double, Dim> & theData;
+			std::array<double, Dim> theValues;
+
+			~Keeper
+				()
 			{
-				istrm >> values[numOkay];
-				if (! isInputOkay(istrm, values[numOkay]))
+				if ((! theStrm.fail()) && engabra::g3::isValid(theValues))
 				{
-					break;
+					theData = theValues;
 				}
 			}
-		}
-		catch (...)
+		};
+		Keeper keeper{ istrm, data, data };
+		for (double & value : keeper.theValues)
 		{
-			// e.g. istrm configured to throw at end of file
-			bool const lastOkay{ isInputOkay(istrm, values[numOkay]) };
-			if (lastOkay && ((numOkay + 1u) == Dim))
+			istrm >> value;
+			if (! isInputOkay(istrm, value))
 			{
-				data = values;
+				break;
 			}
-			throw;
-		}
-		if (numOkay == Dim)
-		{
-			data = values;
 		}
 		return istrm;
 	}
-- 
2.43.0

