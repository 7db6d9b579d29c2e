From d2972e5f392ffa76680af4f99fa4fe67b1b0d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 01/76] fix: solenoid RMap: missing R32 term and drift limit of
 R12, R34

---
 Merlin++/TransportRMaps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..a1ee921 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -139,6 +139,11 @@ void SolR(double l, double ks, RMap& rs)
 		rs.AddTerm(1, 2) = 2. * sc / ks;
 		rs.AddTerm(3, 4) = 2. * sc / ks;
 	}
+	else
+	{
+		rs.AddTerm(1, 2) = l;
+		rs.AddTerm(3, 4) = l;
+	}
 
 	rs.AddTerm(1, 3) = sc;
 	rs.AddTerm(2, 4) = sc;
@@ -148,7 +153,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
-- 
2.43.0


From f2d913c0dbd29a440935c31d4b5e59cc4b3a9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 02/76] fix: transverse RMaps no longer erase ct and dp

---
 Merlin++/TransportRMaps.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index a1ee921..90dcefd 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -19,6 +19,13 @@ inline double LogOnePlusX(double x)
 	return x * (1 - 0.5 * x);
 }
 
+// unit block for ct and dp (terms not listed in an RMap are zero)
+void LongitudinalIdentity(RMap& R)
+{
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
+}
+
 void SROT(double cosphi, double sinphi, RMap& R)
 {
 	R.AddTerm(1, 1, cosphi);
@@ -29,6 +36,7 @@ void SROT(double cosphi, double sinphi, RMap& R)
 	R.AddTerm(2, 4, -sinphi);
 	R.AddTerm(3, 1, sinphi);
 	R.AddTerm(4, 2, sinphi);
+	LongitudinalIdentity(R);
 }
 
 void QR2(double length, double K1, int offset, RMap& R)
@@ -161,6 +169,8 @@ void SolR(double l, double ks, RMap& rs)
 
 	rs.AddTerm(2, 3) = -ks * s2 / 2;
 	rs.AddTerm(4, 1) = ks * s2 / 2;
+
+	LongitudinalIdentity(rs);
 }
 
 // Class Utility TransportRMap
@@ -184,6 +194,7 @@ void Quadrupole(double length, double Kx, RMap& R)
 {
 	QR2(length, Kx, 0, R);
 	QR2(length, -Kx, 2, R);
+	LongitudinalIdentity(R);
 }
 
 void Srot(double cosphi, double sinphi, RMap& R)
@@ -252,6 +263,7 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
 			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
 		}
+		LongitudinalIdentity(R);
 	}
 }
 
@@ -277,6 +289,7 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
 	R.AddTerm(1, 2) = R.AddTerm(3, 4) = root8 * E0 * sinAlpha / g;
 	R.AddTerm(2, 1) = R.AddTerm(4, 3) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
 	R.AddTerm(2, 2) = R.AddTerm(4, 4) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
+	LongitudinalIdentity(R);
 }
 
 // functions returning R2Map objects
-- 
2.43.0


From a9732e225184dbe739626a2ca084dc5a28534adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 03/76] fix: sector bend RMap lost its dispersion terms for K1
 = -h^2

---
 Merlin++/TransportRMaps.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 90dcefd..ef220d2 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -91,9 +91,17 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx)
+	if(h)
 	{
-		if(Kx > 0)
+		if(Kx == 0)
+		{
+			R.AddTerm(1, 6) = h * length * length / 2;
+			R.AddTerm(2, 6) = h * length;
+			R.AddTerm(5, 6) = -h * h * length * length * length / 6;
+			R.AddTerm(5, 1) = -h * length;
+			R.AddTerm(5, 2) = -h * length * length / 2;
+		}
+		else if(Kx > 0)
 		{
 			double k = sqrt(Kx);
 			double phi = k * length;
-- 
2.43.0


From f0dc314086ae8b0b10a5cc810e2b75d19608b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 04/76] fix: travelling-wave cavity RMap: end field kick
 depends on the phase as in the 2x2 map

---
 Merlin++/TransportRMaps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index ef220d2..93d68d0 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -246,9 +246,9 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 	{
 		if(entr_field && !exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g / E1;
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g * cosphi / E1;
 			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
 		}
 		else if(!entr_field && exit_field)
@@ -256,14 +256,14 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
 			R.AddTerm(2, 1) = R.AddTerm(4, 3) = 0.5 * g * cosphi / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else if(entr_field && exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr / E1 / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr * cosphi / E1;
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else   //no fringe fields
 		{
-- 
2.43.0


From 382dcaf039e90f48f874555426f79487368fd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 05/76] fix: copying an RMap no longer leaves it pointing at
 the terms of the original

---
 Merlin++/RMap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..4730fac 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -68,6 +68,18 @@ public:
 		{
 			last = array;
 		}
+		LinearTermArray(const LinearTermArray& rhs)
+		{
+			last = std::copy(rhs.begin(), rhs.end(), array);
+		}
+		LinearTermArray& operator=(const LinearTermArray& rhs)
+		{
+			if(this != &rhs)
+			{
+				last = std::copy(rhs.begin(), rhs.end(), array);
+			}
+			return *this;
+		}
 		void push_back(const Rij& r)
 		{
 			*last = r;
-- 
2.43.0


From 994caf2d949b971db2044d5ff82d564c1599590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:53 +0000
Subject: [PATCH 06/76] fix: interpolated rectellipse and elliptical apertures
 ignored some of the interpolated dimensions

---
 Merlin++/InterpolatedApertures.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..dcc9346 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apFront.ap2, apBack.ap1, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From df5371f7f655505bdee3b0341ed6da0643490a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:53 +0000
Subject: [PATCH 07/76] fix: collimator aperture: narrower exit gap ignored
 near the axis, entrance gap setters without effect

---
 Merlin++/CollimatorAperture.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..100333c 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
@@ -43,11 +43,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From 4517135fd5cb0571b35688a08967d9eb6306009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 08/76] fix: sector bend R matrix lost its dispersion terms for
 K1 = -h^2

---
 Merlin++/TransportMatrix.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..d0d91c8 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -138,6 +138,15 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 				R(4, 1) = -h * (1 - coshPhi) / Kx;
 			}
 		}
+		else if(h)
+		{
+			// limit Kx -> 0
+			R(0, 5) = h * length * length / 2;
+			R(1, 5) = h * length;
+			R(4, 5) = -h * h * length * length * length / 6;
+			R(4, 0) = -h * length;
+			R(4, 1) = -h * length * length / 2;
+		}
 	}
 }
 
-- 
2.43.0


From 1700db01af31163a3cd67e313b23d539db6ced0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 09/76] fix: solenoid R matrix: drift limit of R12, R34 for
 vanishing strength

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index d0d91c8..c840300 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -170,8 +170,8 @@ void SolR(double l, double ks, RealMatrix& rs)
 
 	if(fequal(theta, 0.))
 	{
-		rs(0, 1) = 0;
-		rs(2, 3) = 0;
+		rs(0, 1) = l;
+		rs(2, 3) = l;
 	}
 	else
 	{
-- 
2.43.0


From 4e0e2102b3b8b92afac7d49ce54f3dc599d1060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 10/76] fix: Srot and SrotR4 left the matrix unset for a zero
 angle

---
 Merlin++/TransportMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.h b/Merlin++/TransportMatrix.h
index bb4bcac..a5ba7ea 100644
--- a/Merlin++/TransportMatrix.h
+++ b/Merlin++/TransportMatrix.h
@@ -80,12 +80,12 @@ inline RealMatrix& TransportMatrix::Quadrupole(double length, double Kx, RealMat
 
 inline RealMatrix& TransportMatrix::Srot(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : Srot(cos(phi), sin(phi), R);
+	return Srot(cos(phi), sin(phi), R);
 }
 
 inline RealMatrix& TransportMatrix::SrotR4(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : SrotR4(cos(phi), sin(phi), R);
+	return SrotR4(cos(phi), sin(phi), R);
 }
 
 #endif
-- 
2.43.0


From e99af0935fe3f1281a3c828dc340e1b078d03e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 11/76] fix: chromatic matrices of quadrupole and sector bend:
 zero where there is no chromatic part, hyperbolic functions in the defocusing
 plane

---
 Merlin++/TransportMatrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index c840300..c24eb98 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -224,7 +224,7 @@ RealMatrix& TransportMatrix::SectorBend(double length, double h, double Kx, Real
 RealMatrix& TransportMatrix::SectorBendT(double l, double h, double K1, RealMatrix& T)
 {
 	// Currently only the chromatic part of the 6x6 matrix is supported
-	InitR(T);
+	T = 0.0;
 
 	if(l == 0 || (K1 == 0 && h == 0))
 	{
@@ -261,8 +261,8 @@ RealMatrix& TransportMatrix::SectorBendT(double l, double h, double K1, RealMatr
 	else   //defocusing
 	{
 		double phix = l * kx;
-		double coshphix = cos(phix);
-		double sinhphix = sin(phix);
+		double coshphix = cosh(phix);
+		double sinhphix = sinh(phix);
 		T(0, 0) = T(1, 1) = hk * l * sinhphix / kx / 2;
 		T(0, 1) = hk * (phix * coshphix - sinhphix) / (2 * kx * kx * kx);
 		T(1, 0) = hk * (phix * coshphix + sinhphix) / kx / 2;
@@ -329,7 +329,7 @@ RealMatrix& TransportMatrix::QuadrupoleR(double length, double Kx, RealMatrix& R
 
 RealMatrix& TransportMatrix::QuadrupoleT(double length, double Kx, RealMatrix& T)
 {
-	InitR(T);
+	T = 0.0;
 
 	if(length == 0 || Kx == 0)
 	{
-- 
2.43.0


From e18c844d309825307b7c63c36eae38030eed2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 12/76] fix: travelling-wave cavity matrix: adiabatic damping
 and end field flag were inverted

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index c24eb98..194c0a9 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -417,7 +417,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 	}
 	else
 	{
-		if(!inc_end_fields)
+		if(inc_end_fields)
 		{
 			R(0, 0) = 1 - 0.5 * logEr;
 			R(0, 1) = E0 * length * logEr / dEcosPhi;
@@ -427,7 +427,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 		else
 		{
 			R(0, 1) = length * E0 * logEr / dEcosPhi;
-			R(1, 1) = Er;
+			R(1, 1) = 1 / Er;
 		}
 	}
 
-- 
2.43.0


From 8230b8381154927bc8458e1bd2f7d6ec759e68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 13/76] fix: standing-wave cavity matrix left out the vertical
 plane of 6x6 matrices

---
 Merlin++/TransportMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 194c0a9..d65d31c 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -472,7 +472,7 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	R(1, 0) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
 	R(1, 1) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
 
-	if(R.nrows() == 4)
+	if(R.nrows() > 2)
 	{
 		R(2, 2) = R(0, 0);
 		R(2, 3) = R(0, 1);
-- 
2.43.0


From 7364f5e39528590f097d48e1e680f499d0a5a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 14/76] fix: momentum rescaling of moments left out the ct-dp
 correlation

---
 Merlin++/MatrixMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 7aef3fc..4350557 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -51,7 +51,7 @@ void RescaleMoments(double P0, double P1, PSmoments& S)
 	S[5] = ratio * (1 + S[5]) - 1.0;
 
 	// rescale momentum correlations
-	for(int i = 0; i < 4; i++)
+	for(int i = 0; i < 5; i++)
 	{
 		S(i, 5) *= ratio;
 	}
-- 
2.43.0


From a0e015860d29eac213138fee90dabdb6b9c2a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 15/76] fix: Rosenzweig-Serafini cavity map: R21 has
 cos(phi)/sqrt(2), determinant is the energy ratio

---
 Merlin++/SymplecticIntegrators.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..c2eb2b5 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -517,7 +517,6 @@ public:
 		double rt8 = 2.0 * rt2;
 
 		double cosphi = cos(phi);
-		double sinphi = sin(phi);
 
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
@@ -528,7 +527,7 @@ public:
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
 		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m21 = -(1.0 - 1.0 / d0) * (cosphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
-- 
2.43.0


From 2eb03775b727d391c6a6b0df26566e58caf5a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 16/76] fix: matrix maps of fewer than six dimensions erased
 the other moments

---
 Merlin++/MatrixMaps.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 4350557..95a1983 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -37,6 +37,23 @@ PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 		}
 	}
 
+	// the remaining coordinates are not changed
+	for(i = n; i < 6; i++)
+	{
+		result[i] = S[i];
+		for(j = 0; j < n; j++)
+		{
+			for(k = 0; k < n; k++)
+			{
+				result(i, j) += R(j, k) * S(k, i);
+			}
+		}
+		for(j = n; j <= i; j++)
+		{
+			result(i, j) = S(i, j);
+		}
+	}
+
 	//		for(i=0;i<n;i++)
 	//			for(j=0;j<=i;j++)
 	//				S(i,j)=result(i,j);
-- 
2.43.0


From 19f996a3310330c7588e4b04775129df5a7de78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:38 +0000
Subject: [PATCH 17/76] fix: rectangular multipole: kick of a quadrupole with
 other multipoles applied once, not rotated, half maps on both sides

---
 Merlin++/StdIntegrators.cpp        |  2 +-
 Merlin++/SymplecticIntegrators.cpp | 26 +++++++++-----------------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..c6e5aab 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -323,7 +323,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		Complex b1 = field.GetCoefficient(1);
 		field.SetCoefficient(1, Complex(0));
 		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		if(b1 != 0.0)
+		if(cK1 != 0.0)
 		{
 			M.Apply(currentBunch->GetParticles());
 		}
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c2eb2b5..afd1daf 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1008,15 +1008,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
 			M.Apply(currentBunch->GetParticles());
 			field.SetCoefficient(1, b1);
 		}
@@ -1025,15 +1017,15 @@ void RectMultipoleCI::TrackStep(double ds)
 	else
 	{
 		ApplyDriftMap(currentBunch, len);
-	}
 
-	if(splitMagnet)
-	{
-		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(1, Complex(0));
-		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
-		field.SetCoefficient(1, b1);
+		if(splitMagnet)
+		{
+			Complex b1 = field.GetCoefficient(1);
+			field.SetCoefficient(1, Complex(0));
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
+			ApplyDriftMap(currentBunch, len);
+			field.SetCoefficient(1, b1);
+		}
 	}
 }
 
-- 
2.43.0


From 9ea8134591ec16c81470af374ce195b9fac7a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:38 +0000
Subject: [PATCH 18/76] fix: skew quadrupole matrices had the opposite sign of
 the field

---
 Merlin++/StdIntegrators.cpp        | 2 +-
 Merlin++/SymplecticIntegrators.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index c6e5aab..fbc5510 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -306,7 +306,7 @@ void RectMultipoleCI::TrackStep(double ds)
 			// Need to rotate the map
 			double a = arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
-			TransportMatrix::Srot(a, Rr);
+			TransportMatrix::Srot(-a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
 			M.T = Rr * M.T * Transpose(Rr);
 		}
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index afd1daf..7b963e1 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -997,7 +997,7 @@ void RectMultipoleCI::TrackStep(double ds)
 			// Need to rotate the map
 			double a = arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
-			TransportMatrix::Srot(a, Rr);
+			TransportMatrix::Srot(-a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
 			M.T = Rr * M.T * Transpose(Rr);
 		}
-- 
2.43.0


From 0aae3fc9fcd0f1c26238b7b1a26bcead9d6c3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 19/76] fix: setting only one pole face of a sector bend
 dereferenced the missing one

---
 Merlin++/SectorBend.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..17ee368 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,8 +99,14 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			if(entrance != nullptr)
+			{
+				entrance->type = 1;
+			}
+			if(exit != nullptr)
+			{
+				exit->type = 0;
+			}
 		}
 
 		void SetInfo(PoleFace* e1)
-- 
2.43.0


From d8723cd6147c3d307a1f8e7678460814e737e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 20/76] fix: transverse cavity counted the kick twice in the
 position

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 53986ee65eaedd7533cb2a1e4f9d0a6584ba718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 21/76] fix: a monitor tracked in several steps was measured
 again after its measurement point

---
 Merlin++/StdIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index fbc5510..bc8bf3e 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -390,7 +390,7 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		if(GetIntegratedLength() <= mpt && GetIntegratedLength() + ds > mpt)
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(currentBunch->GetParticles(), s1);
-- 
2.43.0


From fad3d2058aca590afaab127afd6457de41393afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 22/76] fix: reflection flag of a monitor was never initialised

---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From e50b02fa16e24a24e0e359dd3de4f5e4e25b66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 23/76] fix: second order pole face: gradient terms were not
 those of a magnetic field

---
 Merlin++/BasicTransportMaps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..f337566 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -510,14 +510,14 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	if(entrance == true) // do entrance
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1);    //old
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)); //old
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1));
 	}
 	else    //do exit
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1) - pow((h * a1), 2) * a1 * 0.5;
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1);   //old
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1);
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
 	}
 
 	rtMap(1, 1) = 1;
-- 
2.43.0


From d2a1e25fd2af3c90bf0c39c1e640c0002bbc2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 24/76] fix: combined function bend map lacked the curvature
 part of T112

---
 Merlin++/BasicTransportMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index f337566..78a91d1 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -400,7 +400,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
-- 
2.43.0


From ad86637021ccacd5702d6833e74ceead2d398770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 25/76] fix: second order path length of the combined function
 bend

---
 Merlin++/BasicTransportMaps.cpp | 75 ++++++++++++---------------------
 1 file changed, 27 insertions(+), 48 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 78a91d1..012d275 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -363,40 +363,20 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	double a108 = a102 + a105 + a107;
 	double a109 = pow(h, 6);
 
-	// Code generated by Mathematica
-	// -----------------------------
-
-	// Ancillary variables created by Optimize[]
-	double kx2 = h * h + K1;
-	double kx = sqrt(fabs(kx2));
-	double ky2 = -K1;
-	double ky = sqrt(fabs(ky2));
-
-	double sngx = (kx2 < 0) ? -1 : 1;
-
-	double b1 = pow(kx, 2);
-	double b2 = 1 / b1;
-	double b3 = kx * s;
-	double b4 = (kx2 < 0) ? cosh(b3) : cos(b3);
-	double b5 = (kx2 < 0) ? sinh(b3) : sin(b3);
-	double b6 = pow(kx, 3);
-	double b7 = 1 / b6;
-
-	double b8 = (kx2 < 0) ? sinh(2 * b3) : sin(2 * b3);
-	double b9 = (kx2 < 0) ? sinh(b3 / 2.) : sin(b3 / 2.);
-	double b10 = (ky2 < 0) ? cosh(ky * s) : cos(ky * s);
-	double b11 = (ky2 < 0) ? sinh(ky * s) : sin(ky * s);
-	double b12 = (ky2 < 0) ? sinh(2 * ky * s) : sin(2 * ky * s);
-
-	// Matrix terms
-	double P1 = b2 * (sngx * (b4 - 1) + b5 * kx * s);
-	double P2 = sngx * (b3 - b5) * b7 * h;
-	double P3 = sngx * b2 * (1 - b4);
-	double P4 = sngx * b7 * (b5 - b4 * kx * s);
-	double P5 = 2 * h * pow(kx, -4) * pow(b9, 4);
-	double P6 = -sngx * (b7 * (-2 * kx * s + b8)) / 4.;
-	double P7 = (pow(ky, -2) * pow(b11, 2)) / 2.;
-	double P8 = -(pow(ky, -3) * (-2 * ky * s + b8)) / 4.;
+	// Integrals along the bend, needed for the path length
+	double iDx = a20 * h * (s - sx);
+	double iSx = a2 * dx;
+	double iDxSx = a2 * dx * dx / 2;
+	double iSx2 = a20 * (s - sx * cx) / 2;
+	double iCx2 = (s + sx * cx) / 2;
+	double iSy2 = K1 != 0 ? (sy * cy - s) / (2 * K1) : s * s * s / 3;
+	double iCy2 = (s + sy * cy) / 2;
+	double iSSx = a20 * a24;
+	double iA24 = 2 * iSx - s * sx;
+	double iA6 = 2 * a2 * iDx - iSx2;
+	double iA13 = a2 * iDx + iSx2;
+	double iA34 = iSy2 - 2 * a2 * iDx;
+	double iA37 = a33 / 2 - iSx;
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
@@ -435,20 +415,19 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(4, 3, 6) = -(a14 * a28 * a31 * a75) - cyp * dx * h + (a28 * (cy * s + sy)) / 2. + 2 * a19 * a20 * a47 * ((cy
 		* s) / 2. + sy / 2. + a31 * (-(a68 * cy * sx) + a28 * a54 * sy));
 	rtMap(4, 4, 6) = a63 + 2 * a19 * a20 * a47 * (a64 - a31 * a78) + a14 * a85 - dx * h * syp;
-	rtMap(5, 1, 1) = (-2 * a90 * P2 + a95 * h * P6 + 3 * s * pow(cxp, 2)) / 6.;
-	rtMap(5, 1, 2) = (a95 * P5 + 3 * cxp * s * sxp) / 3.;
-	rtMap(5, 1, 6) = (a20 * (6 * a1 * cxp * dxp * s + 4 * a90 * h * P2 + 3 * a14 * a98 * P4 + 4 * a25 * P6 + 2 * a1
-		* a7 * P6 + 4 * a14 * K2 * P6 - 8 * a25 * n * P6)) / 6.;
-	rtMap(5, 2, 2) = (a20 * ((a101 * a7 + a99 - 4 * K2) * P2 + a106 * h * P6 + 3 * a1 * s * pow(sxp, 2))) / 6.;
-	rtMap(5, 2, 6) = (a27 * (3 * a108 * a14 * P1 + 3 * a14 * a98 * P3 + 2 * a1 * (a106 * h * P5 + 3 * a1 * dxp * s
-		* sxp))) / 6.;
-	rtMap(5, 3, 3) = (2 * a28 * h * K2 * P8 + P2 * (a1 * a28 * h - 2 * a1 * K2 + 4 * a28 * K2 - 4 * h * K1 * K1) - a30
-		* s * pow(cyp + syp, 2)) / (-2 * a1 + 8 * a28);
-	rtMap(5, 3, 4) = 2 * a31 * h * K2 * (-P3 + P6);
-	rtMap(5, 4, 4) = (a31 * (-((a30 * h + 4 * K2) * P2) + 2 * h * K2 * P8)) / 2.;
-	rtMap(5, 6, 6) = (a27 * (2 * h * (a101 * a19 - 3 * a26 - 4 * h * K2 + a1 * a14 * (7 - 3 * n)) * P2 + 3 * a108 * a7
-		* P4 - 2 * a109 * P6 - a1 * a19 * P6 - 2 * a7 * K2 * P6 + 4 * a109 * n * P6 + 3 * a26 * s \
-		* pow(dxp, 2))) / 6.;
+	// path length: minus the integral of h * x + (px^2 + py^2) / 2
+	rtMap(5, 1, 1) = -h * ((a11 * iA13 * a7) / 3. + (a1 * iA6 * h) / 6.) - a26 * iSx2 / 2;
+	rtMap(5, 1, 2) = -h * ((2 * a11 * a14 - a1) * iDxSx / 3. + h * iSx) + a1 * a4 / 2;
+	rtMap(5, 1, 6) = -h * (a14 * a17 * iSSx / 2. + 2 * a11 * a19 * a20 * (iSSx / 2. - iA13 / 3.) - a14 * iA6 / 3.)
+		+ a1 * h * iSx2;
+	rtMap(5, 2, 2) = -h * ((a11 * a20 * iA6 * a7) / 3. + (iA13 * h) / 6.) - iCx2 / 2;
+	rtMap(5, 2, 6) = -h * ((a14 * a17 * a20 * iA24) / 2. + h * iDxSx / 3. + 2 * a11 * a19 * a20 * ((a20 * iA24) / 2.
+		- a2 * iDxSx / 3.)) - h * a4 / 2;
+	rtMap(5, 6, 6) = -h * ((a20 * iA6 * a7) / 6. - iDx + a11 * a25 * a27 * (iSx2 / 3. + (4 * a2 * iDx) / 3. - iSSx)
+		+ a17 * a20 * a7 * (a2 * iDx - iSSx / 2.)) - a14 * iSx2 / 2;
+	rtMap(5, 3, 3) = -h * (K1 * iDx / 2. + (a2 * iDx + K1 * a31 * iA34) * K2) - K1 * K1 * iSy2 / 2;
+	rtMap(5, 3, 4) = -h * 2 * a31 * iA37 * K2 - K1 * a33 / 2;
+	rtMap(5, 4, 4) = -h * (-iDx / 2. + a31 * iA34 * K2) - iCy2 / 2;
 
 	return rtm;
 }
-- 
2.43.0


From 65c7c4722f9deda6bd76693665a6b97551f0a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 26/76] fix: second order sector bend used momenta where the
 other maps use slopes

---
 Merlin++/BasicTransportMaps.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 012d275..6010ef1 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -66,22 +66,23 @@ RTMap* SectorBendTM(double s, double h, double gamma)
 	rtMap(1, 1, 2) = h * sx * cx;
 	rtMap(1, 1, 6) = a12;
 	rtMap(1, 2, 2) = a2 * a3 * pow(a14, 2);
-	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0;
+	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0 + sx;
 	rtMap(1, 6, 6) = -(a12 * a3) / 2.;
 	rtMap(1, 4, 4) = (a10 * a3) / 2.;
 
 //133,134 both zero?
+	rtMap(2, 1, 6) = h * a4;
 	rtMap(2, 2, 2) = a15;
 	rtMap(2, 4, 4) = a15;
-	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma);
+	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma) - a4;
 
 	rtMap(3, 1, 4) = a4;
 	rtMap(3, 2, 4) = a8;
-	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2;
+	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2 + s;
 
 	rtMap(5, 2, 2) = a16;
 	rtMap(5, 1, 6) = (h * sx / (2 * beta * beta * gamma * gamma)) * 2;
-	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2;
+	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2 + a11;
 	rtMap(5, 6, 6) = 3 * (h * h * J1 - s) / (2 * beta * beta * beta * gamma * gamma);
 	rtMap(5, 4, 4) = a16;
 
-- 
2.43.0


From 6ba6285c9bfaaf1e3a0bcb5b12d8ca8092459b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 27/76] fix: skew quadrupoles and sextupoles of the TRANSPORT
 set were turned the wrong way

---
 Merlin++/TransportIntegrators.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..a5ccf95 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -57,21 +57,22 @@ namespace
 struct MultipoleKick
 {
 	const MultipoleField& field;
+	Complex rot;
 	Complex scale;
 
+	// phi is the angle which turns the particle coordinates into the frame of the field
 	MultipoleKick(const MultipoleField& f, double len, double P0, double q, double phi = 0) :
-		field(f)
+		field(f), rot(cos(phi), sin(phi))
 	{
 		//cout <<"apply multipolekick"<<endl;
-		scale = q * len * eV * SpeedOfLight / P0 * Complex(cos(phi), sin(phi));
+		scale = q * len * eV * SpeedOfLight / P0 * rot;
 	}
 
 	void operator()(PSvector& v)
 	{
-		double x = v.x();
-		double y = v.y();
+		Complex z = rot * Complex(v.x(), v.y());
 		double dp = v.dp();
-		Complex F = scale * field.GetField2D(x, y) / (1 + dp);
+		Complex F = scale * field.GetField2D(z.real(), z.imag()) / (1 + dp);
 		v.xp() += -F.real();
 		v.yp() += F.imag();
 	}
@@ -388,7 +389,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = QuadrupoleTM(len, K1);
@@ -405,7 +406,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else if(cK2 != 0.0)   // sextupole R+T matrix with thin-lens kicks for other multipoles
@@ -425,7 +426,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = SextupoleTM(len, K2);
@@ -442,7 +443,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else   // drift with a kick in the middle
-- 
2.43.0


From de1a694b4b3ddec5229fcea56df0e69d60563a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 28/76] fix: second order pole face used momenta where the
 other maps use slopes

---
 Merlin++/BasicTransportMaps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 6010ef1..3ede522 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -475,6 +475,8 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	// Matrix terms
 	rtMap(2, 1) = a2;
 	rtMap(4, 3) = -(h * tan(a4));
+	rtMap(2, 1, 6) = -a2;
+	rtMap(4, 3, 6) = h * tan(a4);
 
 	const double hh = sig * 0.5 * h;
 
-- 
2.43.0


From bc37395d5c2e5603a5118e064a44c6256aa6c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 29/76] fix: entrance pole face without its own attributes or
 shared with the exit was tracked as an exit

---
 Merlin++/StdIntegrators.h         | 2 +-
 Merlin++/TransportIntegrators.cpp | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..62e7af9 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -68,7 +68,7 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 protected:
-	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf);
+	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool ent);
 };
 
 DECL_INTG_SET(ParticleComponentTracker, StdISet)
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index a5ccf95..bcf4b3d 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -301,21 +301,21 @@ void SectorBendCI::TrackEntrance()
 	{
 		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
-	ApplyPoleFaceRotation(pfi.entrance);
+	ApplyPoleFaceRotation(pfi.entrance, true);
 }
 
 void SectorBendCI::TrackExit()
 {
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	double tilt = (*currentComponent).GetGeometry().GetTilt();
-	ApplyPoleFaceRotation(pfi.exit);
+	ApplyPoleFaceRotation(pfi.exit, false);
 	if(tilt != 0)
 	{
 		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
+void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool ent)
 {
 #define _PFV(p, v) !(p) ? 0 : p->v;
 
@@ -328,7 +328,6 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
 
 	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
 	ApplyMapToBunch(*currentBunch, M);
-- 
2.43.0


From ef411ed31410f2184fc2809ccc1f776b2746cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 30/76] fix: gradient at a pole face ignored the sign of the
 charge

---
 Merlin++/TransportIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index bcf4b3d..ba7b2a0 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -322,7 +322,7 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool en
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double brho = P0 / eV / SpeedOfLight;
 	const double h = (*currentComponent).GetGeometry().GetCurvature();
-	const double k = (*currentComponent).GetField().GetKn(1, brho).real();
+	const double k = currentBunch->GetChargeSign() * (*currentComponent).GetField().GetKn(1, brho).real();
 
 	double beta = _PFV(pf, rot);
 	double c = 0; // currently not implemented
-- 
2.43.0


From 85a336edf8be62aa3bf99d1af8aa2dcf787c5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 31/76] fix: multipole field: NaN coefficient of a zero
 component, read access added terms, search for the lowest term ran past the
 end

---
 Merlin++/MultipoleField.cpp | 9 ++-------
 Merlin++/MultipoleField.h   | 8 +++++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..f70634b 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -34,7 +34,7 @@ MultipoleField::MultipoleField(int np, double bn, double an, double r0) :
 {
 	Complex z(bn, an);
 	B0 = abs(z);
-	expansion[np] = z / B0;
+	expansion[np] = B0 != 0 ? z / B0 : Complex(1, 0);
 	B0 /= pow(r0, np);
 }
 
@@ -164,12 +164,7 @@ Complex MultipoleField::GetComponent(size_t np, double r0) const
 
 Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
-	if(np + 1 > expansion.size())
-	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
-	}
-
-	return expansion[np] * pow(r0, np);
+	return np < expansion.size() ? expansion[np] * pow(r0, np) : Complex(0, 0);
 }
 
 void MultipoleField::SetCoefficient(size_t np, const Complex& b, double r0)
diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..85d4e74 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -220,9 +220,11 @@ inline int MultipoleField::HighestMultipole() const
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
-		;
-	return n - 1;
+	while(n < expansion.size() && expansion[n] == Complex(0.0))
+	{
+		n++;
+	}
+	return n;
 }
 
 #endif
-- 
2.43.0


From 9a592947ed0f39ff2d796caeda5275a8f99081a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 32/76] fix: primary pole number of a multipole magnet was
 never set

---
 Merlin++/RectMultipole.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/RectMultipole.cpp b/Merlin++/RectMultipole.cpp
index 2e2d53a..10a3d6a 100644
--- a/Merlin++/RectMultipole.cpp
+++ b/Merlin++/RectMultipole.cpp
@@ -12,13 +12,13 @@ const int RectMultipole::ID = UniqueIndex();
 
 RectMultipole::RectMultipole(const string& id, double length, int npole, double b, double r0, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(length),
-		new MultipoleField(npole, b, r0, skew))
+		new MultipoleField(npole, b, r0, skew)), np(npole)
 {
 }
 
-RectMultipole::RectMultipole(const string& id, double len, int np, double b, bool skew) :
+RectMultipole::RectMultipole(const string& id, double len, int npole, double b, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(len),
-		new MultipoleField(np, b, skew))
+		new MultipoleField(npole, b, skew)), np(npole)
 {
 }
 
-- 
2.43.0


From 7efe59e0807fb445692f14a7872f65975b029dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 33/76] fix: TrackStep returned the state instead of the
 remaining length; RemoveProcess erased the end of the list for an unknown
 process

---
 Merlin++/ComponentTracker.cpp   | 2 +-
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 2b7e9ec83f7a14044d664158a2abc3ad54a93dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 34/76] fix: stepping through a beamline ignored geometry
 patches and failed at patch frames

---
 Merlin++/TrackingSimulation.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..86c12b4 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -271,7 +271,18 @@ bool TrackingSimulation::StepComponent()
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-- 
2.43.0


From efc3d7a87366b981e3a5de791193205c8cdd7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 35/76] fix: arc geometry without curvature divided by zero

---
 Merlin++/ArcGeometry.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..994d834 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,8 +10,13 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double s, double h)
 {
+	if(h == 0)
+	{
+		return Transform3D::translation(0, 0, s);
+	}
+	const double phi = s * h;
 	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
@@ -20,16 +25,16 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	double s = p == entrance ? -len / 2 : len / 2;
+	return MakeTransform(s, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(len, h);
 }
-- 
2.43.0


From e4c6a152dc39beac2a052d592876d22622442647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 36/76] fix: copied component frame had no geometry

---
 Merlin++/ComponentFrame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..c6ee114 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,10 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	if(theComponent)
+	{
+		SetGeometry(theComponent->GetGeometry());
+	}
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
-- 
2.43.0


From 7809da178dfda2db9cfa33904773d3124e6a7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 37/76] fix: position of a frame in itself dereferenced a null
 frame

---
 Merlin++/LatticeFrame.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/LatticeFrame.cpp b/Merlin++/LatticeFrame.cpp
index 0fb7826..1b7ac4f 100644
--- a/Merlin++/LatticeFrame.cpp
+++ b/Merlin++/LatticeFrame.cpp
@@ -64,6 +64,10 @@ Transform3D LatticeFrame::GetPhysicalTransform(const LatticeFrame* sframe) const
 double LatticeFrame::GetPosition(const LatticeFrame* sframe) const
 {
 	VALID_SFRAME(sframe);
+	if(sframe == this)
+	{
+		return 0;
+	}
 	return sframe == superFrame ? s_0 : s_0 + superFrame->GetPosition(sframe);
 }
 
-- 
2.43.0


From de9805664fa7513ed07fbe3f743197e50f1a572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 38/76] fix: copied sequence frame left its geometry
 uninitialised

---
 Merlin++/SequenceFrame.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..b15fc8e 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -24,8 +24,8 @@ public:
 
 	SequenceGeometry(SequenceFrame::FrameList* frames, SequenceFrame::Origin origin);
 
-	//	Copy constructor.
-	SequenceGeometry(const SequenceGeometry& rhs);
+	//	Copy for another list of (copied) frames.
+	SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames);
 
 	~SequenceGeometry();
 
@@ -106,7 +106,7 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom), &subFrames);
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
 }
@@ -229,8 +229,9 @@ bool SequenceFrame::IsBoundaryPlane(BoundaryPlane p, const LatticeFrame* aSubFra
 	}
 }
 
-SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs) :
-	AcceleratorGeometry()
+SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames) :
+	AcceleratorGeometry(), len_t(rhs.len_t), theFrameList(frames), omode(rhs.omode),
+	t_cache(rhs.t_cache ? new TCache(*rhs.t_cache) : nullptr)
 {
 }
 
-- 
2.43.0


From c4171ceec2bf10d4e39fce0d0730c654ed8689ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 39/76] fix: backward geometry transform within one frame of a
 sequence was not inverted

---
 Merlin++/SequenceFrame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b15fc8e..318b96e 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -301,7 +301,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t0 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t0.inv() : t0;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From 6f2beb8c3806ee74a3fb7456ac345090cf9baebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 40/76] fix: plane transforms of a sequence frame: identity for
 an origin at an end, wrong centre within a frame

---
 Merlin++/SequenceFrame.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 318b96e..61ee70a 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -380,16 +380,17 @@ double SequenceGeometry::GetGeometryLength() const
 
 void SequenceGeometry::CalculateCachedTransforms()
 {
-	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	// Set up cached transformations for efficiency. The total
+	// transformation must not be taken from an earlier cache.
+	delete t_cache;
+	t_cache = nullptr;
+	Transform3D total = GetTotalGeometryTransform();
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -397,7 +398,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = total.inv();
 		break;
 	}
 
@@ -428,7 +429,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From eae1a447c40098390c18389eb0add57614df7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 41/76] fix: girder ignored the movement of one support only;
 copied simple mount had a stray second support

---
 Merlin++/SupportStructure.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..f91b8e0 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -20,10 +20,7 @@ SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
 	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup2 = rhs.sup2 ? new AcceleratorSupport() : nullptr;
 }
 
 SupportStructure::~SupportStructure()
@@ -86,7 +83,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From 3190bb9587525bde3fc632456daf9c1696e189cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 42/76] fix: transform between places of a sequence frame
 failed when rounding put a place past a frame

---
 Merlin++/SequenceFrame.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 61ee70a..7238ae5 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -284,7 +284,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(fequal(s0, l) || s0 < l || std::next(fi) == theFrameList->end())
 		{
 			break;
 		}
@@ -293,15 +293,16 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	}
 
 	assert(fi != theFrameList->end());
+	s0 = std::min(s0, l);
 
 	// s0 is now the distance from the entrance plane of *fi
 	// to the requested starting point.
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	if(fequal(s, l) || s < l || std::next(fi) == theFrameList->end())
 	{
-		Transform3D t0 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t0 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + std::min(s, l));
 		return inv_t ? t0.inv() : t0;
 	}
 
@@ -312,7 +313,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(fequal(s, l) || s < l || std::next(fi) == theFrameList->end())
 		{
 			break;
 		}
@@ -325,7 +326,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// s is now the distance from the entrance plane of the *fi
 
 	ext = (*fi)->GetLocalGeometryExtent();
-	t = ((*fi)->GetGeometryTransform(ext.first, ext.first + s)) * t;
+	t = ((*fi)->GetGeometryTransform(ext.first, ext.first + std::min(s, l))) * t;
 
 	return inv_t ? t.inv() : t;
 }
-- 
2.43.0


From 51456395c5c32eb3065223cf6f08c85b12f5e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 43/76] fix: projected moments of a particle bunch added to the
 previous contents

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..535ca76 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -235,6 +235,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma.Zero();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
-- 
2.43.0


From cd568008604fa842ea6fa30f6dc9d6a47fcc089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 44/76] fix: SetCentroid left a fraction 1/n of the offset of
 the centroid

---
 Merlin++/ParticleBunch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 535ca76..421d213 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -389,6 +389,10 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		x *= size() / (size() - 1.0);  // the first particle itself stays where it is
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From eacab1f7b875f65e53b7d6ec68d2595aae502c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 45/76] fix: particle bunch of given momentum spread and length
 had the square root of them

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 421d213..bed6728 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From bed5432774dcdb86eaa98bef33687376eda3da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 46/76] fix: moments of a beam kept correlations of the target
 and lost the mean time

---
 Merlin++/NormalTransform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 0961fc9..f8dec63 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -129,6 +129,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 {
 	RMap R(NormalTransform(t));
 	S.zero();
+	S.Zero();
 	S(0, 0) = t.emit_x;
 	S(1, 1) = t.emit_x;
 	S(2, 2) = t.emit_y;
@@ -141,6 +142,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 	S[1] = t.xp0;
 	S[2] = t.y0;
 	S[3] = t.yp0;
+	S[4] = t.ct0;
 
 	return S;
 }
-- 
2.43.0


From 138771a7f70d9482eb699d67a529d632436ce7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 47/76] fix: losses in elements without length or in the last
 bin were not recorded; lost particles of a lost bunch were tracked with an
 undefined charge

---
 Merlin++/CollimateParticleProcess.cpp | 32 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..8fdf56b 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -251,8 +251,8 @@ void CollimateParticleProcess::DoCollimation()
 	}
 
 	//For copying surviving particles to, which is faster than deleting the individual lost particles
-	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
-		/ currentBunch->size());
+	const double macroCharge = currentBunch->GetTotalCharge() / currentBunch->size();
+	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), macroCharge);
 	NewBunch->reserve(currentBunch->size());
 
 	size_t particle_number = 0;
@@ -342,8 +342,7 @@ void CollimateParticleProcess::DoCollimation()
 	if(LostParticlePositions.size() != 0 && !is_collimator)
 	{
 		//make a new particle bunch to track the lost particles
-		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
-			currentBunch->GetTotalCharge() / currentBunch->size());
+		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), macroCharge);
 		double length = currentComponent->GetLength();
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
@@ -432,12 +431,9 @@ void CollimateParticleProcess::DoCollimation()
 				}
 			}
 
-			//If there is anything left - possible bug.
+			//Anything left is lost at the end of the element.
 			if(LostBunch->size() != 0)
 			{
-				std::cout << "POSSIBLE BUG: Leftovers: " << LostBunch->size() << "\t"
-						  << currentComponent->GetQualifiedName() << "\t"
-						  << LostParticleTracker->GetIntegratedLength() << "\t" << length << std::endl;
 				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
 				{
 					(*p).ct() += LostParticleTracker->GetIntegratedLength();
@@ -446,16 +442,30 @@ void CollimateParticleProcess::DoCollimation()
 						(*p).ct() = length;
 					}
 					lost.push_back(*p);
+					for(auto &OutIt : CollimationOutputVector)
+					{
+						OutIt->Dispose(*currentComponent, LostParticleTracker->GetIntegratedLength(), (*p), ColParProTurn);
+					}
 				}
 			}
 
 			//clean up the tracker
 			delete LostParticleTracker;
-			//and the "lost particle bunch"
-			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length no tracking is needed since all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(auto &p : lost)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, 0, p, ColParProTurn);
+				}
+			}
+		}
+		//clean up the "lost particle bunch"
+		delete LostBunch;
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bc7f82c9ef17c2c760eb70f2974ef67b7e07f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:13 +0000
Subject: [PATCH 48/76] fix: last, shorter bin of a collimator was tracked back
 by a whole bin

---
 Merlin++/CollimateParticleProcess.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 8fdf56b..76c615b 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -209,12 +209,14 @@ void CollimateParticleProcess::DoCollimation()
 	// process of copying all the particles to a new bunch. So check first
 	bool any_loss = false;
 	size_t first_loss = 0;
+	// length of the bin just passed (the last one of a collimator may be shorter)
+	const double bin = s - int_s;
 	if(is_collimator)
 	{
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin * (*p).xp(), (*p).y() - bin * (*p).yp(), s))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -261,8 +263,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= bin * (*p).xp();
+			(*p).y() -= bin * (*p).yp();
 			p++;
 		}
 	}
@@ -274,8 +276,8 @@ void CollimateParticleProcess::DoCollimation()
 
 //		if(is_collimator)
 //		{
-//			(*p).x() -= bin_size * (*p).xp();
-//			(*p).y() -= bin_size * (*p).yp();
+//			(*p).x() -= bin * (*p).xp();
+//			(*p).y() -= bin * (*p).yp();
 //		}
 		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), s))
 		{
@@ -284,7 +286,7 @@ void CollimateParticleProcess::DoCollimation()
 			{
 				if(is_collimator)
 				{
-					(*p).ct() += (s - bin_size);
+					(*p).ct() += int_s;
 				}
 
 				lost.push_back(*p);
@@ -315,8 +317,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += bin * (*p).xp();
+				(*p).y() += bin * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
-- 
2.43.0


From 46856cac98286458762d7725845db17c5976c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:13 +0000
Subject: [PATCH 49/76] fix: protons stopped below one percent of the energy
 were not recorded, others one step too far

---
 Merlin++/CollimateProtonProcess.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
@@ -177,7 +184,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +197,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From aa8a026e89485524a997604a873fd2a867f78db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 50/76] fix: loss maps per element and per position counted the
 first loss twice; undefined destructor of the loss map

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 Merlin++/LossMapCollimationOutput.h   | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..5af22de 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -99,7 +99,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -122,7 +122,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
diff --git a/Merlin++/LossMapCollimationOutput.h b/Merlin++/LossMapCollimationOutput.h
index 463b8ff..daf0dff 100644
--- a/Merlin++/LossMapCollimationOutput.h
+++ b/Merlin++/LossMapCollimationOutput.h
@@ -21,7 +21,6 @@ class LossMapCollimationOutput: public CollimationOutput
 public:
 
 	LossMapCollimationOutput(OutputType otype = tencm);
-	~LossMapCollimationOutput();
 
 	/**
 	 * Finalise will call any sorting algorithms and perform formatting for final output
-- 
2.43.0


From 1cbae6b150e4fbe8fe0e3062e38dba36492efa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 51/76] fix: losses at a later plane of an element were
 recorded with the coordinates of other particles

---
 Merlin++/CollimateParticleProcess.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 76c615b..a51092f 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -479,7 +479,24 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	//The input array keeps the survivors, which may be lost at a later plane of this element
+	if(!is_collimator)
+	{
+		size_t kept = 0;
+		vector<unsigned int>::const_iterator next_lost = LostParticlePositions.begin();
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(next_lost != LostParticlePositions.end() && *next_lost == n)
+			{
+				++next_lost;
+			}
+			else
+			{
+				InputArray[kept++] = InputArray[n];
+			}
+		}
+		InputArray.resize(kept);
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From ade39d02368e19b848c7fbfb0179c19a63e94b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:26 +0000
Subject: [PATCH 52/76] fix: a collimator stepped by other processes in shorter
 steps than its bins was never applied

---
 Merlin++/CollimateParticleProcess.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index a51092f..1a84ce6 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -146,8 +146,6 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 	if(fequal(s, next_s))
 	{
-		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
 		DoCollimation();
 		SetNextS();
 	}
@@ -162,14 +160,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
@@ -508,6 +499,8 @@ void CollimateParticleProcess::DoCollimation()
 
 void CollimateParticleProcess::SetNextS()
 {
+	//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
+	int_s = s;
 
 	if(at_entr)
 	{
-- 
2.43.0


From 7465764068adf253e6de32071b76c9474de9e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 53/76] fix: slice bunch: moments added to the previous
 contents, reference changes moved the slices, rolls below a milliradian
 ignored

---
 Merlin++/RMap.h       |  2 +-
 Merlin++/SMPBunch.cpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index 4730fac..93fe24d 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -251,7 +251,7 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6) && fequal(r12, 0.0, 1.0e-6) && fequal(r21, 0.0, 1.0e-6);
 	}
 
 	// matrix elements
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..9256cc7 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,7 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma = PSmoments2D();
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
@@ -156,7 +158,7 @@ double SMPBunch::AdjustRefMomentumToMean()
 	double ddp = dp0 / Qt + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (1.0 + p->dp()) / ddp - 1.0;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -169,7 +171,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	IncrReferenceTime(-ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From 5644b2b070439a98c8a07608351092b9a3316afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 54/76] fix: slice tracking: thin quadrupole with reversed
 sign, skew magnets turned the wrong way, monitors measured again after their
 point

---
 Merlin++/SMPStdIntegrators.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..3b35a4d 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
@@ -348,7 +348,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		phi = arg(cK1) / 2.0;
 	}
 
-	double tilt = /*Component().GetGeometry().GetTilt()*/ -phi;
+	double tilt = phi;
 
 	if(tilt != 0)
 	{
@@ -356,7 +356,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= polar(1.0, -phi);    // dipole kick in the rotated axes
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
@@ -406,7 +406,7 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		if(GetIntegratedLength() <= mpt && GetIntegratedLength() + ds > mpt)
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(s1, *currentBunch);
-- 
2.43.0


From cbeb314a4a98a2d102ca31f0cfaed7e1b0e04aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 55/76] fix: a name pattern ending in text matched names which
 merely contain it; element repository search read an unset flag

---
 Merlin++/ElementRepository.cpp | 2 +-
 Merlin++/StringPattern.cpp     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..7b92c4a 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -85,6 +85,12 @@ bool StringPattern::Match(const std::string& s) const
 
 		if(allowFloat)
 		{
+			if(i + 1 == patterns.end() && !wcterm.second)
+			{
+				// no wild card at the end: the last part has to match the end of s
+				const string::size_type l = (*i).length();
+				return s.length() >= n + l && s.compare(s.length() - l, l, *i) == 0;
+			}
 			n = s.find(*i, n);
 			if(n == string::npos)
 			{
-- 
2.43.0


From c32c56695617d8bd10127ef2ddbe07479553aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 56/76] fix: patch frames inside frames broke model
 construction; beamline indices of nested components and of installed elements
 were not set

---
 Merlin++/AcceleratorModel.cpp            | 19 +++++++++++++++----
 Merlin++/AcceleratorModelConstructor.cpp |  6 +++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..0a547e7 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return frm->IsComponent() && pattern((*frm).GetComponent().GetQualifiedName());
 	}
 
 };
@@ -247,6 +247,10 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	for(current_cf = lattice.begin(); current_cf < lattice.end(); current_cf++)
 	{
+		if(!(*current_cf)->IsComponent())
+		{
+			continue;
+		}
 		AcceleratorComponent* ac = &((*current_cf)->GetComponent());
 		s += ac->GetLength();
 		if(s > at)
@@ -293,10 +297,17 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	// replace the existing drift
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	insert_marker = lattice.insert(insert_marker, c_drift2); // in reverse order
+	insert_marker = lattice.insert(insert_marker, c_element);
+	insert_marker = lattice.insert(insert_marker, c_drift1);
+	for(size_t n = insert_marker - lattice.begin(); n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
 
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From c64e71f7e2ec18147927538d5bb1bbbda21528df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 57/76] fix: an imported wire scanner took its length as the
 angle of the wire

---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..8161ef5 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -626,7 +626,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From 393dde9f51c9ce988061c4c3969c005916c74c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 58/76] fix: collimators, cavities and bends to be treated as
 drifts were imported as such

---
 Merlin++/MADInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8161ef5..22ec528 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -195,7 +195,10 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 {
 	string keyword = MADinputrow.Get_s("KEYWORD");
 	if(driftTypes.find(keyword) != driftTypes.end())
+	{
 		MADinputrow.Set_s("KEYWORD", "DRIFT");
+		return;
+	}
 	if(keyword == "LCAV")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
-- 
2.43.0


From 93be93c2d8e5fa07bbe93b233b264ed1498893c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 59/76] fix: appending lattice files lost the model after the
 first file

---
 Merlin++/MADInterface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 22ec528..df7190b 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -108,6 +108,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
@@ -172,6 +173,12 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	} //End for loop
 
+	delete factory;
+	if(appendFlag)
+	{
+		return nullptr; // more files may follow: the model is taken by GetModel()
+	}
+
 	if(logFlag && log)
 	{
 		*log << endl;
@@ -186,7 +193,6 @@ AcceleratorModel* MADInterface::ConstructModel()
 
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
-	delete factory;
 	modelconstr = nullptr;
 	return theModel;
 }
-- 
2.43.0


From 3c05f15c799aa7941cc98165b34c3f710eb97094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:47 +0000
Subject: [PATCH 60/76] fix: the whole-turn count of the phase advance missed a
 wrap at its last element

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..d643448 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,7 +146,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
 		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
 		{
-- 
2.43.0


From 2cd1ee387d7cbc49b454d75913f23de15908e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:47 +0000
Subject: [PATCH 61/76] fix: rms dispersion took the dispersion at the start of
 the line as zero

---
 Merlin++/Dispersion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..b319f61 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
-- 
2.43.0


From 52b8b626dca01f9a6e6eec6dd1913bae16400ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 62/76] fix: a displaced hollow electron lens kicked towards
 the axis of the element instead of its own

---
 Merlin++/HollowELensProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..4bcbd64 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -100,7 +100,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 			if(theta != 0)
 			{
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				//~ // Particle phase space angle and amplitude (radius)
 				(*p).xp() += theta * cos(ParticleAngle);
 				(*p).yp() += theta * sin(ParticleAngle);
@@ -147,7 +147,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					double Phi = Multiplier * (Turn * OpTune * 2 * pi);
 					theta *= 0.5 * (1 + cos(Phi));
 
-					ParticleAngle = atan2((*p).y(), (*p).x());
+					ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 					// Particle phase space angle and amplitude (radius)
 					(*p).xp() += theta * cos(ParticleAngle);
 					(*p).yp() += theta * sin(ParticleAngle);
@@ -178,7 +178,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
@@ -212,7 +212,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
-- 
2.43.0


From 0e29c0e015fc11db125d83635c3b07e38a7c2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 63/76] fix: a hollow electron lens tracked in several steps
 was applied, and its turn counted, in each

---
 Merlin++/HollowELensProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 4bcbd64..50ba335 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -229,6 +229,9 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 	currentBunch->clear();
 	currentBunch->swap(*newbunch);
 	delete newbunch;
+
+	// one kick per passage, however many steps the component is tracked in
+	active = false;
 }
 
 double HollowELensProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From aa8e811469ab32048fe293b8e0b8f520dc518244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:09 +0000
Subject: [PATCH 64/76] fix: swapping two bunches left the second one as it was

---
 Merlin++/ParticleBunch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..eff2509 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -184,7 +184,7 @@ public:
 	/**
 	 * Swaps particles with another ParticleBunch
 	 */
-	void swap(ParticleBunch newbunch);
+	void swap(ParticleBunch& newbunch);
 
 	/**
 	 * Init flag
@@ -316,7 +316,7 @@ protected:
 	PSvectorArray pArray;
 
 };
-inline void ParticleBunch::swap(ParticleBunch newbunch)
+inline void ParticleBunch::swap(ParticleBunch& newbunch)
 {
 	//cout << "Before " << size() << "\t" << newbunch.size() << endl;
 	pArray.swap(newbunch.pArray);
-- 
2.43.0


From cf809191308adcfe6d31bc16b298701a0c7afb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:01 +0000
Subject: [PATCH 65/76] fix: maps of given momentum applied to particles
 dropped their change of momentum

---
 Merlin++/MatrixMaps.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 95a1983..184d43e 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -100,7 +100,8 @@ PSvector& RMtrx::Apply(PSvector& x, double p0) const
 	double dp = x.dp();
 	x.dp() = scaledp(p0, dp);
 	Apply(x);
-	x.dp() = dp;
+	// back to the momentum error with respect to p0
+	x.dp() = R.nrows() > 5 ? Pref * (1 + x.dp()) / p0 - 1.0 : dp;
 	return x;
 }
 
@@ -213,7 +214,8 @@ PSvector& RdpMtrx::Apply(PSvector& x, double p0) const
 	const double dp = x.dp();
 	x.dp() = scaledp(p0, dp);
 	Apply(x);
-	x.dp() = dp;
+	// back to the momentum error with respect to p0
+	x.dp() = R.nrows() > 5 ? Pref * (1 + x.dp()) / p0 - 1.0 : dp;
 	return x;
 }
 
-- 
2.43.0


From 1206f34d9dfbc798e027ddde5cf58ca3577a9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 66/76] fix: reference momentum of an empty bunch became NaN in
 a radiating magnet

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..6190807 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -55,7 +55,7 @@ struct ApplySR
 
 	double MeanEnergyLoss() const
 	{
-		return meanU / n;
+		return n ? meanU / n : 0;
 	}
 
 	void operator()(PSvector& v)
-- 
2.43.0


From 16523d2f813c14d2d4f5b253278a44b4b124d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:35 +0000
Subject: [PATCH 67/76] fix: the last slice of a magnet radiated nothing when
 the slice lengths do not add up exactly

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 6190807..6ec6df1 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -167,7 +167,7 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 void SynchRadParticleProcess::DoProcess(double ds)
 {
 
-	if(fequal(intS += ds, (nk1 + 1) * dL))
+	if(fequal(intS += ds, (nk1 + 1) * dL, 1.0e-12))
 	{
 		double E0 = currentBunch->GetReferenceMomentum();
 		double meanU = for_each(
-- 
2.43.0


From eed2d168a048ba17d2076d39802fa20fe82db4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 68/76] fix: factorising a matrix wrote its pivots beyond the
 vector passed, so that wake field processes could not be constructed

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..f94b82e 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -239,6 +239,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	const int n = M.ncols();
 
 	std::vector<T> scale(n);
+	pivot.resize(n);
 
 	sign = 1.0;
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From fec9a233220ec2d8563e7f7bd8be936d3f18e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 69/76] fix: the smoothing of a binned bunch read bins and
 filter coefficients out of range

---
 Merlin++/ParticleBunchUtilities.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..a9c7b32 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -135,8 +135,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	{
 		fbins[n] = hbins[n] * a;
 		if(c)
-			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, size_t(n) + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 298e6b5b65f2f36f089ae734b0c9b97c8f2f9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 70/76] fix: binning a bunch aborted the program when the bins
 did not add up exactly to the range

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index a9c7b32..b6b4991 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -81,7 +81,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 
 	for(n = 0; n < nbins; n++)
 	{
-		z += dz;
+		z = n + 1 < nbins ? z + dz : zmax;
 		while(p != bunch.end() && p->ct() < z)
 		{
 			total++;
-- 
2.43.0


From 6982d5d98a3b8ceca0f43671479290d6fef07476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 71/76] fix: coherent synchrotron radiation wake was taken at
 distances wrapped around zero

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..fadee54 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -353,7 +353,7 @@ void WakeFieldProcess::CalculateWakeL()
 		{
 			for(size_t j = 1; j < i; j++)
 			{
-				wake_z[i] += Qdp[j] * (currentWake->Wlong((j - i + 0.5) * dz)) / dz;
+				wake_z[i] += Qdp[j] * (currentWake->Wlong((double(j) - double(i) + 0.5) * dz)) / dz;
 			}
 			wake_z[i] *= a0;
 		}
-- 
2.43.0


From 7739785e4ab22a53fd8f60c1bafa115f7c6aab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:43 +0000
Subject: [PATCH 72/76] fix: slicing a sliced macro particle bunch counted the
 charge of its first particle twice

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..8527ad7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -252,7 +252,7 @@ void WakeFieldProcess::PrepSlices()
 	double zavg = (p->ct()) * (p->Q());
 	double qt = p->Q();
 
-	for(; p != currentBunch->end(); p++)
+	for(++p; p != currentBunch->end(); p++)
 	{
 		if(p->ct() >= z)
 		{
-- 
2.43.0


From a21f5e629dd4416102d5d179e6b426e6ffbeff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:43 +0000
Subject: [PATCH 73/76] fix: a wake field left the correlation of horizontal
 slope and vertical position of macro particles unscaled

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 8527ad7..89bebf7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -74,6 +74,7 @@ struct AWK
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
 		p(1, 1) *= Er2;
+		p(1, 2) *= Er;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
 		p(3, 3) *= Er2;
-- 
2.43.0


From 54b9bbe0ebbc900f72b2c3099ab535e854ed439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 74/76] fix: setting a klystron in vector sum mode left its
 cavities as they were

---
 Merlin++/Klystron.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..1df5747 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -130,7 +130,8 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
-	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
+	Complex z0 = for_each(rf_cavs.begin(), rf_cavs.end(), accumulate_vector_sum()).z;
+	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / z0;
 	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
 	V_k = v;
 	phi_k = phi;
-- 
2.43.0


From 575a33042727eff949622fdba91bf5adda2ea31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 75/76] fix: width of the beam measured by an angled wire
 ignored its correlation, and could be negative

---
 Merlin++/RMSProfileMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..91dcf01 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -61,7 +61,8 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
 			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.urms.value = sqrt(cosu * cosu * profile.var(0) - 2 * sinu * cosu * profile(0, 1) + sinu * sinu
+				* profile.var(1));
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From 66b3987a8bf9b705e804a8b7955d20568d43bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 76/76] fix: setting the offset of one plane of a position
 monitor cleared that of the other

---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0

