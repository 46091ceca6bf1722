From 6c316e973565f0ac86898abd44b2c7fee218fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 1/8] fix: sum and difference of a complex and a real number
 change the real part only

---
 src/utility/complex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
-- 
2.43.0


From fc71d53b27d6b295f5a75444f8adc16b2318dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 2/8] fix: scaling a complex number by its own real part

---
 src/utility/complex.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 9799407..d8eaacc 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -79,8 +79,9 @@ Complex& Complex::operator*=(const Complex& c)
 
 Complex& Complex::operator*=(const real& d)
 {
-    Re *= d; // same as above with c.Im = 0 and c.Re = d
-    Im *= d; // logically and happily simplified
+    real r = d; // backup d, in case it is a part of this number
+    Re *= r; // same as above with c.Im = 0 and c.Re = d
+    Im *= r; // logically and happily simplified
     return (*this);
 }
 
@@ -101,8 +102,9 @@ Complex& Complex::operator/=(const Complex& c)
 
 Complex& Complex::operator/=(const real& d)
 {
-    Re /= d;
-    Im /= d;
+    real r = d; // backup d, in case it is a part of this number
+    Re /= r;
+    Im /= r;
     return (*this);
 }
 
-- 
2.43.0


From c3f1cd68aebc5e74a01351fef15de3b2ce203613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 3/8] fix: real power of a complex number tests its base for
 zero

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..2521f78 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From 29828471d8cead385c1fa425287179fd2826f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 4/8] fix: argument of a negative real number

---
 src/utility/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/complex.h b/src/utility/complex.h
index 2521f78..13e27c1 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return atan2(c.Im, c.Re);
 }
 
 inline Complex phase(const Complex& c)
-- 
2.43.0


From f4c30cb67c08479b5e054d4e6d356dcde3ef4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:50 +0000
Subject: [PATCH 5/8] fix: Bundle::Add() refuses to hand out an object when the
 pool is full

---
 src/module/diagram/component_bundle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..46f8780 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
-- 
2.43.0


From 455cd3c4c4e255efd6248b2e2ff12f66dc8a7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 6/8] fix: refuse JumpToOrder0 on a delta interaction line

---
 src/module/markov/markov.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..deb2c68 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1585,6 +1585,9 @@ void Markov::JumpToOrder0()
     vertex Ver2 = &Diag->Ver[1];
     if (Ver1->R != Ver2->R)
         return;
+    //JumpBackToOrder1 draws two independent times, so it can never restore a delta line
+    if (Ver1->NeighW()->IsDelta)
+        return;
 
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
-- 
2.43.0


From 1733f25897a4c35e6429f8f78cd324d0c7f859bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 7/8] fix: ignore the stale worm ends in FixDiagram when no
 worm exists

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..3ecb16a 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = Worm.Exist && (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From a30011cc5b25b2a3db95007e935a8ee5064d8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:32 +0000
Subject: [PATCH 8/8] fix: return from Weight::_LoadBasis

---
 src/module/weight/weight.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..f3a85b2 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -198,5 +198,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0

