From 1575312f4d00ac511ff251d96888137bcd09b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 01/10] fix: division of [a,0] by an interval touching zero is
 not the whole line

[-1,0]/[0,1] is ]-oo,0] and [-1,0]/[-1,0] is [0,+oo[; both returned ]-oo,+oo[.
---
 include/boost/numeric/interval/detail/division.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..dffdf1a 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -78,7 +78,10 @@ interval<T, Policies> div_positive(const interval<T, Policies>& x, const T& yu)
   if (::boost::numeric::interval_lib::user::is_neg(xu))
     return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
-    return I(checking::neg_inf(), checking::pos_inf(), true);
+    if (::boost::numeric::interval_lib::user::is_zero(xu))
+      return I(checking::neg_inf(), static_cast<T>(0), true);
+    else
+      return I(checking::neg_inf(), checking::pos_inf(), true);
   else
     return I(rnd.div_down(xl, yu), checking::pos_inf(), true);
 }
@@ -113,7 +116,10 @@ interval<T, Policies> div_negative(const interval<T, Policies>& x, const T& yl)
   if (::boost::numeric::interval_lib::user::is_neg(xu))
     return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
-    return I(checking::neg_inf(), checking::pos_inf(), true);
+    if (::boost::numeric::interval_lib::user::is_zero(xu))
+      return I(static_cast<T>(0), checking::pos_inf(), true);
+    else
+      return I(checking::neg_inf(), checking::pos_inf(), true);
   else
     return I(checking::neg_inf(), rnd.div_up(xl, yl), true);
 }
-- 
2.43.0


From 95011c0d216d4b30d298ba7beb85c00906da0eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 02/10] fix: rounded_arith_opp::conv_down must not negate its
 argument

Negating in the source type wraps for unsigned types (interval<double>(5u)
was [-4294967291,5]) and overflows for the smallest signed value.
---
 include/boost/numeric/interval/rounded_arith.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..f1adeb3 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -90,7 +90,7 @@ struct rounded_arith_opp: Rounding {
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
-  template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  template<class U> T conv_down(U const &v) { BOOST_DN(v); }
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From d0fcb69801a45d590e6f597b766913202b1c506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 03/10] fix: the median of two large numbers must not overflow

median([a,b]) with a+b above the largest number was infinite, and bisect
returned an interval whose lower bound was above the upper one.
---
 .../boost/numeric/interval/rounded_arith.hpp  | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index f1adeb3..6d7b853 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -50,7 +50,6 @@ struct rounded_arith_exact: Rounding {
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -63,7 +62,14 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y)
+  {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if ((r < x && r < y) || (x < r && y < r)) // x + y has overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -71,7 +77,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -83,11 +88,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -100,7 +100,15 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y)
+  {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if ((r < x && r < y) || (x < r && y < r)) // x + y has overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -108,7 +116,6 @@ struct rounded_arith_opp: Rounding {
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From cb970bd0cb91476e4b9aee8d9f52963efc0382b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 04/10] fix: assign must cope with arguments that are bounds of
 the target

x.assign(0, x.lower()) set the upper bound from the new lower bound.
---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..354b687 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
+  const T new_up = u; // u may be a reference to low
   low = l;
-  up  = u;
+  up  = new_up;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 3128d8edd20f2a7f11cb076f70be3981304501fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 05/10] fix: to_int must not convert a long double to double

int_down and int_up of a long double above 2^53 lost precision.
---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From 3de51d133b3b2c0ab6edea98b5e868c1b53bee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 06/10] fix: downward functions of rounded_transc_opp rounded
 upward

-f(x) is computed upward before it is negated: use oddness (-f(-x)), or the
downward direction for acosh, which is not odd.
---
 include/boost/numeric/interval/rounded_transc.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..b699693 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -120,16 +120,8 @@ struct rounded_transc_opp: Rounding
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
-# undef BOOST_NUMERIC_INTERVAL_new_func
-# define BOOST_NUMERIC_INTERVAL_new_func(f) \
-    T f##_down(const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
-    T f##_up  (const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From 97fc396f901a39c7600ca36122f8b40a35d5412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 07/10] fix: nth_root must set up and restore the rounding
 direction

It worked on unprotected intervals without protecting them: the bounds were
computed in whatever direction was in force on entry, and the upward direction
leaked to the caller.
---
 include/boost/numeric/interval/arith2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..11fd570 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -273,6 +273,7 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd; // root_aux works on unprotected intervals
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From dacef5ee519d5d9c43a354cbb8a55edfb0a7301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 08/10] fix: nth_root of unbounded and of tiny intervals gave
 NaN bounds

The Newton iteration cannot start from an infinite bound, which also arises as
the inverse of a number below 1/max.
---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 11fd570..54bfd5f 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -23,6 +23,7 @@
 #include <boost/numeric/interval/policies.hpp>
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <boost/config/no_tr1/cmath.hpp>
 
 namespace boost {
@@ -231,6 +232,8 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  if (std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::infinity())
+    return y; // x is unbounded, or the inverse of a tiny number
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From 9112bbbe5777c3d6dc19e200a9a0904f96e04b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 09/10] fix: atanh of an interval with only 1 or only -1 is
 empty

No element of [1,1] or [-1,-1] is in the domain of atanh; the result
was the ill-formed [inf,inf] or [-inf,-inf] instead of empty.
---
 include/boost/numeric/interval/transc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/transc.hpp b/include/boost/numeric/interval/transc.hpp
index b9b7e60..bdace63 100644
--- a/include/boost/numeric/interval/transc.hpp
+++ b/include/boost/numeric/interval/transc.hpp
@@ -215,7 +215,7 @@ interval<T, Policies> atanh(const interval<T, Policies>& x)
 {
   typedef interval<T, Policies> I;
   if (interval_lib::detail::test_input(x)
-      || x.upper() < static_cast<T>(-1) || x.lower() > static_cast<T>(1))
+      || x.upper() <= static_cast<T>(-1) || x.lower() >= static_cast<T>(1))
     return I::empty();
   typename Policies::rounding rnd;
   typedef typename Policies::checking checking;
-- 
2.43.0


From 36db6f89517167e9e92de1c49a81367e70681024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 10/10] fix: fmod with an infinite number of periods gave
 ill-formed bounds

When the lower bound of the dividend is infinite, or the quotient
overflows, no finite multiple of the divisor can be subtracted: the
result was [NaN,NaN] or [inf,inf]. Return the whole line.
---
 include/boost/numeric/interval/arith2.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 54bfd5f..141588b 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -29,6 +29,20 @@
 namespace boost {
 namespace numeric {
 
+namespace interval_lib {
+namespace detail {
+
+template<class T> inline
+bool is_finite(const T& x)
+{
+  return !std::numeric_limits<T>::has_infinity ||
+         (-std::numeric_limits<T>::infinity() < x &&
+          x < std::numeric_limits<T>::infinity());
+}
+
+} // namespace detail
+} // namespace interval_lib
+
 template<class T, class Policies> inline
 interval<T, Policies> fmod(const interval<T, Policies>& x,
                            const interval<T, Policies>& y)
@@ -39,6 +53,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
+  if (!interval_lib::detail::is_finite(n)) // no finite multiple to subtract
+    return interval<T, Policies>::whole();
   return (const I&)x - n * (const I&)y;
 }
 
@@ -50,6 +66,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   typename Policies::rounding rnd;
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
+  if (!interval_lib::detail::is_finite(n)) // no finite multiple to subtract
+    return interval<T, Policies>::whole();
   return (const I&)x - n * I(y);
 }
 
@@ -62,6 +80,8 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x, yb));
+  if (!interval_lib::detail::is_finite(n)) // no finite multiple to subtract
+    return interval<T, Policies>::whole();
   return x - n * (const I&)y;
 }
 
-- 
2.43.0

