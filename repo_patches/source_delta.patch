From 54c6c022c47711f51a19ef0d8c5201108f8f3513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 01/18] fix: conversion below the minimum is a negative
 overflow

Converting an unsigned value to a range whose minimum it does not reach
reported positive_overflow_error.
---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..24a5e6e 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From aa080ed1f97934347b05c3b96d108b291ef38169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 02/18] fix: remainder of the minimum divided by itself is zero

---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 24a5e6e..0c752ea 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the minimum: t % u is t unless t is the minimum too
+                return checked_result<R>(t == u ? static_cast<R>(0) : t);
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 13637b938092f2f69b02aa4910adc1829bed8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 03/18] fix: right shift by the width of the type is an error

A count equal to the number of bits of an unsigned type passed the check and
was undefined behaviour.  The compile time decision to omit the check used the
same limit and took an indeterminate comparison for a definite false.
---
 .../boost/safe_numerics/checked_integer.hpp   |  3 ++-
 .../safe_numerics/safe_base_operations.hpp    | 20 +++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 0c752ea..efc57ed 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -741,7 +741,8 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        // or not less than the length in bits of the left operand
+        if(u > utility::bits_type<R>::value - 1){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..e97f839 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1491,16 +1491,20 @@ struct right_shift_result {
         constexpr const r_type_interval_t ri = r_type_interval;
         constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
-        return static_cast<bool>(
-            // note undesirable coupling with checked::shift right here !
-            ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
-            )
-            || ti.l < checked_result<result_base_type>(0)
-            || ui.l < checked_result<result_base_type>(0)
+        return
+            ti.l.exception()
+            || ti.u.exception()
             || ri.l.exception()
             || ri.u.exception()
-        );
+            // note undesirable coupling with checked::shift right here !
+            // note that the result of these comparisons may be indeterminate
+            || ! static_cast<bool>(
+                ui.u < checked_result<result_base_type>(
+                    utility::bits_type<result_base_type>::value
+                )
+                && ti.l >= checked_result<result_base_type>(0)
+                && ui.l >= checked_result<result_base_type>(0)
+            );
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From 10efccccfb972e9e641ec61be27313d325903153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 04/18] fix: round_out of a signed value with all bits
 significant

shifted one into the sign bit and subtracted one from it: undefined behaviour
---
 include/boost/safe_numerics/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/utility.hpp b/include/boost/safe_numerics/utility.hpp
index ef7e1ef..1c32bc1 100644
--- a/include/boost/safe_numerics/utility.hpp
+++ b/include/boost/safe_numerics/utility.hpp
@@ -239,13 +239,13 @@ template<typename T>
 constexpr inline T round_out(const T & t){
     if(t >= 0){
         const std::uint8_t sb = utility::significant_bits(t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ((T)1 << sb) - 1
             : std::numeric_limits<T>::max();
     }
     else{
         const std::uint8_t sb = utility::significant_bits(~t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ~(((T)1 << sb) - 1)
             : std::numeric_limits<T>::min();
     }
-- 
2.43.0


From 273a40c4440c4143d99cf8c8e6e4de094ae79622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:19 +0000
Subject: [PATCH 05/18] fix: division and modulus are checked when an operand
 may not fit the result type

With a divisor range such as [1, 10^12] and a narrow result type the run-time
check was removed and the divisor silently truncated.
---
 .../safe_numerics/safe_base_operations.hpp     | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index e97f839..1211cdd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -847,9 +847,16 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            // an operand might not be convertible to the result type
+            ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
+            // the divisor might be zero
+            || static_cast<bool>(ui.includes(r_type(0)))
             || ri.l.exception()
             || ri.u.exception();
     }
@@ -1007,9 +1014,16 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            // an operand might not be convertible to the result type
+            ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
+            // the divisor might be zero
+            || static_cast<bool>(ui.includes(r_type(0)))
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 144fce9af26b23741b569151acc3563666a15140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 06/18] fix: range of the remainder of two intervals

The remainder is not monotone in its operands, so the four corner values do
not enclose it; under the automatic policy the quotient's range was used.
---
 include/boost/safe_numerics/automatic.hpp     | 21 ++-----------------
 include/boost/safe_numerics/interval.hpp      | 21 +++++++++++--------
 .../safe_numerics/safe_base_operations.hpp    | 16 +-------------
 3 files changed, 15 insertions(+), 43 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..94a4cf1 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval =
+            t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..65bb312 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,17 +139,20 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The remainder has the sign of the dividend, is never farther from zero than
+// the dividend and always nearer to zero than the divisor.
+// note: divisors equal to zero are not considered
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
+    const T zero(0);
+    const T one(1);
+    // largest remainder for positive and for negative divisors
+    const T pmax = u.u > zero ? T(u.u - one) : zero;
+    const T nmax = u.l < zero ? T(-(u.l + one)) : zero;
+    const T rmax = pmax < nmax ? nmax : pmax;
+    return interval<T>(
+        t.l < zero ? (t.l < T(-rmax) ? T(-rmax) : t.l) : zero,
+        t.u > zero ? (rmax < t.u ? rmax : t.u) : zero
     );
 }
 
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 1211cdd..ab64792 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -984,21 +984,7 @@ private:
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t % u;
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
-- 
2.43.0


From a30ea6c030401d32cb8ed2aa3a20a651bf980b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 07/18] fix: intervals intersect only if neither lies wholly
 above the other

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 65bb312..bd9d1c9 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -201,7 +201,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From d08381458db56b268a0bfc6fdfb8353723ecd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:08 +0000
Subject: [PATCH 08/18] fix: the minimum modulo -1 where division needs no
 checking

---
 include/boost/safe_numerics/safe_base_operations.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index ab64792..eb9fba8 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -920,9 +920,14 @@ private:
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
+        // note: the built-in operator overflows for the minimum modulo -1
         return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
+            std::numeric_limits<result_base_type>::is_signed
+            && static_cast<result_base_type>(base_value(u))
+                == static_cast<result_base_type>(-1)
+            ? static_cast<result_base_type>(0)
+            : static_cast<result_base_type>(base_value(t))
+                % static_cast<result_base_type>(base_value(u));
     }
 
     // if exception possible
-- 
2.43.0


From 64009dfd0bf58822f0f9f02e3468493b84ed9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 09/18] fix: left shift is checked when an operand may be
 negative or the count too large

---
 .../safe_numerics/safe_base_operations.hpp    | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index eb9fba8..d189dff 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1318,17 +1318,21 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return (t_interval() << u_interval());
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1343,13 +1347,23 @@ private:
     };
 
     constexpr static bool exception_possible(){
-        if(r_type_interval.l.exception())
-            return true;
-        if(r_type_interval.u.exception())
-            return true;
-        if(! return_interval.includes(r_type_interval))
-            return true;
-        return false;
+        constexpr const r_type_interval_t ri = r_type_interval;
+        constexpr const r_type_interval_t ti = t_interval();
+        constexpr const r_type_interval_t ui = u_interval();
+        return
+            ti.l.exception()
+            || ti.u.exception()
+            || ri.l.exception()
+            || ri.u.exception()
+            // note undesirable coupling with checked::shift right here !
+            // note that the result of these comparisons may be indeterminate
+            || ! static_cast<bool>(
+                ui.u < checked_result<result_base_type>(
+                    utility::bits_type<result_base_type>::value
+                )
+                && ti.l >= checked_result<result_base_type>(0)
+                && ui.l >= checked_result<result_base_type>(0)
+            );
     }
 
     constexpr static const auto rl = return_interval.l;
-- 
2.43.0


From 6363acc3717f5cad486ea53758c884aa0f9ee751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 10/18] fix: range of a right shift whose count type has
 negative values

---
 include/boost/safe_numerics/safe_base_operations.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index d189dff..30ce850 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1491,8 +1491,14 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    constexpr static r_type_interval_t get_r_type_interval(){
+        constexpr const r_type_interval_t ui = u_interval();
+        // shift counts which cannot be represented as they are less than
+        // zero are always errors - so they yield no result
+        return t_interval() >> r_type_interval_t(
+            ui.l.exception() ? r_type(0) : ui.l,
+            ui.u
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
-- 
2.43.0


From bcc6803d3929cf7a4a9a8b2944407a0940fb7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:08 +0000
Subject: [PATCH 11/18] fix: range of the bitwise operators when an operand may
 be negative

---
 .../safe_numerics/safe_base_operations.hpp    | 73 ++++++++++++++-----
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 30ce850..67951b8 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1622,19 +1622,30 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // if an operand might be negative, any bit of the result might be set
+    constexpr static const bool non_negative =
+        safe_compare::greater_than_equal(base_value(std::numeric_limits<T>::min()), 0)
+        && safe_compare::greater_than_equal(base_value(std::numeric_limits<U>::min()), 0);
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
         //r_interval.l,
-        r_type(0),
+        non_negative
+            ? static_cast<result_base_type>(0)
+            : std::numeric_limits<result_base_type>::min(),
         //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        non_negative
+            ? static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
             )
-        ),
+            : std::numeric_limits<result_base_type>::max(),
         promotion_policy,
         exception_policy
     >;
@@ -1686,19 +1697,34 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // if both operands might be negative, any bit of the result might be set
+    constexpr static const bool t_non_negative =
+        safe_compare::greater_than_equal(base_value(std::numeric_limits<T>::min()), 0);
+    constexpr static const bool u_non_negative =
+        safe_compare::greater_than_equal(base_value(std::numeric_limits<U>::min()), 0);
+    constexpr static const bool non_negative = t_non_negative || u_non_negative;
+    // an operand which might be negative doesn't limit the result
+    constexpr static const r_type t_max = t_non_negative
+        ? static_cast<r_type>(base_value(std::numeric_limits<T>::max()))
+        : std::numeric_limits<r_type>::max();
+    constexpr static const r_type u_max = u_non_negative
+        ? static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        : std::numeric_limits<r_type>::max();
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
         //r_interval.l,
-        r_type(0),
+        non_negative
+            ? static_cast<result_base_type>(0)
+            : std::numeric_limits<result_base_type>::min(),
         //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        non_negative
+            ? static_cast<result_base_type>(
+                utility::round_out(t_max < u_max ? t_max : u_max)
             )
-        ),
+            : std::numeric_limits<result_base_type>::max(),
         promotion_policy,
         exception_policy
     >;
@@ -1749,19 +1775,30 @@ struct bitwise_xor_result {
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // if an operand might be negative, any bit of the result might be set
+    constexpr static const bool non_negative =
+        safe_compare::greater_than_equal(base_value(std::numeric_limits<T>::min()), 0)
+        && safe_compare::greater_than_equal(base_value(std::numeric_limits<U>::min()), 0);
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
         //r_interval.l,
-        r_type(0),
+        non_negative
+            ? static_cast<result_base_type>(0)
+            : std::numeric_limits<result_base_type>::min(),
         //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        non_negative
+            ? static_cast<result_base_type>(
+                utility::round_out(
+                    std::max(
+                        static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                        static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    )
+                )
             )
-        ),
+            : std::numeric_limits<result_base_type>::max(),
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From fd256b514d784b37919161d226330477b4d67200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 12/18] fix: cpp policy for an unsigned type and a higher
 ranked signed type of the same width

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 4dda3f7e6e632dbad48b7d1cf3b3cd15e2e72a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:24 +0000
Subject: [PATCH 13/18] fix: precision_overflow_error is an arithmetic error
 condition

---
 include/boost/safe_numerics/exception.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..e44c166 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -172,7 +172,8 @@ public:
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
-                || code == safe_numerics_error::domain_error;
+                || code == safe_numerics_error::domain_error
+                || code == safe_numerics_error::precision_overflow_error;
         case safe_numerics_actions::implementation_defined_behavior:
             return code == safe_numerics_error::negative_value_shift
                 || code == safe_numerics_error::negative_shift
-- 
2.43.0


From cc7006ff7189891230bb9adf6e253f57e91bad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 14/18] fix: results when the exception policy ignores errors:
 difference, conversions and converted operands

---
 include/boost/safe_numerics/safe_base_operations.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 67951b8..2971709 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,10 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if the error was ignored, convert as the built-in types do
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
@@ -340,7 +343,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -351,7 +354,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
@@ -530,7 +533,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From f38999877d2c78a0dd5b0aefb89158d72e2df54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 15/18] fix: extraction from a stream checks the stream and
 keeps the value when it is refused

---
 .../safe_numerics/safe_base_operations.hpp    | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 2971709..61dad85 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1879,40 +1879,39 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        m_t = validated_cast(x);
-    }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        is >> m_t;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // the value is extracted into a temporary: the current value is replaced
+    // only after the new one has been found to be valid
+    using temp_type = typename std::conditional<
+        std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
+    temp_type x;
+    if(std::is_unsigned<temp_type>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        // if the input string starts with a '-', we know its an error
+        if(is.peek() == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            validated_cast(m_t);
     }
+    is >> x;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
+    }
+    else
+        m_t = validated_cast(x);
 }
 
 } // safe_numerics
-- 
2.43.0


From baa15911b5972f1e7f931bbcb63e1af99cd7f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:20 +0000
Subject: [PATCH 16/18] fix: check unscoped enumerations used as operands and
 sources of safe types

numeric_limits is not specialized for enumerations, so their range was
taken to be [0, 0] and every run time check was removed: safe<int>(INT_MAX)
+ e overflowed and safe<signed char>(e) stored a truncated value.  Treat
an enumeration as the integer type it promotes to.
---
 .../safe_numerics/safe_base_operations.hpp    | 54 +++++++++++--------
 include/boost/safe_numerics/safe_common.hpp   | 13 +++++
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 61dad85..6e4e70b 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -154,7 +154,9 @@ template<class Stored, Stored Min, Stored Max, class P, class E>
 template<class T>
 constexpr inline Stored safe_base<Stored, Min, Max, P, E>::
 validated_cast(const T & t) const {
-    return validate_detail<Stored,Min,Max,E>::return_value(t);
+    return validate_detail<Stored,Min,Max,E>::template return_value<
+        typename operand_type<T>::type
+    >(t);
 }
 
 /////////////////////////////////////////////////////////////////
@@ -372,6 +374,12 @@ using legal_overload =
             typename base_type<U>::type
         >
     >;
+
+template<template<class, class> class Result, class T, class U>
+using operator_result = Result<
+    typename operand_type<T>::type,
+    typename operand_type<U>::type
+>;
 } // anon
 
 /////////////////////////////////////////////////////////////////
@@ -480,10 +488,10 @@ template<class T, class U> using addition_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<addition_operator, T, U>::value,
-    addition_result<T, U>
+    operator_result<addition_result, T, U>
 >::type
 constexpr inline operator+(const T & t, const U & u){
-    return addition_result<T, U>::return_value(t, u);
+    return operator_result<addition_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -603,10 +611,10 @@ template<class T, class U> using subtraction_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<subtraction_operator, T, U>::value,
-    subtraction_result<T, U>
+    operator_result<subtraction_result, T, U>
 >::type
 constexpr inline operator-(const T & t, const U & u){
-    return subtraction_result<T, U>::return_value(t, u);
+    return operator_result<subtraction_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -728,10 +736,10 @@ template<class T, class U> using multiplication_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<multiplication_operator, T, U>::value,
-    multiplication_result<T, U>
+    operator_result<multiplication_result, T, U>
 >::type
 constexpr inline operator*(const T & t, const U & u){
-    return multiplication_result<T, U>::return_value(t, u);
+    return operator_result<multiplication_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -895,10 +903,10 @@ template<class T, class U> using division_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<division_operator, T, U>::value,
-    division_result<T, U>
+    operator_result<division_result, T, U>
 >::type
 constexpr inline operator/(const T & t, const U & u){
-    return division_result<T, U>::return_value(t, u);
+    return operator_result<division_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1053,11 +1061,11 @@ template<class T, class U> using modulus_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<modulus_operator, T, U>::value,
-    modulus_result<T, U>
+    operator_result<modulus_result, T, U>
 >::type
 constexpr inline operator%(const T & t, const U & u){
     // see https://en.wikipedia.org/wiki/Modulo_operation
-    return modulus_result<T, U>::return_value(t, u);
+    return operator_result<modulus_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1155,7 +1163,7 @@ typename std::enable_if<
     bool
 >::type
 constexpr inline operator<(const T & lhs, const U & rhs) {
-    return less_than_result<T, U>::return_value(lhs, rhs);
+    return operator_result<less_than_result, T, U>::return_value(lhs, rhs);
 }
 
 template<class T, class U>
@@ -1262,7 +1270,7 @@ typename std::enable_if<
     bool
 >::type
 constexpr inline operator==(const T & lhs, const U & rhs) {
-    return equal_result<T, U>::return_value(lhs, rhs);
+    return operator_result<equal_result, T, U>::return_value(lhs, rhs);
 }
 
 template<class T, class U>
@@ -1402,12 +1410,12 @@ typename boost::lazy_enable_if_c<
     // exclude usage of << for file input here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<left_shift_operator, T, U>::value,
-    left_shift_result<T, U>
+    operator_result<left_shift_result, T, U>
 >::type
 constexpr inline operator<<(const T & t, const U & u){
     // INT13-CPP
     // C++ standards document N4618 & 5.8.2
-    return left_shift_result<T, U>::return_value(t, u);
+    return operator_result<left_shift_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1568,12 +1576,12 @@ typename boost::lazy_enable_if_c<
     // exclude usage of >> for file input here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<right_shift_operator, T, U>::value,
-    right_shift_result<T, U>
+    operator_result<right_shift_result, T, U>
 >::type
 constexpr inline operator>>(const T & t, const U & u){
     // INT13-CPP
     // C++ standards document N4618 & 5.8.2
-    return right_shift_result<T, U>::return_value(t, u);
+    return operator_result<right_shift_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1668,10 +1676,10 @@ template<class T, class U> using bitwise_or_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_or_operator, T, U>::value,
-    bitwise_or_result<T, U>
+    operator_result<bitwise_or_result, T, U>
 >::type
 constexpr inline operator|(const T & t, const U & u){
-    return bitwise_or_result<T, U>::return_value(t, u);
+    return operator_result<bitwise_or_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1747,10 +1755,10 @@ template<class T, class U> using bitwise_and_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_and_operator, T, U>::value,
-    bitwise_and_result<T, U>
+    operator_result<bitwise_and_result, T, U>
 >::type
 constexpr inline operator&(const T & t, const U & u){
-    return bitwise_and_result<T, U>::return_value(t, u);
+    return operator_result<bitwise_and_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
@@ -1821,10 +1829,10 @@ template<class T, class U> using bitwise_xor_operator
 template<class T, class U>
 typename boost::lazy_enable_if_c<
     legal_overload<bitwise_xor_operator, T, U>::value,
-    bitwise_xor_result<T, U>
+    operator_result<bitwise_xor_result, T, U>
 >::type
 constexpr inline operator^(const T & t, const U & u){
-    return bitwise_xor_result<T, U>::return_value(t, u);
+    return operator_result<bitwise_xor_result, T, U>::return_value(t, u);
 }
 
 template<class T, class U>
diff --git a/include/boost/safe_numerics/safe_common.hpp b/include/boost/safe_numerics/safe_common.hpp
index 71a00ad..a3f4a29 100644
--- a/include/boost/safe_numerics/safe_common.hpp
+++ b/include/boost/safe_numerics/safe_common.hpp
@@ -8,6 +8,7 @@
 // http://www.boost.org/LICENSE_1_0.txt)
 
 #include <type_traits>
+#include <utility> // declval
 
 namespace boost {
 namespace safe_numerics {
@@ -27,6 +28,18 @@ constexpr const typename base_type<T>::type & base_value(const T & t) {
     return static_cast<const typename base_type<T>::type & >(t);
 }
 
+// An unscoped enumeration can be an operand of the built-in operators and a
+// source of a conversion, but it has no numeric_limits.  So it takes part in
+// safe operations as the integer type that it promotes to.
+template<typename T, bool = std::is_enum<T>::value>
+struct operand_type {
+    using type = T;
+};
+template<typename T>
+struct operand_type<T, true> {
+    using type = decltype(+ std::declval<T>());
+};
+
 template<typename T>
 struct get_promotion_policy {
     using type = void;
-- 
2.43.0


From 462f42b058de22ed22c5db0f441010b3cbb198cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:46 +0000
Subject: [PATCH 17/18] fix: the same for classes that convert to an integer

An object of a class with a constexpr conversion operator took part in
safe operations with the range of its default value.
---
 include/boost/safe_numerics/safe_common.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/safe_common.hpp b/include/boost/safe_numerics/safe_common.hpp
index a3f4a29..3def9f1 100644
--- a/include/boost/safe_numerics/safe_common.hpp
+++ b/include/boost/safe_numerics/safe_common.hpp
@@ -28,16 +28,25 @@ constexpr const typename base_type<T>::type & base_value(const T & t) {
     return static_cast<const typename base_type<T>::type & >(t);
 }
 
-// An unscoped enumeration can be an operand of the built-in operators and a
-// source of a conversion, but it has no numeric_limits.  So it takes part in
-// safe operations as the integer type that it promotes to.
-template<typename T, bool = std::is_enum<T>::value>
+// An unscoped enumeration or an object of a class with a conversion to an
+// integer can be an operand of the built-in operators and a source of a
+// conversion, but it has no numeric_limits.  So it takes part in safe
+// operations as the integer type that it promotes to.
+template<typename T, typename = void>
 struct operand_type {
     using type = T;
 };
 template<typename T>
-struct operand_type<T, true> {
-    using type = decltype(+ std::declval<T>());
+struct operand_type<
+    T,
+    typename std::enable_if<
+        std::is_arithmetic<decltype(+ std::declval<const T &>())>::value
+        && ! std::is_arithmetic<T>::value
+        && ! std::is_empty<T>::value // integral_constant
+        && ! is_safe<T>::value
+    >::type
+> {
+    using type = decltype(+ std::declval<const T &>());
 };
 
 template<typename T>
-- 
2.43.0


From d70f0639a130bb939a41cafed6266cae90bdceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:54 +0000
Subject: [PATCH 18/18] fix: automatic result types hold the operands as well
 as the result

---
 include/boost/safe_numerics/automatic.hpp | 32 +++++++++++++++++------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 94a4cf1..17b46b6 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -49,6 +49,22 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // the operands are converted to the result type before the operation is
+    // carried out. So this type has to hold, besides the result, any operand
+    // value which can be represented at all.
+    template<typename T>
+    constexpr static T lower(const checked_result<T> & t, T limit){
+        return t.exception() || limit < static_cast<T>(t)
+            ? limit
+            : static_cast<T>(t);
+    }
+    template<typename T>
+    constexpr static T upper(const checked_result<T> & t, T limit){
+        return t.exception() || static_cast<T>(t) < limit
+            ? limit
+            : static_cast<T>(t);
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -85,10 +101,10 @@ public:
             temp_base_type,
             rl.exception()
                 ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
+                : lower(u_interval.l, lower(t_interval.l, static_cast<temp_base_type>(rl))),
             ru.exception()
                 ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+                : upper(u_interval.u, upper(t_interval.u, static_cast<temp_base_type>(ru)))
         >::type;
     };
 
@@ -120,10 +136,10 @@ public:
             temp_base_type,
             rl.exception()
                 ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
+                : lower(u_interval.l, lower(t_interval.l, static_cast<temp_base_type>(rl))),
             ru.exception()
                 ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+                : upper(u_interval.u, upper(t_interval.u, static_cast<temp_base_type>(ru)))
         >::type;
     };
 
@@ -162,10 +178,10 @@ public:
             temp_base_type,
             rl.exception()
                 ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
+                : lower(u_interval.l, lower(t_interval.l, static_cast<temp_base_type>(rl))),
             ru.exception()
                 ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+                : upper(u_interval.u, upper(t_interval.u, static_cast<temp_base_type>(ru)))
         >::type;
     };
 
@@ -424,10 +440,10 @@ public:
             temp_base_type,
             rl.exception()
                 ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
+                : lower(t_interval.l, static_cast<temp_base_type>(rl)),
             ru.exception()
                 ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+                : upper(t_interval.u, static_cast<temp_base_type>(ru))
         >::type;
 
     };
-- 
2.43.0

