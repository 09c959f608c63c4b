From 576ff5e9f80fc6efbde248bb965a588807ea95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 01/35] fix: convert the operand's base value when a checked
 operand conversion fails

casting_helper fell back on static_cast<R>(t) of the safe operand itself, which
reported the error a second time and, for literals, required an exception policy
the literal doesn't have.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..6bf4742 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -340,7 +340,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -351,7 +351,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From 7b962acf98d7c4687dff92437cc54f21d5cadf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 02/35] fix: compute the range of a remainder from the
 magnitude of the divisor

The declared range of t % u was taken from the remainders of the interval end
points, but the remainder isn't monotonic: safe_signed_range<0,100> % 7 declared
[0,2].  Later operations relied on that range to omit checks.  automatic even
used the quotient's range and so picked a type too small for the remainder.
---
 include/boost/safe_numerics/automatic.hpp     | 20 +---------------
 include/boost/safe_numerics/interval.hpp      | 24 ++++++++++++-------
 .../safe_numerics/safe_base_operations.hpp    | 22 ++++++-----------
 3 files changed, 23 insertions(+), 43 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..563c92d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,7 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval = t_interval % u_interval;
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..400ae24 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -139,17 +139,23 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
 }
 
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The result has the sign of the dividend and a magnitude smaller than that of
+// the divisor and no larger than that of the dividend.  Since the remainder is
+// not monotonic, it's not enough to look at the end points of the intervals.
+// note: a divisor of 0 contributes nothing to the result
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
+    const T zero(0);
+    const T one(1);
+    // magnitude of the largest remainder is one less than that of the divisor
+    // with the greatest magnitude.
+    const T rmax = static_cast<bool>(u.u > zero) ? T(u.u - one) : zero;
+    const T rmin = static_cast<bool>(u.l < zero) ? T(zero - (u.l + one)) : zero;
+    const T m = static_cast<bool>(rmax < rmin) ? rmin : rmax;
+    const T n = zero - m;
+    return interval<T>(
+        ! static_cast<bool>(t.l < zero) ? zero : static_cast<bool>(t.l < n) ? n : t.l,
+        ! static_cast<bool>(t.u > zero) ? zero : static_cast<bool>(t.u > m) ? m : t.u
     );
 }
 
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 6bf4742..48d0263 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -977,21 +977,7 @@ private:
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t % u;
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1007,9 +993,15 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            // operands which don't fit in the result type
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 8fac84c5a9ce154be3206d5421fabb042826bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 03/35] fix: automatic result types must be able to hold the
 operands

Operands are converted to the result type before the operation is carried out,
but the result type was chosen from the range of the result only.  So
[1000,1010] - [1000,1010] always reported an error and [0,10] / [100,1000]
divided by a truncated divisor.
---
 include/boost/safe_numerics/automatic.hpp | 38 ++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 563c92d..e139695 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -49,6 +49,24 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // The operands are converted to the result type before the operation is
+    // carried out. So the result type has to hold their values as well as
+    // the values of the result.  Given the interval of the result, return
+    // the smallest interval which also includes that of the operands.
+    template<typename T>
+    constexpr static interval<T> include_operands(
+        const interval<T> & r,
+        const interval<T> & t,
+        const interval<T> & u
+    ){
+        const T & tul = static_cast<bool>(u.l < t.l) ? u.l : t.l;
+        const T & tuu = static_cast<bool>(t.u < u.u) ? u.u : t.u;
+        return interval<T>(
+            static_cast<bool>(tul < r.l) ? tul : r.l,
+            static_cast<bool>(r.u < tuu) ? tuu : r.u
+        );
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -76,7 +94,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval + u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval + u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -111,7 +130,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval - u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval - u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -153,7 +173,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval * u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval * u_interval, t_interval, u_interval);
 
         constexpr static const auto rl = r_interval.l;
         constexpr static const auto ru = r_interval.u;
@@ -213,7 +234,8 @@ public:
             );
         }
 
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval =
+            include_operands(rx(), t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -255,7 +277,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval % u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval % u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -371,7 +394,7 @@ public:
         };
 
         constexpr static const r_interval_type r_interval =
-            t_interval << u_interval;
+            include_operands(t_interval << u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
@@ -414,7 +437,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static const r_interval_type r_interval = t_interval >> u_interval;
+        constexpr static const r_interval_type r_interval =
+            include_operands(t_interval >> u_interval, t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
-- 
2.43.0


From ae01e870cbd414884cdefd0fa2bb73aa837a0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 04/35] fix: declared range of |, & and ^ when an operand may
 be negative

The result was always declared to be in [0, round_out(max)], so safe<int>(-7) | 4
held -3 in a type declared to be non-negative, and operations on ranges which are
entirely negative failed to compile.
---
 .../safe_numerics/safe_base_operations.hpp    | 100 +++++++++++++-----
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 48d0263..739c151 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1585,19 +1585,33 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // the bits set in the result are limited by those of the operands only
+    // if neither of them can be negative.
+    constexpr static bool never_negative =
+        base_value(std::numeric_limits<T>::min()) >= 0
+        && base_value(std::numeric_limits<U>::min()) >= 0;
+
+    constexpr static result_base_type rl = never_negative
+        ? 0
+        : std::numeric_limits<result_base_type>::min();
+
+    constexpr static result_base_type ru = never_negative
+        ? static_cast<result_base_type>(
+            utility::round_out(
+                std::max(
+                    static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                    static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                )
+            )
+        )
+        : std::numeric_limits<result_base_type>::max();
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
@@ -1649,19 +1663,37 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // an operand which can't be negative limits the bits set in the result
+    constexpr static bool t_never_negative =
+        base_value(std::numeric_limits<T>::min()) >= 0;
+    constexpr static bool u_never_negative =
+        base_value(std::numeric_limits<U>::min()) >= 0;
+
+    constexpr static result_base_type rl = t_never_negative || u_never_negative
+        ? 0
+        : std::numeric_limits<result_base_type>::min();
+
+    constexpr static result_base_type ru = t_never_negative || u_never_negative
+        ? static_cast<result_base_type>(
+            utility::round_out(
+                std::min(
+                    t_never_negative
+                    ? static_cast<r_type>(base_value(std::numeric_limits<T>::max()))
+                    : std::numeric_limits<r_type>::max(),
+                    u_never_negative
+                    ? static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                    : std::numeric_limits<r_type>::max()
+                )
+            )
+        )
+        : std::numeric_limits<result_base_type>::max();
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
@@ -1712,19 +1744,33 @@ struct bitwise_xor_result {
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // the bits set in the result are limited by those of the operands only
+    // if neither of them can be negative.
+    constexpr static bool never_negative =
+        base_value(std::numeric_limits<T>::min()) >= 0
+        && base_value(std::numeric_limits<U>::min()) >= 0;
+
+    constexpr static result_base_type rl = never_negative
+        ? 0
+        : std::numeric_limits<result_base_type>::min();
+
+    constexpr static result_base_type ru = never_negative
+        ? static_cast<result_base_type>(
+            utility::round_out(
+                std::max(
+                    static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+                    static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+                )
+            )
+        )
+        : std::numeric_limits<result_base_type>::max();
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        rl,
+        ru,
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From cd97ce9bdbbf170c95778389811ffef4aedf9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 05/35] fix: detect all invalid shifts when deciding whether to
 check a shift

The analysis of the operand ranges missed negative shift counts, negative values,
counts equal to the width of an unsigned result type and operands which don't fit
in the result type, so such shifts were executed unchecked.
---
 .../boost/safe_numerics/checked_integer.hpp   |  2 +-
 .../safe_numerics/safe_base_operations.hpp    | 38 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..751a227 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -740,7 +740,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(safe_compare::greater_than(u, utility::bits_type<R>::value - 1)){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 739c151..c8be978 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1305,17 +1305,22 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
+        );
+    }
 
-        constexpr const r_type_interval_t u_interval{
+    constexpr static r_type_interval_t u_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return (t_interval() << u_interval());
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1330,6 +1335,20 @@ private:
     };
 
     constexpr static bool exception_possible(){
+        constexpr const r_type_interval_t ti = t_interval();
+        constexpr const r_type_interval_t ui = u_interval();
+        // operands which don't fit in the result type
+        if(ti.l.exception() || ti.u.exception())
+            return true;
+        if(ui.l.exception() || ui.u.exception())
+            return true;
+        // shifting a negative value or by a negative or too large amount
+        if(base_value(std::numeric_limits<T>::min()) < 0)
+            return true;
+        if(base_value(std::numeric_limits<U>::min()) < 0)
+            return true;
+        if(ui.u > r_type(utility::bits_type<result_base_type>::value - 1))
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
@@ -1486,8 +1505,13 @@ struct right_shift_result {
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
             ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+                utility::bits_type<result_base_type>::value - 1
             )
+            // operands which don't fit in the result type
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
             || ri.l.exception()
-- 
2.43.0


From ceaa92c843cf7a7d56a5199af82dd3672140dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 06/35] fix: subtraction returned the sum when errors are
 ignored

When a policy ignored the error of an overflowing subtraction, the
subtraction helper fell back to t + u instead of t - u.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index c8be978..e336a5e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From b962fa276ba2f85277025e03252024de661565f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 07/35] fix: checked modulus of MIN by itself is 0

checked::modulus reported an overflow for MIN % MIN (and UB-guarded only
the wrong operands); only a divisor of -1 needs special treatment.
---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 751a227..6a07244 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the minimum value so |t| < |u| unless t == u
+                return t == u ? R(0) : t;
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 92c0510c6744ee5507b959c58c51dbce51a80d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 08/35] fix: unsigned value below the minimum is a negative
 overflow

Casting an unsigned value below the minimum of the target range reported
a positive overflow error.
---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 6a07244..41f3b38 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From 10df3abe96a66215dbb912aea6439a1c05ab9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 09/35] fix: interval intersection test

intersect() combined the two halves of the condition with the wrong
connective, so it reported disjoint intervals as intersecting.
---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 400ae24..9920bac 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -204,7 +204,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From bcdea8e0896e3bcac4e1876c587e098d6d612864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 10/35] fix: precision overflow belongs to the arithmetic error
 condition

precision_overflow_error was not equivalent to any error condition.
---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..82b03f1 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -172,6 +172,7 @@ public:
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::domain_error;
         case safe_numerics_actions::implementation_defined_behavior:
             return code == safe_numerics_error::negative_value_shift
-- 
2.43.0


From b2a5e2660dbf9806f944016c8d38ad6ecd9b3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 11/35] fix: checked_result right shift of exceptional values

Shifting a negative value right by an infinite amount and shifting
negative infinity gave results of the wrong sign.
---
 .../safe_numerics/checked_result_operations.hpp  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..2c3c800 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -954,7 +954,7 @@ constexpr inline operator>>(
             4, // - (-t << -u),                                 // less_than_zero,
             5, // safe_numerics_error::negative_overflow_error. // zero,
             6, // - (-t >> u),                                  // greater_than_zero,
-            3, // 0, ? or -1                                    // greater than max,
+            10, // -1                                           // greater than max,
             1, // safe_numerics_error::range_error,             // indeterminate,
         //},
         // t == zero,
@@ -1007,7 +1007,7 @@ constexpr inline operator>>(
     // nested if statments - should be the same (more or less)
     // performancewise.
     const unsigned int i = result[tx * order + ux];
-    assert(i <= 9);
+    assert(i <= 10);
     if(1 == i){
         return safe_numerics_error::range_error;
     }
@@ -1030,12 +1030,16 @@ constexpr inline operator>>(
         return t;
     }
     else
-    if(6 == i){ //  - (-t >> u)
+    if(6 == i){ //  -1 - ((-1 - t) >> u)
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
-        const checked_result<T> temp_t = t / checked_result<T>(2);
-        const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t >> temp_u);
+        // the result is rounded toward negative infinity
+        const checked_result<T> minus_one = checked_result<T>(0) - checked_result<T>(1);
+        return minus_one - ((minus_one - t) >> u);
+    }
+    else
+    if(10 == i){ // -1
+        return checked_result<T>(0) - checked_result<T>(1);
     }
     else
     if(7 == i){  // t << -u,
-- 
2.43.0


From d57aa8238cd7cc750af14b4b6bbdd1420bd519cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 12/35] fix: checked_result operator~ and converting
 constructor compile

Both referred to members which don't exist, so no use of them compiled.
---
 include/boost/safe_numerics/checked_result.hpp        | 11 ++++++-----
 .../boost/safe_numerics/checked_result_operations.hpp |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result.hpp b/include/boost/safe_numerics/checked_result.hpp
index c54c2a4..730742a 100644
--- a/include/boost/safe_numerics/checked_result.hpp
+++ b/include/boost/safe_numerics/checked_result.hpp
@@ -57,16 +57,17 @@ struct checked_result {
     // permit construct from another checked result type
     template<typename T>
     constexpr /*explicit*/ checked_result(const checked_result<T> & t) noexcept :
-        m_e(t.m_e)
+        m_e(t.m_e),
+        m_contents(
+            safe_numerics_error::success == t.m_e
+            ? contents(static_cast<R>(t.m_contents.m_r))
+            : contents(t.m_contents.m_msg)
+        )
     {
         static_assert(
             std::is_convertible<T, R>::value,
             "T must be convertible to R"
         );
-        if(safe_numerics_error::success == t.m_e)
-            m_contents.m_r = t.m_r;
-        else
-            m_contents.m_msg = t.m_msg;
     }
 
     constexpr bool exception() const {
diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 2c3c800..3b9ce27 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -777,8 +777,10 @@ typename std::enable_if<
 constexpr inline operator~(
     const checked_result<T> & t
 ){
-//    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked::bitwise_not<T>(static_cast<T>(t));
 }
 
 template<class T>
-- 
2.43.0


From cf37aeb24581d5967fc84632b820f0542c4e92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 13/35] fix: division must check operands which don't fit the
 result type

The check on division was omitted when the result couldn't overflow, even
when an operand itself might not be representable in the result type.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index e336a5e..898b2a5 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -847,9 +847,15 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            // operands which don't fit in the result type
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From a4e44cd82071651d402fc5a5766b3672d0afd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 14/35] fix: cpp policy's shift result type is the promoted
 left operand

The usual arithmetic conversions don't apply to shifts, so the type of
the shift count doesn't contribute to the type of the result.
---
 include/boost/safe_numerics/cpp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..b8b8c82 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -171,11 +171,13 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From d0cb9d87641d92e77ecb330c8950ade4289a330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 15/35] fix: conversion whose error is ignored yields the
 converted value

Without it the result was read from the inactive member of a union, i.e.
it was part of the address of the error message.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 898b2a5..9e455f9 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,10 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if the error was ignored, rx doesn't contain a value
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : static_cast<R>(rx);
         }
     };
     struct exception_not_possible {
-- 
2.43.0


From ca4435d0c3a8a7c3db742495c314cdcd8ed3a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 16/35] fix: reading from a stream must not store values which
 aren't valid

Out of range values and failed reads altered the object before the error
was reported; a failed read of a character type wasn't reported at all
and stored an unspecified value.
---
 .../safe_numerics/safe_base_operations.hpp    | 65 ++++++++++---------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 9e455f9..b985b0e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1881,40 +1881,41 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        m_t = validated_cast(x);
-    }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        is >> m_t;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // character types are read and written as integers
+    using input_type = typename std::conditional<
+        std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
+
+    if(std::is_unsigned<input_type>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        int x = is.peek();
+        // if the input string starts with a '-', we know its an error
+        if(x == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            validated_cast(m_t);
     }
+    // don't alter this object until a valid value has been read
+    input_type t = input_type();
+    is >> t;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
+    }
+    else
+        m_t = validated_cast(t);
 }
 
 } // safe_numerics
-- 
2.43.0


From e351cbf6e95349e85d916b3e04fefa94ce5bf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 17/35] fix: one error category object per program

The categories had internal linkage, so error codes from different
translation units didn't compare equal nor match an error condition.
---
 include/boost/safe_numerics/exception.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 82b03f1..1bcea68 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,16 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// an error category is identified by its address, so there must be only one
+// object of each category in the whole program.
+template<class Category>
+struct error_category_instance {
+    static const Category value;
+};
+template<class Category>
+const Category error_category_instance<Category>::value{};
+
+class safe_numerics_error_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +124,9 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+static const std::error_category & safe_numerics_error_category =
+    error_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +157,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -188,7 +199,9 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+static const std::error_category & safe_numerics_actions_category =
+    error_category_instance<safe_numerics_actions_category_type>::value;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From 3782928e56a117ff8d5bfb836e077556078e8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 18/35] fix: min % -1 is 0 also when no check is needed

The unchecked path evaluated min % -1, which traps on common hardware.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b985b0e..5aa12c5 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -922,9 +922,14 @@ private:
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
+        // note: min % -1 is 0 but evaluating it is undefined behavior
         return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
+            std::numeric_limits<result_base_type>::is_signed
+            && static_cast<result_base_type>(base_value(u))
+                == static_cast<result_base_type>(-1)
+            ? 0
+            : static_cast<result_base_type>(base_value(t))
+                % static_cast<result_base_type>(base_value(u));
     }
 
     // if exception possible
-- 
2.43.0


From 6472702b2583b37b0231aeae6a5053881efc9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 19/35] fix: range of a right shift whose count may be invalid

If the count could be negative, the declared range of the result could be
0..0 although other values are produced.
---
 .../safe_numerics/safe_base_operations.hpp    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 5aa12c5..6b845cb 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1497,8 +1497,26 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    // only shifts by at least zero bits and less than the size of the result
+    // yield a result, so any others don't contribute to the range of it
+    constexpr static r_type
+    valid_count(const typename base_type<U>::type & u){
+        return
+            safe_compare::less_than(u, 0) ?
+                r_type(0)
+            : safe_compare::greater_than(
+                u,
+                utility::bits_type<result_base_type>::value - 1
+            ) ?
+                r_type(utility::bits_type<result_base_type>::value - 1)
+            :
+                r_type(static_cast<result_base_type>(u));
+    }
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return t_interval() >> r_type_interval_t(
+            valid_count(base_value(std::numeric_limits<U>::min())),
+            valid_count(base_value(std::numeric_limits<U>::max()))
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
-- 
2.43.0


From 76d59b46849dd040ceb3ba833845d3a8c412148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 20/35] fix: left shift of negative checked results

---
 .../safe_numerics/checked_result_operations.hpp      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 3b9ce27..9885c89 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -809,7 +809,7 @@ constexpr inline operator<<(
         // t == less_than_zero,
         //{
             // u == ...
-            3, // -1,                                           // less_than_min,
+            10, // -1,                                          // less_than_min,
             4, // - (-t >> -u),                                 // less_than_zero,
             5, // safe_numerics_error::negative_overflow_error, // zero,
             6, // - (-t << u),                                  // greater_than_zero,
@@ -866,7 +866,7 @@ constexpr inline operator<<(
     // nested if statments - should be the same (more or less)
     // performancewise.
     const unsigned int i = result[tx * order + ux];
-    assert(i <= 9);
+    assert(i <= 10);
     if(1 == i){
         return safe_numerics_error::range_error;
     }
@@ -894,12 +894,16 @@ constexpr inline operator<<(
         return t;
     }
     else
-    if(6 == i){ // - (-t << u)
+    if(6 == i){ // (t * 2) << (u - 1)
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
         const checked_result<T> temp_t = t * checked_result<T>(2);
         const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t << temp_u);
+        return temp_t << temp_u;
+    }
+    else
+    if(10 == i){ // -1
+        return checked_result<T>(0) - checked_result<T>(1);
     }
     else
     if(7 == i){  // t >> -u
-- 
2.43.0


From fef6c1a1a2c7b9857e1bcc40b41e7a9ffaed56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 21/35] fix: conversion to a built-in type must use the
 declared range

---
 .../safe_numerics/safe_base_operations.hpp     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 6b845cb..8718bf8 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -148,6 +148,22 @@ struct validate_detail {
             exception_possible
         >::type::return_value(t);
     }
+
+    // as above, for a value known to be in the range [TMin, TMax]
+    template<typename T, T TMin, T TMax>
+    constexpr static R return_value_in_range(const T & t){
+        constexpr const interval<r_type> t_interval{
+            checked::cast<R>(TMin),
+            checked::cast<R>(TMax)
+        };
+        constexpr const interval<r_type> r_interval{r_type(Min), r_type(Max)};
+
+        return std::conditional<
+            static_cast<bool>(r_interval.includes(t_interval)),
+            exception_not_possible,
+            exception_possible
+        >::type::return_value(t);
+    }
 };
 
 template<class Stored, Stored Min, Stored Max, class P, class E>
@@ -242,7 +258,7 @@ operator R () const {
         std::numeric_limits<R>::min(),
         std::numeric_limits<R>::max(),
         E
-    >::return_value(m_t);
+    >::template return_value_in_range<Stored, Min, Max>(m_t);
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6a4a0cc8820614e54a108a07fb0c0908db39807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:35 +0000
Subject: [PATCH 22/35] fix: read safe<char> as an integer, the way it is
 written

---
 include/boost/safe_numerics/safe_base_operations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 8718bf8..ef2dbcd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1922,7 +1922,8 @@ inline void safe_base<T, Min, Max, P, E>::input(
 ){
     // character types are read and written as integers
     using input_type = typename std::conditional<
-        std::is_same<T, signed char>::value
+        std::is_same<T, char>::value
+        || std::is_same<T, signed char>::value
         || std::is_same<T, unsigned char>::value
         || std::is_same<T, wchar_t>::value,
         int,
-- 
2.43.0


From d7b541366b48e0fc1e653a7d2c8d046e908d2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:37 +0000
Subject: [PATCH 23/35] fix: cpp policy's result when the signed operand has
 higher rank but can't hold the unsigned one

The last rule of the usual arithmetic conversions yielded std::make_signed<...>
itself, so e.g. long long + unsigned long failed to compile.
---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index b8b8c82..69cf25c 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From 8ccda0adfe840db7b3ce9e9c1dab89ad0e29d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 24/35] fix: unary minus and complement promote their operand
 according to the policy

The host's int took part, so under a cpp policy the results had types the
emulated platform doesn't use.
---
 include/boost/safe_numerics/safe_base.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base.hpp b/include/boost/safe_numerics/safe_base.hpp
index 03c6edd..65ab0f9 100644
--- a/include/boost/safe_numerics/safe_base.hpp
+++ b/include/boost/safe_numerics/safe_base.hpp
@@ -264,7 +264,7 @@ public:
         // according to the requirements of arithmetic correctness.
         // if this is an unsigned type and the promotion policy is automatic.
         // the result will be signed.
-        return 0 - *this;
+        return Stored(0) - *this;
     }
     /*   section 5.3.1 &10 of the C++ standard
     The operand of ~ shall have integral or unscoped enumeration type; 
@@ -272,7 +272,10 @@ public:
     are performed. The type of the result is the type of the promoted operand.
     */
     constexpr auto operator~() const { // complement
-        return ~Stored(0u) ^ *this;
+        // the operand is promoted according to the promotion policy
+        using promoted_type =
+            typename P::template bitwise_xor_result<Stored, Stored>::type;
+        return static_cast<promoted_type>(~promoted_type(0)) ^ *this;
     }
 };
 
-- 
2.43.0


From 1eca204e26f150813af0ccbb60ed630d4db703d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:35 +0000
Subject: [PATCH 25/35] fix: quotient and remainder narrowed to the promotion
 policy's type are checked

---
 .../safe_numerics/safe_base_operations.hpp    | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index ef2dbcd..5e95cfd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -812,10 +812,18 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::divide(r.first, r.second);
 
-        return
-            rx.exception()
-            ? r.first / r.second
-            : rx;
+        // the promotion policy may have chosen a type narrower than temp_base
+        return validate_detail<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            exception_policy
+        >::return_value(
+            static_cast<temp_base>(rx.exception()
+                ? r.first / r.second
+                : rx
+            )
+        );
     }
     using r_type_interval_t = interval<r_type>;
 
@@ -981,10 +989,18 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::modulus(r.first, r.second);
 
-        return
-            rx.exception()
-            ? r.first % r.second
-            : rx;
+        // the promotion policy may have chosen a type narrower than temp_base
+        return validate_detail<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            exception_policy
+        >::return_value(
+            static_cast<temp_base>(rx.exception()
+                ? r.first % r.second
+                : rx
+            )
+        );
     }
 
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 037d14374aff2a2e4fafcdeb5e19af95273d80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:35 +0000
Subject: [PATCH 26/35] fix: range of bitwise results when the promotion
 policy's type cannot hold the operands

---
 .../safe_numerics/safe_base_operations.hpp    | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 5e95cfd..7a4e761 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1674,10 +1674,18 @@ private:
     using exception_policy = typename common_exception_policy<T, U>::type;
 
     // the bits set in the result are limited by those of the operands only
-    // if neither of them can be negative.
+    // if neither of them can be negative, in the result type as well.
     constexpr static bool never_negative =
         base_value(std::numeric_limits<T>::min()) >= 0
-        && base_value(std::numeric_limits<U>::min()) >= 0;
+        && base_value(std::numeric_limits<U>::min()) >= 0
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<T>::max()),
+            std::numeric_limits<result_base_type>::max()
+        )
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<U>::max()),
+            std::numeric_limits<result_base_type>::max()
+        );
 
     constexpr static result_base_type rl = never_negative
         ? 0
@@ -1752,10 +1760,19 @@ private:
     using exception_policy = typename common_exception_policy<T, U>::type;
 
     // an operand which can't be negative limits the bits set in the result
+    // if the result type can hold it
     constexpr static bool t_never_negative =
-        base_value(std::numeric_limits<T>::min()) >= 0;
+        base_value(std::numeric_limits<T>::min()) >= 0
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<T>::max()),
+            std::numeric_limits<result_base_type>::max()
+        );
     constexpr static bool u_never_negative =
-        base_value(std::numeric_limits<U>::min()) >= 0;
+        base_value(std::numeric_limits<U>::min()) >= 0
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<U>::max()),
+            std::numeric_limits<result_base_type>::max()
+        );
 
     constexpr static result_base_type rl = t_never_negative || u_never_negative
         ? 0
@@ -1833,10 +1850,18 @@ struct bitwise_xor_result {
     using exception_policy = typename common_exception_policy<T, U>::type;
 
     // the bits set in the result are limited by those of the operands only
-    // if neither of them can be negative.
+    // if neither of them can be negative, in the result type as well.
     constexpr static bool never_negative =
         base_value(std::numeric_limits<T>::min()) >= 0
-        && base_value(std::numeric_limits<U>::min()) >= 0;
+        && base_value(std::numeric_limits<U>::min()) >= 0
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<T>::max()),
+            std::numeric_limits<result_base_type>::max()
+        )
+        && safe_compare::less_than_equal(
+            base_value(std::numeric_limits<U>::max()),
+            std::numeric_limits<result_base_type>::max()
+        );
 
     constexpr static result_base_type rl = never_negative
         ? 0
-- 
2.43.0


From 3b3018a2865933993857a1f97b0cc762ba6db9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:10 +0000
Subject: [PATCH 27/35] fix: enumerators and other objects which convert to an
 integer are checked when a safe object is constructed or assigned from them

---
 .../safe_numerics/safe_base_operations.hpp    | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 7a4e761..a5fc78a 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -166,11 +166,40 @@ struct validate_detail {
     }
 };
 
+// numeric_limits tells nothing about enumerations nor about objects of other
+// types which convert to an integer, std::integral_constant for example. For
+// these, use the integer which they are promoted to.
+template<class T, class = void>
+struct is_promotable : public std::false_type {};
+template<class T>
+struct is_promotable<T, typename std::enable_if<
+    (std::is_enum<T>::value || std::is_class<T>::value)
+    && ! is_safe<T>::value
+    && std::is_integral<
+        typename std::decay<decltype(+std::declval<const T &>())>::type
+    >::value
+>::type> : public std::true_type {};
+
+template<class T>
+constexpr inline const T & promote(const T & t, std::false_type){
+    return t;
+}
+template<class T>
+constexpr inline auto promote(const T & t, std::true_type){
+    return +t;
+}
+
 template<class Stored, Stored Min, Stored Max, class P, class E>
 template<class T>
 constexpr inline Stored safe_base<Stored, Min, Max, P, E>::
 validated_cast(const T & t) const {
-    return validate_detail<Stored,Min,Max,E>::return_value(t);
+    static_assert(
+        std::numeric_limits<T>::is_specialized || is_promotable<T>::value,
+        "safe values can be constructed from numeric values only"
+    );
+    return validate_detail<Stored,Min,Max,E>::return_value(
+        promote(t, is_promotable<T>())
+    );
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2d80b5c220306ab872e427447eb7127df84089d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 28/35] fix: enumerators and other operands which convert to an
 integer count as that integer in operators

---
 .../safe_numerics/safe_base_operations.hpp    | 64 +++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index a5fc78a..015db03 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -411,6 +411,10 @@ template<template<class...> class F, class T, class U >
 using legal_overload =
     boost::mp11::mp_and<
         boost::mp11::mp_or< is_safe<T>, is_safe<U> >,
+        // see "operands which are promoted" below
+        std::integral_constant<bool,
+            ! is_promotable<T>::value && ! is_promotable<U>::value
+        >,
         boost::mp11::mp_valid<
             F,
             typename base_type<T>::type,
@@ -1948,6 +1952,66 @@ constexpr inline operator^=(T & t, const U & u){
     return t;
 }
 
+/////////////////////////////////////////////////////////////////
+// operands which are promoted
+
+// numeric_limits tells nothing about enumerations nor about objects of other
+// types which convert to an integer. So such an operand is promoted to an
+// integer first, as it is by the built-in operators.
+
+#define BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(OP)                        \
+template<class T, class U, typename std::enable_if<                     \
+    is_safe<T>::value && is_promotable<U>::value, bool                  \
+>::type = true>                                                         \
+constexpr inline auto operator OP(const T & t, const U & u){            \
+    return t OP +u;                                                     \
+}                                                                       \
+template<class T, class U, typename std::enable_if<                     \
+    is_promotable<T>::value && is_safe<U>::value, bool                  \
+>::type = true>                                                         \
+constexpr inline auto operator OP(const T & t, const U & u){            \
+    return +t OP u;                                                     \
+}
+
+#define BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(OP)                         \
+template<class T, class U, typename std::enable_if<                     \
+    is_safe<T>::value && is_promotable<U>::value, bool                  \
+>::type = true>                                                         \
+constexpr inline T operator OP(T & t, const U & u){                     \
+    return t OP +u;                                                     \
+}
+
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(+)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(-)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(*)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(/)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(%)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(<)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(>)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(<=)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(>=)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(==)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(!=)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(<<)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(>>)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(|)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(&)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(^)
+
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(+=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(-=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(*=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(/=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(%=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(<<=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(>>=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(|=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(&=)
+BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN(^=)
+
+#undef BOOST_SAFE_NUMERICS_PROMOTED_OPERAND
+#undef BOOST_SAFE_NUMERICS_PROMOTED_ASSIGN
+
 /////////////////////////////////////////////////////////////////
 // stream helpers
 
-- 
2.43.0


From ca3dfd3e65f01885946425e746b22310e87b4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:04 +0000
Subject: [PATCH 29/35] fix: checked results are printed to streams of any
 character type

---
 include/boost/safe_numerics/checked_result_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 9885c89..8d8fb4b 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -1142,7 +1142,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     if(!e)
         os << static_cast<R>(r);
     else
-        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
     return os;
 }
 
@@ -1156,7 +1156,7 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     if(! e)
         os << static_cast<std::int16_t>(r);
     else
-        os << std::error_code(r.m_e).message() << ':' << static_cast<char const *>(r);
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
     return os;
 }
 
-- 
2.43.0


From d9b58dc0a6f53d53f86cace289b14d4bffc43793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:05 +0000
Subject: [PATCH 30/35] fix: a checked unsigned char is printed as a number, as
 a signed char is

---
 .../safe_numerics/checked_result_operations.hpp    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index 8d8fb4b..1448441 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -1160,6 +1160,20 @@ inline std::basic_ostream<CharT, Traits> & operator<<(
     return os;
 }
 
+template<typename CharT, typename Traits>
+inline std::basic_ostream<CharT, Traits> & operator<<(
+    std::basic_ostream<CharT, Traits> & os,
+    const boost::safe_numerics::checked_result<unsigned char> & r
+){
+    bool e = r.exception();
+    os << e;
+    if(! e)
+        os << static_cast<std::uint16_t>(r);
+    else
+        os << std::error_code(r.m_e).message().c_str() << ':' << static_cast<char const *>(r);
+    return os;
+}
+
 template<typename CharT, typename Traits, typename R>
 inline std::basic_istream<CharT, Traits> & operator>>(
     std::basic_istream<CharT, Traits> & is,
-- 
2.43.0


From 2cdc25925c5fabf752aed961c05c082daceb0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:44 +0000
Subject: [PATCH 31/35] fix: error codes can be compared with the actions of
 safe numerics

is_error_condition_enum was specialized for safe_numerics_actions without the
make_error_condition it calls for, so such a comparison did not compile.
---
 include/boost/safe_numerics/exception.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 1bcea68..eab8ae3 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -203,18 +203,15 @@ public:
 static const std::error_category & safe_numerics_actions_category =
     error_category_instance<safe_numerics_actions_category_type>::value;
 
-// the following function is used to "finish" implementation of conversion
-// of safe_numerics_error to std::error_condition.  At least for now, this
-// isn't being used and defining here it can lead duplicate symbol errors
-// depending on the compiler.  So suppress it until further notice
-#if 0
-std::error_condition make_error_condition(const safe_numerics_error & e) {
+// the following function is used to "finish" the implementation of the
+// conversion of safe_numerics_actions to std::error_condition, so that an error
+// code can be compared with an action.
+inline std::error_condition make_error_condition(const safe_numerics_actions & a){
     return std::error_condition(
-        static_cast<int>(e),
-        safe_numerics_error_category
+        static_cast<int>(a),
+        safe_numerics_actions_category
     );
 }
-#endif
 
 } // safe_numerics
 } // boost
-- 
2.43.0


From e5fa9e465f1a120447808d8ce39050d773318cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:44 +0000
Subject: [PATCH 32/35] fix: comparison of primitives by the checked functions

checked::less_than, greater_than, equal etc. did not compile for any type and
the default implementation of equal was that of less_than.
---
 include/boost/safe_numerics/checked_default.hpp |  8 ++++----
 include/boost/safe_numerics/checked_integer.hpp | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index d71921e..77bf7e0 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -89,17 +89,17 @@ struct checked_operation{
     modulus(const R & t, const R & u) noexcept {
         return t % u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     less_than(const R & t, const R & u) noexcept {
         return t < u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     greater_than(const R & t, const R & u) noexcept {
         return t > u;
     }
-    constexpr static boost::logic::tribool
+    constexpr static bool
     equal(const R & t, const R & u) noexcept {
-        return t < u;
+        return t == u;
     }
     constexpr static checked_result<R>
     left_shift(const R & t, const R & u) noexcept {
diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 41f3b38..bb1b29e 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -572,6 +572,19 @@ struct checked_operation<R, F,
         return modulus_impl_detail::modulus(t, u, typename std::is_signed<R>::type());
     }
 
+    ////////////////////////////////
+    // comparison of unsafe types
+
+    constexpr static bool less_than(const R & t, const R & u) noexcept {
+        return t < u;
+    }
+    constexpr static bool greater_than(const R & t, const R & u) noexcept {
+        return t > u;
+    }
+    constexpr static bool equal(const R & t, const R & u) noexcept {
+        return t == u;
+    }
+
     ///////////////////////////////////
     // shift operations
 
-- 
2.43.0


From f172084121bd9ec7de35331a2f3691b7530bba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 33/35] fix: exception_policies.hpp is valid in programs built
 without exceptions

With BOOST_NO_EXCEPTIONS the class throw_exception did not parse. Its
operator() is left to be supplied by the user, as boost::throw_exception is.
---
 include/boost/safe_numerics/exception_policies.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/exception_policies.hpp b/include/boost/safe_numerics/exception_policies.hpp
index 5523a9c..500c6df 100644
--- a/include/boost/safe_numerics/exception_policies.hpp
+++ b/include/boost/safe_numerics/exception_policies.hpp
@@ -77,7 +77,8 @@ struct throw_exception {
         throw std::system_error(std::error_code(e), message);
     }
     #else
-    constexpr trap_exception()(const safe_numerics_error & e, const char * message);
+    // to be supplied by the user, as boost::throw_exception is
+    void operator()(const safe_numerics_error & e, const char * message);
     #endif
 };
 
-- 
2.43.0


From e1c8989e6f1706fb363e3bd67e0dc4e04cff66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 34/35] fix: reading an unsigned safe value skips white space
 only if the stream does

---
 include/boost/safe_numerics/safe_base_operations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 015db03..bbd4182 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -2069,7 +2069,8 @@ inline void safe_base<T, Min, Max, P, E>::input(
         // a correct result.  But, C++ reads the absolute value, multiplies
         // it by -1 and stores the resulting value.  This is crazy - but there
         // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-        is >> std::ws;
+        if(is.flags() & std::ios_base::skipws)
+            is >> std::ws;
         int x = is.peek();
         // if the input string starts with a '-', we know its an error
         if(x == '-'){
-- 
2.43.0


From db866b30072e171f57fcea8d6c42043bfd0732f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 35/35] fix: with using namespace boost::safe_numerics, stream
 manipulators can be read

The overloads of >> for streams and any type were an error whenever the
expression was valid, as in std::cin >> std::hex; safe types have their own.
---
 .../safe_numerics/safe_base_operations.hpp    | 36 -------------------
 1 file changed, 36 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index bbd4182..7c804ba 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1490,24 +1490,6 @@ constexpr inline operator<<=(T & t, const U & u){
     return t;
 }
 
-template<class T, class CharT, class Traits> using stream_output_operator
-    = decltype( std::declval<std::basic_ostream<CharT, Traits> &>() >> std::declval<T const&>() );
-
-template<class T, class CharT, class Traits>
-typename boost::lazy_enable_if_c<
-    boost::mp11::mp_valid< stream_output_operator, T, CharT, Traits>::value,
-    std::basic_ostream<CharT, Traits> &
->::type
-constexpr inline operator>>(
-    std::basic_ostream<CharT, Traits> & os,
-    const T & t
-){
-    // INT13-CPP
-    // C++ standards document N4618 & 5.8.2
-    t.output(os);
-    return os;
-}
-
 /////////////////////////////////////////////////////////////////
 // right shift
 template<class T, class U>
@@ -1669,24 +1651,6 @@ constexpr inline operator>>=(T & t, const U & u){
     return t;
 }
 
-template<class T, class CharT, class Traits> using stream_input_operator
-    = decltype( std::declval<std::basic_istream<CharT, Traits> &>() >> std::declval<T const&>() );
-
-template<class T, class CharT, class Traits>
-typename boost::lazy_enable_if_c<
-    boost::mp11::mp_valid< stream_input_operator, T, CharT, Traits>::value,
-    std::basic_istream<CharT, Traits> &
->::type
-constexpr inline operator>>(
-    std::basic_istream<CharT, Traits> & is,
-    const T & t
-){
-    // INT13-CPP
-    // C++ standards document N4618 & 5.8.2
-    t.input(is);
-    return is;
-}
-
 /////////////////////////////////////////////////////////////////
 // bitwise operators
 
-- 
2.43.0

