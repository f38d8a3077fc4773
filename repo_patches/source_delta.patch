From dd2fc7afb96418d756c439ff3bdf450334c9ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 01/41] fix: define tsym::normal, declared in the public header
 but missing from the library

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..e37d599 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -112,6 +112,11 @@ tsym::Var tsym::expand(const Var& arg)
     return Var(arg.get()->expand());
 }
 
+tsym::Var tsym::normal(const Var& arg)
+{
+    return Var(arg.get()->normal());
+}
+
 tsym::Var tsym::simplify(const Var& arg)
 /* Currently, only normalization and expansion is tested for the simplest representation. */
 {
-- 
2.43.0


From a17436218c876ab1b3c4ebfc486f425f82728b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 02/41] fix: product of equal trigonometric functions crashed
 or turned into a wrong tangent power

---
 src/productsimpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..22c2215 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,11 +165,17 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                /* Both factors cancel, e.g. tan(a)/tan(a). */
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
 
-            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() == 2 && !haveEqualBases(*res.front(), *res.back())
+              && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
-- 
2.43.0


From fb81a49525df2830e3aa687cb95001059a354071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 03/41] fix: order of two powers with equal base that are not
 contracted depended on construction order

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 22c2215..acac5ce 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -397,7 +397,7 @@ namespace tsym {
                 ;
             else if (isFractionNumeric(*e1) && isFractionNumeric(*e2) && isInteger(*newExp))
                 /* Exponent addition would hide the fact that the power factors could be undefined. */
-                return {f1, f2};
+                return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
 
             return {Power::create(newBase, newExp)};
         }
-- 
2.43.0


From ae33af525dbecb4537f2773cab8706e627f2dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:41 +0000
Subject: [PATCH 04/41] fix: product of numeric powers collapsed to one when a
 pair contracted to different factors

---
 src/productsimpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index acac5ce..d7ff84d 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -271,9 +271,8 @@ namespace tsym {
             else if (areEqual(res, q1p1))
                 return join(std::move(q1), merge(p, qRest));
 
-            TSYM_ERROR("ProductSimpl: Error merging %S and %S to %S", p1, q1, res);
-
-            return {};
+            /* The pair was turned into different factors, e.g. 6^(-2/3)*6^(-2/3) = 1/6*6^(-1/3): */
+            return simplifyWithoutCache(join(std::move(res), join(std::move(pRest), std::move(qRest))));
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From d5ec636b6227e727a4d2ea55858b4aec1f95c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:41 +0000
Subject: [PATCH 05/41] fix: numeric power lost prime factors occurring more
 often than the smallest prime

---
 src/primefac.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..b355fbd 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,7 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime != *(prime + (guess - 1)) || *prime == *(prime - 1))
                     return 0;
 
             return guess;
-- 
2.43.0


From 7e684a8f611c863a4fe978ff5f9a79f7abb65cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 06/41] fix: numbers exceeding the double range aborted the
 program

---
 src/number.cpp | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index c939abc..0762591 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -211,6 +211,40 @@ tsym::Number tsym::Number::computeNumPower(const Int& numExponent) const
 
 namespace tsym {
     namespace {
+        double toDouble(const Int& n)
+        /* The conversion of integers that exceed the double range isn't provided by the integer type. */
+        {
+            const Int magnitude = abs(n);
+
+            if (magnitude == 0 || msb(magnitude) + 1 < std::numeric_limits<double>::max_exponent)
+                return static_cast<double>(n);
+
+            return n < 0 ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
+        }
+
+        double toDouble(const Int& numerator, const Int& denominator)
+        {
+            const double num = toDouble(numerator);
+            const double denom = toDouble(denominator);
+
+            if (std::isfinite(num) && std::isfinite(denom))
+                return num / denom;
+
+            /* At least one part exceeds the double range, the quotient doesn't have to. */
+            const auto shift = [](const Int& n) {
+                const int bits = static_cast<int>(msb(n)) + 1;
+
+                return bits > std::numeric_limits<double>::digits ? bits - std::numeric_limits<double>::digits : 0;
+            };
+            const Int magnitude = abs(numerator);
+            const int numShift = shift(magnitude);
+            const int denomShift = shift(denominator);
+            const double quotient =
+              static_cast<double>(Int(magnitude >> numShift)) / static_cast<double>(Int(denominator >> denomShift));
+
+            return std::ldexp(numerator < 0 ? -quotient : quotient, numShift - denomShift);
+        }
+
         Int tryGetBase(const Int& n, const Int& denomExponent)
         /* Returns a in a^(1/denomExponent) = n, if that's an exact solution. Otherwise, returns 0. n
          * and denomExponent are both positive. */
@@ -222,7 +256,7 @@ namespace tsym {
              * lead to an exact integer solution of the power. Thus, it is save to cast the double power
              * result to an integer after only adding 0.1 (which is somewhat arbitrary, could be any value
              * less than 0.5). */
-            const double exact = std::pow(static_cast<double>(n), 1.0 / static_cast<double>(denomExponent));
+            const double exact = std::pow(toDouble(n), 1.0 / static_cast<double>(denomExponent));
 
             if (exact > std::numeric_limits<int>::max())
                 /* Result wouldn't fit into an int. */
@@ -246,12 +280,13 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
  * power exactly, i.e., check for simple bases matching the numerator/denominator with the given
  * denominator exponent (e.g. 8^(1/3) = 2). */
 {
+    if (denomExponent == 1)
+        return;
+
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
-    if (denomExponent == 1)
-        return;
-    else if (numTest == 0 || denomTest == 0)
+    if (numTest == 0 || denomTest == 0)
         result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
     else
         result = {numTest, denomTest};
@@ -291,7 +326,7 @@ tsym::Int tsym::Number::denominator() const
 double tsym::Number::toDouble() const
 {
     if (isRational())
-        return boost::rational_cast<double>(getRational());
+        return tsym::toDouble(numerator(), denominator());
     else
         return getDouble();
 }
-- 
2.43.0


From 3619a36aeeca4f21d7950a1094e44dfd7e5af83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 07/41] fix: order of rationals was decided in double precision

---
 src/number.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/number.cpp b/src/number.cpp
index 0762591..e346d57 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -359,6 +359,9 @@ bool tsym::operator==(const Number& lhs, const Number& rhs)
 
 bool tsym::operator<(const Number& lhs, const Number& rhs)
 {
+    if (lhs.isRational() && rhs.isRational())
+        return lhs.numerator() * rhs.denominator() < rhs.numerator() * lhs.denominator();
+
     return lhs.toDouble() < rhs.toDouble();
 }
 
-- 
2.43.0


From 95404484e963cdb28776ff6789c7bb6097c0c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 08/41] fix: integers with leading zeros were parsed as octal

---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..67cd9b1 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -2,6 +2,7 @@
 #include "parser.h"
 #include <boost/algorithm/cxx11/all_of.hpp>
 #include <boost/spirit/include/qi.hpp>
+#include <algorithm>
 #include <functional>
 #include <stack>
 #include <string>
@@ -140,7 +141,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                /* Leading zeros would select an octal interpretation: */
+                const auto first = std::min(digits.find_first_not_of('0'), digits.size() - 1);
+
+                stack.push(Numeric::create(Int(digits.substr(first))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From 0ba6ba74777aaad75d5ecdf54cd7b9ee15526cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 09/41] fix: trigonometric function of a numeric sum with
 undecided prefactor signs recursed endlessly

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7172626..4112274 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -144,7 +144,7 @@ bool tsym::Trigonometric::doesSymmetryApply(const BasePtr& arg)
 bool tsym::Trigonometric::haveAllNegativePrefactors(const BasePtrList& operands)
 {
     for (const auto& arg : operands)
-        if (arg->constTerm()->isPositive())
+        if (!arg->constTerm()->isNegative())
             return false;
 
     return true;
-- 
2.43.0


From fe605e065d6f39b67fbe1333b615c257ae16d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 10/41] fix: sine of a negative number not recognised as
 negative aborted the program

---
 src/numtrigosimpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..7e85aca 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -165,8 +165,8 @@ void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
 
-    /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    /* The argument is shifted into 0 <= arg < 2*Pi. */
+    while (arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
-- 
2.43.0


From 6cf046ee6b271468c5075a5c94bb909b92a16f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 11/41] fix: inverse sine and cosine of out-of-range function
 values were not Undefined but threw on numeric evaluation

---
 src/trigonometric.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 4112274..43ba0d0 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -30,6 +30,16 @@ namespace tsym {
             return Product::create(Numeric::create(num, denom), pi);
         }
 
+        bool isInverseArgOutOfRange(Trigonometric::Type type, const BasePtr& arg)
+        {
+            if (type != Trigonometric::Type::ASIN && type != Trigonometric::Type::ACOS)
+                return false;
+
+            const auto num = arg->numericEval();
+
+            return num && (*num < -1 || *num > 1);
+        }
+
         BasePtr atan2ArgEval(const BasePtr& y, const BasePtr& x)
         {
             return Product::create(y, Power::oneOver(x));
@@ -116,6 +126,8 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
 {
     if (isUndefined(*arg))
         return arg;
+    else if (isInverseArgOutOfRange(type, arg))
+        return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
     else if (doesSymmetryApply(arg))
-- 
2.43.0


From aafd304a3d549d494e6080af05b6183e6e4e9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 12/41] fix: trigonometric functions of large arguments removed
 full turns one by one

---
 src/numtrigosimpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 7e85aca..11e8ea7 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -165,7 +165,10 @@ void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
 
-    /* The argument is shifted into 0 <= arg < 2*Pi. */
+    /* The argument is shifted into 0 <= arg < 2*Pi, full turns of large arguments are removed at once. */
+    if (const double turns = std::trunc(arg->numericEval()->toDouble() / (2.0 * M_PI)); std::abs(turns) > 1.0)
+        arg = Sum::create(arg, Product::create(Numeric::create(-turns), twoPi));
+
     while (arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
-- 
2.43.0


From de8850698bf647dbc67927c46e61a7429eef70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 13/41] fix: products of powers of different trigonometric
 functions contracted to a wrong tangent power

---
 src/productsimpl.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index d7ff84d..c4f0a8a 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -172,10 +172,13 @@ namespace tsym {
 
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
+            const auto isSinOrCos = [&sin, &cos](const auto& base) { return base->isEqual(*sin) || base->isEqual(*cos); };
             BasePtr newExp;
 
-            if (res.size() == 2 && !haveEqualBases(*res.front(), *res.back())
-              && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() > 2)
+                return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
+            else if (res.size() == 2 && isSinOrCos(res.front()->base()) && isSinOrCos(res.back()->base())
+              && !haveEqualBases(*res.front(), *res.back()) && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
@@ -402,10 +405,12 @@ namespace tsym {
         }
 
         bool areContractableTrigFctPowers(const Base& f1, const Base& f2)
-        /* Returns true for Powers with numerically evaluable exponents and bases that are trigonometric
-         * functions of the same argument. */
+        /* Returns true for Powers with numerically evaluable exponents and bases that are different
+         * trigonometric functions of the same argument. */
         {
-            if (isContractableTrigFctPower(f1) && isContractableTrigFctPower(f2))
+            if (haveEqualBases(f1, f2))
+                return false;
+            else if (isContractableTrigFctPower(f1) && isContractableTrigFctPower(f2))
                 return f1.base()->operands().front()->isEqual(*f2.base()->operands().front());
             else
                 return false;
-- 
2.43.0


From f10d00b1b590ff9c43657b9e91ee4fe16cccb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 14/41] fix: logarithm of an even power of a negative number
 was Undefined

---
 src/logarithm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 8812c4b..f8732c9 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -85,7 +85,13 @@ tsym::BasePtr tsym::Logarithm::createFromConstant(const BasePtr& arg)
 
 tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
 {
-    return Product::create(arg->exp(), create(arg->base()));
+    const BasePtr base(arg->base());
+
+    if (const auto num = base->numericEval(); (num && *num < 0) || base->isNegative())
+        /* For an even exponent, the logarithm of the base is undefined but the one of the power isn't. */
+        return createInstance(arg);
+    else
+        return Product::create(arg->exp(), create(base));
 }
 
 std::optional<tsym::Number> tsym::Logarithm::numericEval() const
-- 
2.43.0


From 483862fd94e0e747718b7243c2888191b924c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:10 +0000
Subject: [PATCH 15/41] fix: equal trigonometric factors are merged before they
 are contracted

---
 src/productsimpl.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index c4f0a8a..e857630 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -159,6 +159,9 @@ namespace tsym {
         /* At this point, f1 and f2 are (possibly powers of) trigonometric function with identical
          * arguments. */
         {
+            if (haveEqualBases(*f1, *f2))
+                return simplTwoEqualBases(f1, f2);
+
             const BasePtr newArg(f1->base()->operands().front());
             const BasePtr sin(trigSymbReplacement(Trigonometric::Type::SIN, newArg));
             const BasePtr cos(trigSymbReplacement(Trigonometric::Type::COS, newArg));
@@ -166,10 +169,6 @@ namespace tsym {
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
 
-            if (res.empty())
-                /* Both factors cancel, e.g. tan(a)/tan(a). */
-                return {Numeric::one()};
-
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             const auto isSinOrCos = [&sin, &cos](const auto& base) { return base->isEqual(*sin) || base->isEqual(*cos); };
@@ -178,7 +177,7 @@ namespace tsym {
             if (res.size() > 2)
                 return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
             else if (res.size() == 2 && isSinOrCos(res.front()->base()) && isSinOrCos(res.back()->base())
-              && !haveEqualBases(*res.front(), *res.back()) && exp1->isEqual(*Product::minus(exp2))) {
+              && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
@@ -405,12 +404,10 @@ namespace tsym {
         }
 
         bool areContractableTrigFctPowers(const Base& f1, const Base& f2)
-        /* Returns true for Powers with numerically evaluable exponents and bases that are different
-         * trigonometric functions of the same argument. */
+        /* Returns true for Powers with numerically evaluable exponents and bases that are trigonometric
+         * functions of the same argument. */
         {
-            if (haveEqualBases(f1, f2))
-                return false;
-            else if (isContractableTrigFctPower(f1) && isContractableTrigFctPower(f2))
+            if (isContractableTrigFctPower(f1) && isContractableTrigFctPower(f2))
                 return f1.base()->operands().front()->isEqual(*f2.base()->operands().front());
             else
                 return false;
-- 
2.43.0


From 41330a9e56150c78afa692b5bc8e9db3a93f98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:07 +0000
Subject: [PATCH 16/41] fix: normalisation of a root of a fraction with
 negative numerator gave Undefined

---
 src/powernormal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 011abd4..583f82c 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -56,7 +56,11 @@ tsym::Fraction tsym::PowerNormal::normalIntegerExp() const
 
 tsym::Fraction tsym::PowerNormal::normalNonIntegerExp() const
 {
-    if (rationalExp->numericEval())
+    /* Splitting (-1/a)^(1/2) into the powers of numerator and denominator isn't possible. */
+    const bool canSplit = !isUndefined(*Power::create(rationalBase.num, rationalExp))
+      && !isUndefined(*Power::create(rationalBase.denom, rationalExp));
+
+    if (rationalExp->numericEval() && canSplit)
         return normalNumEvalExp();
     else
         return normalNonNumEvalExp();
-- 
2.43.0


From 8d34eddb1c632735e5c068a130f10e5e8384db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 17/41] fix: cancellation of a fraction with unexpanded
 numerator lost the numerator

---
 src/fraction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fraction.cpp b/src/fraction.cpp
index 613e692..7170002 100644
--- a/src/fraction.cpp
+++ b/src/fraction.cpp
@@ -24,8 +24,9 @@ namespace tsym {
         Fraction cancelNonTrivial(const Fraction& f)
         {
             const BasePtr gcd(poly::gcd(f.num, f.denom));
-            const BasePtr newDenom(poly::divide(f.denom, gcd).front());
-            const BasePtr newNum(poly::divide(f.num, gcd).front());
+            /* Polynomial division requires expanded input, otherwise leading coefficients are incomplete. */
+            const BasePtr newDenom(poly::divide(f.denom->expand(), gcd).front());
+            const BasePtr newNum(poly::divide(f.num->expand(), gcd).front());
 
             return Fraction{newNum, newDenom};
         }
-- 
2.43.0


From 63e2aeda8bdfed8a2158aa93ad37f0b0eec2fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 18/41] fix: derivative of a power with negative numeric base
 was Undefined

---
 src/power.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index b0d303b..ff3bc04 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -104,10 +104,18 @@ tsym::Fraction tsym::Power::normal(SymbolMap& map) const
 
 tsym::BasePtr tsym::Power::diffWrtSymbol(const Base& symbol) const
 {
-    const BasePtrList summands{Product::create(Logarithm::create(baseRef), expRef->diffWrtSymbol(symbol)),
-      Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+    const BasePtr dBase(baseRef->diffWrtSymbol(symbol));
+    const BasePtr dExp(expRef->diffWrtSymbol(symbol));
+    BasePtrList summands;
 
-    return Product::create(clone(), Sum::create(summands));
+    /* The logarithm of a negative base is undefined, it must not enter with a zero factor. */
+    if (!isZero(*dExp))
+        summands.push_back(Product::create(Logarithm::create(baseRef), dExp));
+
+    if (!isZero(*dBase))
+        summands.push_back(Product::create(expRef, oneOver(baseRef), dBase));
+
+    return summands.empty() ? Numeric::zero() : Product::create(clone(), Sum::create(summands));
 }
 
 bool tsym::Power::isPositive() const
-- 
2.43.0


From 6c827318db8d9d7d4335af1c873365a98f628544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:25 +0000
Subject: [PATCH 19/41] fix: expansion of a product of sums crashed when two of
 them contracted to a single term

---
 src/baseptrlistfct.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/baseptrlistfct.cpp b/src/baseptrlistfct.cpp
index 69986b9..0bacda1 100644
--- a/src/baseptrlistfct.cpp
+++ b/src/baseptrlistfct.cpp
@@ -129,7 +129,13 @@ namespace tsym {
             for (const auto& item : first->operands())
                 summands.push_back(Product::create(item, second)->expand());
 
-            sums.push_front(Sum::create(summands));
+            const BasePtr product(Sum::create(summands));
+
+            if (!isSum(*product) && !sums.empty())
+                /* The product of two sums can turn out to be a single term. */
+                return Product::create(product, expandProductOf(sums))->expand();
+
+            sums.push_front(product);
 
             return expandProductOf(sums);
         }
-- 
2.43.0


From e2104e0751b4a5be846d5c461f98311baa768e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:31 +0000
Subject: [PATCH 20/41] fix: singular matrices gave Undefined results with the
 default pivot strategy

---
 src/directsolve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..1bb923a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -18,7 +18,7 @@ std::size_t tsym::firstNonZeroPivot(const SquareMatrixAdaptor<>& coeff, std::siz
 std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::size_t row)
 {
     auto leastComplexity = std::numeric_limits<unsigned>::max();
-    std::size_t idx = row;
+    std::size_t idx = coeff.dim;
 
     for (std::size_t i = row; i < coeff.dim; ++i) {
         const Var& diag = coeff(i, row);
@@ -30,6 +30,9 @@ std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::
         }
     }
 
+    if (idx == coeff.dim)
+        throw std::invalid_argument("Coefficient matrix is singular");
+
     return idx;
 }
 
-- 
2.43.0


From 04d0ad069aa34fa1d45d0331e8c8a7ea5c3fb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:54 +0000
Subject: [PATCH 21/41] fix: zero entries recognised only by simplification
 were chosen as pivots

---
 src/directsolve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 1bb923a..35e96a9 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -56,6 +56,11 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* A pivot must not be selected among entries that are zero only after simplification. */
+    for (std::size_t i = 0; i < dim; ++i)
+        for (std::size_t j = 0; j < dim; ++j)
+            coeff(i, j) = simplify(coeff(i, j));
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From 0fd2d50ac2a41dc409c97ca9a03a6b6c10b2bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 22/41] fix: symbol names starting with the name of a constant
 were not parsed

---
 src/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 67cd9b1..3739202 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -64,8 +64,12 @@ namespace tsym {
                 functions.add("sin", Fct::SIN)("cos", Fct::COS)("tan", Fct::TAN)("asin", Fct::ASIN)("acos", Fct::ACOS)(
                   "atan", Fct::ATAN)("sqrt", Fct::SQRT)("log", Fct::LOG);
 
-                scalar = no_case[qi::lit("pi")][bind(&QiParser::pushPi)]
-                  | no_case[qi::lit("euler")][bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
+                /* Names that only start with the name of a constant are symbols: */
+                endOfName = !(qi::ascii::alnum | '_');
+
+                scalar = (no_case[qi::lit("pi")] >> endOfName)[bind(&QiParser::pushPi)]
+                  | (no_case[qi::lit("euler")] >> endOfName)[bind(&QiParser::pushEuler)]
+                  | symbol[bindWithArg(&QiParser::pushSymbol)]
                   | floatingPoint[bindWithArg(&QiParser::pushDouble)] | integer[bindWithArg(&QiParser::pushInteger)];
 
                 oneArgFunction = (no_case[functions] >> '(' >> expression >> ')')[bindWithArg(&QiParser::toFunction)];
@@ -249,6 +253,7 @@ namespace tsym {
             SymbolParser<Iterator> symbol{};
             BigIntParser<Iterator> integer{};
             Rule expression;
+            NoSpaceRule endOfName;
             NoSpaceRule scalar;
             Rule oneArgFunction;
             Rule twoArgFunction;
-- 
2.43.0


From 990733ddb4e63391462e2845395bfae22f565aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:28 +0000
Subject: [PATCH 23/41] fix: floating point coefficient of a fraction was
 printed as zero

---
 src/printer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..7f44753 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -226,10 +226,14 @@ namespace tsym {
 
                 /* Adjust the previous logic and move factors like 2/3 to numerator/denominator. */
                 const auto fracFactor = frac.first.front()->numericEval();
-                frac.first.pop_front();
 
                 assert(fracFactor);
 
+                if (fracFactor->isDouble())
+                    return frac;
+
+                frac.first.pop_front();
+
                 frac.first.push_front(Numeric::create(fracFactor->numerator()));
                 frac.second.push_front(Numeric::create(fracFactor->denominator()));
 
-- 
2.43.0


From e04b9eb23f8faafaa89425c2294946857e9900e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:28 +0000
Subject: [PATCH 24/41] fix: unicode output dropped the subscript of Greek
 symbols

---
 src/namefct.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/namefct.cpp b/src/namefct.cpp
index cc281f2..9f37c12 100644
--- a/src/namefct.cpp
+++ b/src/namefct.cpp
@@ -100,8 +100,10 @@ std::string tsym::unicode(NameView name)
 {
     if (!isGreekLetter(name.value))
         return concat(name);
-    else
-        return unicodeForGreekLetter(name.value);
+
+    const std::string letter = unicodeForGreekLetter(name.value);
+
+    return concat({letter, name.subscript, name.superscript});
 }
 
 std::string tsym::tex(NameView name)
-- 
2.43.0


From 8ef168c043deae7e9b35a5e3934f93aadb6db10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:13 +0000
Subject: [PATCH 25/41] fix: order of atan2 functions differing only in the
 second argument depended on construction order

---
 src/order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/order.cpp b/src/order.cpp
index a9243a0..480ba0e 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -147,6 +147,9 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
 
     if (lName != rName)
         return lName > rName;
+    else if (left.operands().front()->isEqual(*right.operands().front()))
+        /* Only the second arguments can differ: */
+        return doPermute(*left.operands().back(), *right.operands().back());
     else
         /* If the function argument is a sum or a product, this differs from Cohen's algorithm: the
          * operands are compared by taking the last different operand as significant, as it is the
-- 
2.43.0


From 056584f732a878382c85babda96b5ae1c998fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:14 +0000
Subject: [PATCH 26/41] fix: contracted summand was not merged with the
 remaining ones

---
 src/sumsimpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index db4216d..66c6df1 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -86,7 +86,9 @@ namespace tsym {
             else if (res.size() == 1 && isZero(*res.front()))
                 return merge(pRest, qRest);
             else if (res.size() == 1)
-                return join(std::move(res), merge(pRest, qRest));
+                /* The position of the new summand may be another one, and it may be contractable further, e.g.
+                 * 1/sqrt(2) + 1/sqrt(2) = sqrt(2). */
+                return merge(res, merge(pRest, qRest));
             else if (areEqual(res, p1q1))
                 return join(std::move(p1), merge(pRest, q));
             else if (areEqual(res, q1p1))
-- 
2.43.0


From a0ff425719888e4e408fd48ae9ebb499de5f1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:41 +0000
Subject: [PATCH 27/41] fix: difference of equal sums of constants did not
 vanish

---
 src/order.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/order.cpp b/src/order.cpp
index 480ba0e..3a19728 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -165,10 +165,11 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
     if (isNumeric(left))
         return false;
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
-     * simply the leftmost part in any expression, except in comparison with a Numeric. */
-    else if (isConstant(left) && !isNumeric(right))
+     * simply the leftmost part in any expression, except in comparison with a Numeric. Multiples
+     * of constants are an exception, too, because e.g. 2*e must be at the position of e. */
+    else if (isConstant(left) && !isNumeric(right) && !isProduct(right))
         return false;
-    else if (isProduct(left) && isPowerSumSymbolOrFunction(right))
+    else if (isProduct(left) && (isPowerSumSymbolOrFunction(right) || isConstant(right)))
         return doPermuteLeftProduct(left, right);
     else if (isPower(left) && isSumSymbolOrFunction(right))
         return doPermuteLeftPower(left, right);
-- 
2.43.0


From 5fef1ed2f09f864bd83f4381e53b9ac06713daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:54 +0000
Subject: [PATCH 28/41] fix: contracted factor was not merged with the
 remaining ones

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index e857630..067c5f5 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -267,7 +267,7 @@ namespace tsym {
             else if (res.size() == 1 && isOne(*res.front()))
                 return merge(pRest, qRest);
             else if (res.size() == 1)
-                return join(std::move(res), merge(pRest, qRest));
+                return merge(res, merge(pRest, qRest));
             else if (areEqual(res, p1q1))
                 return join(std::move(p1), merge(pRest, q));
             else if (areEqual(res, q1p1))
-- 
2.43.0


From fa8e1977a0b5e30f4b38e463d09f662871b35ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:30 +0000
Subject: [PATCH 29/41] fix: results could depend on the number of temporary
 symbols in use

---
 src/symbol.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/symbol.cpp b/src/symbol.cpp
index 2d6b98d..65d08fe 100644
--- a/src/symbol.cpp
+++ b/src/symbol.cpp
@@ -1,6 +1,7 @@
 
 #include "symbol.h"
 #include <boost/functional/hash.hpp>
+#include <limits>
 #include <unordered_map>
 #include <utility>
 #include "basefct.h"
@@ -13,6 +14,19 @@
 
 unsigned tsym::Symbol::tmpCounter = 0;
 
+namespace tsym {
+    namespace {
+        std::string tmpIdStr(unsigned tmpId)
+        {
+            /* Leading zeros, such that the order by names is the order of creation. Otherwise, results that depend on
+             * the order of symbols would change with the number of temporary symbols being alive. */
+            const std::string id = std::to_string(tmpId);
+
+            return std::string(std::numeric_limits<unsigned>::digits10 + 1 - id.size(), '0') + id;
+        }
+    }
+}
+
 tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
     , symbolName{std::move(name)}
@@ -23,7 +37,7 @@ tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
 
 tsym::Symbol::Symbol(unsigned tmpId, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
-    , symbolName{std::string(tmpSymbolNamePrefix) + std::to_string(tmpId)}
+    , symbolName{std::string(tmpSymbolNamePrefix) + tmpIdStr(tmpId)}
     , positive(positive)
 {
     setDebugString();
-- 
2.43.0


From 7277b8352566ce6536289dbb87147609ef66bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:39 +0000
Subject: [PATCH 30/41] fix: products whose numeric factors vanish in floating
 point arithmetic kept a zero factor or exhausted the memory

---
 src/product.cpp      | 3 +++
 src/productsimpl.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/product.cpp b/src/product.cpp
index 4382581..2323cfc 100644
--- a/src/product.cpp
+++ b/src/product.cpp
@@ -39,6 +39,9 @@ tsym::BasePtr tsym::Product::createSimplifiedProduct(const BasePtrList& factors)
         return Numeric::one();
     else if (res.size() == 1)
         return res.front();
+    else if (hasZeroElements(res))
+        /* Non-zero numeric factors can be contracted to zero in floating point arithmetic. */
+        return Numeric::zero();
     else if (needsExpansion(res))
         return expandAsProduct(res);
     else
diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 067c5f5..e6082a5 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -363,6 +363,10 @@ namespace tsym {
             const Number exp(*numPow->exp()->numericEval());
             const Number preFactor(*numeric->numericEval());
 
+            if (preFactor == 0)
+                /* The numeric factors may vanish in floating point arithmetic. */
+                return {numeric};
+
             return simplNumAndNumPow(preFactor, base, exp);
         }
 
-- 
2.43.0


From 8d1761ae7dec4df3f800a8d1319bb145eb86382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 31/41] fix: powers of minus one and roots with exponents
 beyond 32 bits aborted

---
 src/number.cpp   | 5 ++++-
 src/primefac.cpp | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index e346d57..55a779d 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -268,7 +268,10 @@ namespace tsym {
                 /* We are not too strict here, because of the following check. */
                 return 0;
 
-            assert(denomExponent > 0 && fitsInto<unsigned>(denomExponent));
+            assert(denomExponent > 0);
+
+            if (base == 1 || !fitsInto<unsigned>(denomExponent))
+                return n == 1 ? 1 : 0;
 
             return pow(Int(base), static_cast<unsigned>(denomExponent)) == n ? base : 0;
         }
diff --git a/src/primefac.cpp b/src/primefac.cpp
index b355fbd..492eebb 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -33,6 +33,9 @@ namespace tsym {
 
         void duplicate(std::vector<Int>& primes, const Int& n)
         {
+            if (primes.empty())
+                return;
+
             std::vector<Int> result;
 
             assert(n > 0 && n < Int(std::numeric_limits<unsigned>::max()));
-- 
2.43.0


From 6d8c4c3587127bdccfae0daade0541bde24c1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 32/41] fix: order of constants and their powers was
 inconsistent

---
 src/order.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/order.cpp b/src/order.cpp
index 3a19728..520f479 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -101,7 +101,12 @@ bool tsym::doPermuteBothPower(const Base& left, const Base& right)
     const Base& lExp(*left.exp());
     const Base& rExp(*right.exp());
 
-    if (lBase.isDifferent(rBase))
+    if (isConstant(lBase) && isNumeric(rBase))
+        /* As for the constant itself, e.g. pi*sqrt(2) and pi^2*sqrt(2): */
+        return false;
+    else if (isNumeric(lBase) && isConstant(rBase))
+        return true;
+    else if (lBase.isDifferent(rBase))
         return doPermute(lBase, rBase);
     else
         return doPermute(lExp, rExp);
@@ -167,6 +172,8 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
      * simply the leftmost part in any expression, except in comparison with a Numeric. Multiples
      * of constants are an exception, too, because e.g. 2*e must be at the position of e. */
+    else if (isConstant(left) && isPower(right) && isConstant(*right.base()))
+        return left.isEqual(*right.base()) ? doPermute(*Numeric::one(), *right.exp()) : doPermute(left, *right.base());
     else if (isConstant(left) && !isNumeric(right) && !isProduct(right))
         return false;
     else if (isProduct(left) && (isPowerSumSymbolOrFunction(right) || isConstant(right)))
-- 
2.43.0


From ca08288ec2a71fe79f4846eb1ce13252c35fb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 33/41] fix: product of numeric powers could leave a product or
 a trailing number in the factor list

---
 src/productsimpl.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index e6082a5..a420c01 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -37,12 +37,14 @@ namespace tsym {
         BasePtrList simplTwoFactorsWithProduct(const BasePtr& f1, const BasePtr& f2);
         BasePtrList merge(const BasePtrList& l1, const BasePtrList& l2);
         BasePtrList mergeNonEmpty(const BasePtrList& p, const BasePtrList& q);
+        BasePtrList prepend(BasePtr factor, BasePtrList&& simplified);
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2);
         BasePtrList simplTwoConst(const BasePtr& f1, const BasePtr& f2);
         BasePtrList simplTwoNumerics(const BasePtr& f1, const BasePtr& f2);
         BasePtrList simplNumAndConst(const BasePtr& numeric, const BasePtr& constant);
         BasePtrList simplNumAndNumPow(const BasePtr& numeric, const BasePtr& numPow);
         BasePtrList simplNumAndNumPow(const Number& preFactor, const Number& base, const Number& exp);
+        BasePtrList powerToFactors(const BasePtr& base, const BasePtr& exp);
         bool haveEqualBases(const Base& f1, const Base& f2);
         BasePtrList simplTwoEqualBases(const BasePtr& f1, const BasePtr& f2);
         bool areNumPowersWithEqualExp(const Base& f1, const Base& f2);
@@ -269,14 +271,23 @@ namespace tsym {
             else if (res.size() == 1)
                 return merge(res, merge(pRest, qRest));
             else if (areEqual(res, p1q1))
-                return join(std::move(p1), merge(pRest, q));
+                return prepend(std::move(p1), merge(pRest, q));
             else if (areEqual(res, q1p1))
-                return join(std::move(q1), merge(p, qRest));
+                return prepend(std::move(q1), merge(p, qRest));
 
             /* The pair was turned into different factors, e.g. 6^(-2/3)*6^(-2/3) = 1/6*6^(-1/3): */
             return simplifyWithoutCache(join(std::move(res), join(std::move(pRest), std::move(qRest))));
         }
 
+        BasePtrList prepend(BasePtr factor, BasePtrList&& simplified)
+        {
+            if (!simplified.empty() && isNumeric(*simplified.front()) && !isNumeric(*factor))
+                /* The simplification yields a leading number, e.g. in pi*(2^(1/3)*2^(2/3)): */
+                return merge({std::move(factor)}, simplified);
+
+            return join(std::move(factor), std::move(simplified));
+        }
+
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
         {
             if (isOne(*f1))
@@ -384,6 +395,14 @@ namespace tsym {
                 return {preFac, Power::create(newBase, newExp)};
         }
 
+        BasePtrList powerToFactors(const BasePtr& base, const BasePtr& exp)
+        /* The power can turn out to be a product itself, e.g. 2^(7/6) = 2*2^(1/6). */
+        {
+            const BasePtr power(Power::create(base, exp));
+
+            return isProduct(*power) ? power->operands() : BasePtrList{power};
+        }
+
         bool haveEqualBases(const Base& f1, const Base& f2)
         {
             return f1.base()->isEqual(*f2.base());
@@ -404,7 +423,7 @@ namespace tsym {
                 /* Exponent addition would hide the fact that the power factors could be undefined. */
                 return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
 
-            return {Power::create(newBase, newExp)};
+            return powerToFactors(newBase, newExp);
         }
 
         bool areContractableTrigFctPowers(const Base& f1, const Base& f2)
@@ -461,7 +480,7 @@ namespace tsym {
 
             /* No care must be taken for the sign of f1 and f2, the subsequent treatment will choose the
              * positive exponent. */
-            return {Power::create(Numeric::create(base1 * base2), exp1)};
+            return powerToFactors(Numeric::create(base1 * base2), exp1);
         }
 
         bool areNumPowersWithEqualExpDenom(const Base& f1, const Base& f2)
@@ -488,7 +507,7 @@ namespace tsym {
             if (newBase.numerator() > limit || newBase.denominator() > limit)
                 return {f1, f2};
             else
-                return {Power::create(Numeric::create(newBase), newExp)};
+                return powerToFactors(Numeric::create(newBase), newExp);
         }
 
         Int evalNumExpNumerator(const BasePtr& numPow)
-- 
2.43.0


From f0d7e6eae23fb366adc9abe6ed58652684805c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 34/41] fix: odd powers of negative expressions were not
 recognized as negative

---
 src/power.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index ff3bc04..c1c9e82 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -131,8 +131,9 @@ bool tsym::Power::isPositive() const
 bool tsym::Power::isNegative() const
 {
     /* Currently, negative powers are always resolved as e.g. (-a)^(1/3) = (-1)*a^(1/3) for product
-     * bases or (-2)^(1/3) = (-1)*2^(1/3) for numeric powers. */
-    return false;
+     * bases or (-2)^(1/3) = (-1)*2^(1/3) for numeric powers. This doesn't apply to other bases with a known sign, e.g.
+     * log(1/2)^(-1) or (-2 + sqrt(2))^3. */
+    return baseRef->isNegative() && isInteger(*expRef) && expRef->numericEval()->numerator() % 2 != 0;
 }
 
 size_t tsym::Power::hash() const
-- 
2.43.0


From d95ac056a8c0337522d5bab4a8ff16f1ac292210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 35/41] fix: large floating point factor of a numeric power
 exhausted the memory

---
 src/numpowersimpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index 05bdb22..9dbda6e 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -2,6 +2,7 @@
 #include "numpowersimpl.h"
 #include <cassert>
 #include <cmath>
+#include <utility>
 #include "logging.h"
 #include "numberfct.h"
 
@@ -63,8 +64,14 @@ void tsym::NumPowerSimpl::computeNonRational()
 
 void tsym::NumPowerSimpl::computeRational()
 {
+    /* A floating point prefactor can't be part of the prime factorization, and its inverse could vanish. */
+    const Number doubleFactor = std::exchange(result.preFactor, result.preFactor.isDouble() ? 1 : result.preFactor);
+
     computeNegOrPosExp();
     adjustExpSignAndBase();
+
+    if (doubleFactor.isDouble())
+        (result.exp == 1 ? result.base : result.preFactor) *= doubleFactor;
 }
 
 void tsym::NumPowerSimpl::computeNegOrPosExp()
-- 
2.43.0


From 1c3eaacd0929ee1c3aff1e5b8a98a492ce647bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 36/41] fix: trigonometric functions of large multiples of pi
 were not resolved or did not terminate

---
 src/basefct.cpp       |  4 ++--
 src/numtrigosimpl.cpp | 21 ++++++++++++++++++---
 src/numtrigosimpl.h   |  1 +
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/basefct.cpp b/src/basefct.cpp
index 6afb0a9..bb98d1c 100644
--- a/src/basefct.cpp
+++ b/src/basefct.cpp
@@ -106,8 +106,8 @@ bool tsym::isFractionNumeric(const Base& arg)
 
 bool tsym::isRationalNumeric(const Base& expr)
 {
-    if (const auto num = expr.numericEval())
-        return num->isRational();
+    if (isNumeric(expr))
+        return expr.numericEval()->isRational();
     else
         return false;
 }
diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 11e8ea7..aa471ba 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -133,6 +133,8 @@ void tsym::NumTrigoSimpl::computeSinCosTan()
     if (isArgRationalNonZeroNumeric())
         /* This can't be simplified, break early. */
         return;
+    else if (isTooLargeForReduction())
+        return;
 
     prepareSinCosTan();
     detourSinCosTan();
@@ -146,6 +148,13 @@ bool tsym::NumTrigoSimpl::isArgRationalNonZeroNumeric() const
         return isRationalNumeric(*arg);
 }
 
+bool tsym::NumTrigoSimpl::isTooLargeForReduction() const
+/* Unless the argument is a multiple of Pi, large arguments can't be shifted into the first turn using double precision. */
+{
+    return std::abs(arg->numericEval()->toDouble()) > 1.e15 && !isNumeric(*arg)
+      && !isNumeric(*Product::create(arg, Power::oneOver(Pi)));
+}
+
 void tsym::NumTrigoSimpl::prepareSinCosTan()
 {
     if (isNumeric(*arg))
@@ -165,9 +174,15 @@ void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
 
-    /* The argument is shifted into 0 <= arg < 2*Pi, full turns of large arguments are removed at once. */
-    if (const double turns = std::trunc(arg->numericEval()->toDouble() / (2.0 * M_PI)); std::abs(turns) > 1.0)
-        arg = Sum::create(arg, Product::create(Numeric::create(-turns), twoPi));
+    /* The argument is shifted into 0 <= arg < 2*Pi, full turns of large arguments are removed at once, exactly for
+     * multiples of Pi. */
+    const BasePtr piMultiple(Product::create(arg, Power::oneOver(Pi)));
+    const Number n(*piMultiple->numericEval());
+    const Int turns = isRationalNumeric(*piMultiple) ? Int(n.numerator() / (2 * n.denominator())) :
+                                                       Int(std::trunc(n.toDouble() / 2.0));
+
+    if (abs(turns) > 1)
+        arg = Sum::create(arg, Product::create(Numeric::create(Number(Int(-turns))), twoPi));
 
     while (arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
diff --git a/src/numtrigosimpl.h b/src/numtrigosimpl.h
index 3f8e1a1..84960d8 100644
--- a/src/numtrigosimpl.h
+++ b/src/numtrigosimpl.h
@@ -33,6 +33,7 @@ namespace tsym {
         bool isNotAnInverseFct() const;
         void computeSinCosTan();
         bool isArgRationalNonZeroNumeric() const;
+        bool isTooLargeForReduction() const;
         void prepareSinCosTan();
         void adjustNumericArg();
         void adjustArgRange();
-- 
2.43.0


From 518dd44e8c1a151d22f35de7348001534d50a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 37/41] fix: inverse trigonometric functions of large arguments
 did not terminate

---
 src/trigonometric.cpp | 12 ++++++++++--
 src/trigonometric.h   |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 43ba0d0..7cf5f63 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -237,7 +237,7 @@ tsym::BasePtr tsym::Trigonometric::createFromTrigo(Type type, const BasePtr& arg
     else if (isThisTheInverse(type, otherType) && arg->numericEval())
         /* If the argument lies in an invalid range for the inner trigonometric function, the result
          * has been Undefined in the first place, thus no additional checks necessary here. */
-        return shiftArgIntoRange(type, other->arg1);
+        return shiftArgIntoRange(type, arg, other->arg1);
     else
         return createFromTrigoNoInverse(type, arg);
 }
@@ -278,7 +278,7 @@ namespace tsym {
     }
 }
 
-tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
+tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, const BasePtr& trigo, BasePtr arg)
 /* Asin(sin(...)), acos(cos(...)) and atan(tan(...)) are handled here, where the argument is
  * numerically evaluable. First, the argument is shifted into or closely above the range of
  * definition of the non-inverse trigonometric function (which is [-pi/2, pi/2] for sine and
@@ -289,6 +289,14 @@ tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
     const auto [lower, upper] = interval(type);
     const BasePtr& endFactor = type == Type::ATAN ? Numeric::mOne() : Numeric::one();
 
+    const double value = arg->numericEval()->toDouble();
+
+    if (std::abs(value) > 1.e15)
+        /* The period can't be resolved by double precision. */
+        return createInstance(type, {trigo});
+    else if (const double periods = std::trunc(value / (2.0 * M_PI)); std::abs(periods) > 1.0)
+        arg = Sum::create(arg, Product::create(Numeric::create(Number(Int(-2.0 * periods))), Constant::createPi()));
+
     while (arg->numericEval() >= upper->numericEval())
         arg = Sum::create(arg, timesPi(-2));
 
diff --git a/src/trigonometric.h b/src/trigonometric.h
index d01460f..93818b6 100644
--- a/src/trigonometric.h
+++ b/src/trigonometric.h
@@ -53,7 +53,7 @@ namespace tsym {
         static bool isOtherTheInverse(Type type, Type otherType);
         static bool isTanOfAtan2(Type type, Type otherType);
         static bool isThisTheInverse(Type type, Type otherType);
-        static BasePtr shiftArgIntoRange(Type type, BasePtr arg);
+        static BasePtr shiftArgIntoRange(Type type, const BasePtr& trigo, BasePtr arg);
         static BasePtr createFromTrigoNoInverse(Type type, const BasePtr& arg);
         static BasePtr createAtan2Numerically(
           const Number& yNum, const Number& xNum, const BasePtr& y, const BasePtr& x);
-- 
2.43.0


From f6d3c30c0b9bbc7006e979bee5403bd9642794dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:05 +0000
Subject: [PATCH 38/41] fix: numeric powers with exponents beyond 32 bits
 aborted

---
 src/number.cpp        | 3 +++
 src/numpowersimpl.cpp | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index 55a779d..26cfed1 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -181,6 +181,9 @@ std::optional<tsym::Number> tsym::Number::computeIrrationalPower(const Number& e
 {
     if (isDouble() || exponent.isDouble())
         return {std::pow(toDouble(), exponent.toDouble())};
+    else if (!fitsInto<unsigned>(abs(exponent.numerator())))
+        /* The exact result would be out of reach. */
+        return {std::pow(toDouble(), exponent.toDouble())};
 
     return std::nullopt;
 }
diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index 9dbda6e..17b2bac 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -85,6 +85,13 @@ void tsym::NumPowerSimpl::computeNegOrPosExp()
 void tsym::NumPowerSimpl::computeNegExp()
 /* Shifts the handling to positive exponents by and pre- and postmodifying the components. */
 {
+    if (!fitsInto<unsigned>(-result.exp.numerator()) && result.base != 0) {
+        result.base = result.base.toThe(-1);
+        result.exp *= -1;
+        computePosExp();
+        return;
+    }
+
     result.exp *= -1;
     result.preFactor = result.preFactor.toThe(-1);
 
@@ -150,7 +157,7 @@ bool tsym::NumPowerSimpl::areValuesSmallEnough() const
     else if (abs(result.preFactor.numerator()) > maxPrimeLimit || result.preFactor.denominator() > maxPrimeLimit)
         return false;
     else
-        return true;
+        return fitsInto<unsigned>(result.exp.numerator()) && fitsInto<unsigned>(result.exp.denominator());
 }
 
 void tsym::NumPowerSimpl::cancel()
-- 
2.43.0


From b2f23d2de44aaa1117722a355e433ffd2dea8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 39/41] fix: contraction of nested powers left factors of equal
 base unmerged

---
 src/productsimpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index a420c01..76d3881 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -284,6 +284,11 @@ namespace tsym {
             if (!simplified.empty() && isNumeric(*simplified.front()) && !isNumeric(*factor))
                 /* The simplification yields a leading number, e.g. in pi*(2^(1/3)*2^(2/3)): */
                 return merge({std::move(factor)}, simplified);
+            else if (!simplified.empty() && !factor->isConst() && haveEqualBases(*factor, *simplified.front())
+              && !areEqual(simplTwoFactors(factor, simplified.front()), {factor, simplified.front()}))
+                /* The contraction of nested powers yields a base that is already present, e.g. in
+                 * a*((a^b)^2*(a^b)^(-1)): */
+                return merge({std::move(factor)}, simplified);
 
             return join(std::move(factor), std::move(simplified));
         }
-- 
2.43.0


From 7ec959a77a855928e05ae6abcd97682016704204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 40/41] fix: atan2 of a tangent returned an angle of another
 quadrant

---
 src/trigonometric.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7cf5f63..fd008b6 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -372,8 +372,11 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
     const BasePtr atan2Arg(atan2ArgEval(y, x));
     const Trigonometric* trigo(tryCast(atan2Arg));
 
-    if (trigo != nullptr && trigo->type == Type::TAN)
-        return trigo->arg1;
+    if (trigo != nullptr && trigo->type == Type::TAN) {
+        const BasePtr result(Sum::create(create(Type::ATAN, atan2Arg), increment));
+
+        return result->isNegative() ? Sum::create(result, timesPi(2)) : result;
+    }
 
     NumTrigoSimpl numTrigo(atan2ArgEval(y, x), Type::ATAN);
 
-- 
2.43.0


From 2d472f610c0615002a7af36882e0b5e648a2a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:37 +0000
Subject: [PATCH 41/41] fix: logarithm of a tiny power of a constant was
 Undefined

---
 src/logarithm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index f8732c9..f2c89b0 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -48,9 +48,9 @@ bool tsym::Logarithm::isInvalidArg(const Base& arg)
         invalid = true;
     else if (isZero(arg))
         invalid = true;
-    else if (isPower(arg) && arg.base()->isEqual(*Constant::createE()))
-        /* Catches log(e^(-n)) with n being a large Numeric, which would numerically be evaluated to
-         * zero and thus resulting in an Undefined return value. */
+    else if (isPower(arg) && arg.base()->isPositive())
+        /* Catches log(e^(-n)) or log(pi^(-n)) with n being a large Numeric, which would numerically
+         * be evaluated to zero and thus resulting in an Undefined return value. */
         ;
     else if (arg.isNegative())
         invalid = true;
-- 
2.43.0

